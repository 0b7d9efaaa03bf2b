import copy, json, os
from lib import common, grammar, sources, specs


def steps_of(decls):
    out = []
    def go(t):
        for i, s in enumerate(t):
            if s[0] == "step": out.append((t, i))
            elif s[0] == "loop": go(s[1])
            else:
                for c, b in s[1]: go(b)
                if s[2] is not None: go(s[2])
    for d in decls:
        if d[0] == "scripts":
            for n, p, b in d[1]: go(b.tree)
        elif d[0] == "test": go(d[2][2].tree)
    return out


def source(rng, tests=True):
    used = {k: set() for k in ("table", "occ", "list", "script", "test")}
    kinds = ("table", "occ", "rel", "list", "scripts", "test") if tests else ("table", "occ", "rel", "list", "scripts")
    return sources.random_source(rng, used, n=rng.choice([1, 1, 2, 3, 5, 9]), kinds=kinds)


def unknown_step(rng, binary):
    """A source with one step the tool does not know, and what has to be left of it."""
    while True:
        s = source(rng)
        if steps_of(s.decls): break
    bad = sources.Source(copy.deepcopy(s.decls))
    k = rng.randrange(len(steps_of(s.decls)))
    t, i = steps_of(bad.decls)[k]
    name = rng.choice(["my_" + t[i][1], t[i][1] + "_x", "no_such_step", "sett_field", "goto_record_now", "asserts", "ifx", "loops", "perform", "é"])
    t[i] = ("step", name, t[i][2])
    t, i = steps_of(s.decls)[k]
    del t[i]
    text = bad.text(sources.Format(rng, rng.choice(["plain", "tight", "wild"])))
    with common.Scratch() as sc:
        sc.write("a.burn", text)
        r = common.run(binary, ["-c", "a.burn", "--no-testing"], sc, cpu=10)
        try: m = json.loads(sc.read("inspect_output/test_compile").decode())
        except (OSError, ValueError): m = None
    if r.rc or m is None: return text, name, "compiling ended with status %d: %s" % (r.rc, r.err.strip()[-300:])
    if name not in r.err: return text, name, "the unknown step %r is not reported: %r" % (name, r.err.strip()[-300:])
    return text, name, specs.diff(s.model(), sources.read(m))


def refused(rng, binary, kind):
    """(text, form of the command, what is wrong) or None"""
    s = source(rng)
    f = sources.Format(rng, rng.choice(["plain", "tight", "wild"]))
    ps = grammar.pieces(s.decls, f)
    ps = grammar.break_it(rng, ps, kind)
    if ps is None: return None
    text = "".join(ps)
    form = rng.choice(["alone", "alone", "alone", "after", "before", "test"])
    good = source(rng, tests=False).text(sources.Format(rng, "plain")) if form != "alone" else ""
    quiet = rng.random() < 0.4
    def files(sc):
        res = {os.path.relpath(os.path.join(d, n), sc.dir): open(os.path.join(d, n), "rb").read() for d, _, ns in os.walk(sc.dir) for n in ns if not n.startswith(".")}
        try: res["inspect_output/test_compile"] = json.loads(res["inspect_output/test_compile"])      # its keys come in any order
        except ValueError: pass
        return res
    with common.Scratch() as sc:
        sc.write("good.burn", good)
        sc.write("inspect_output/test_compile", "what was there before")
        if form == "after": common.run(binary, ["-c", "good.burn", "--no-testing"], sc, cpu=10)
        want = files(sc)
        want["broken.burn"] = text.encode()
    with common.Scratch() as sc:
        sc.write("good.burn", good); sc.write("broken.burn", text)
        sc.write("inspect_output/test_compile", "what was there before")
        args = {"alone": ["-c", "broken.burn"], "after": ["-c", "good.burn", "-c", "broken.burn"], "before": ["-c", "broken.burn", "-c", "good.burn"],
                "test": ["-c", "good.burn", "-t", "broken.burn"]}[form] + (["--no-testing"] if quiet else [])
        r = common.run(binary, args, sc, cpu=10)
        got = files(sc)
    if r.signal: bad = "ended by signal %s" % r.signal
    elif r.rc == 0: bad = "was accepted"
    elif not r.err.strip(): bad = "was refused without a word"
    elif "Running test: " in r.out: bad = "ran a test"
    elif sorted(got) != sorted(want): bad = "left the files %r, expected are %r" % (sorted(got), sorted(want))
    elif any(got[n] != want[n] for n in got): bad = "changed %r" % [n for n in got if got[n] != want[n]]
    else: bad = None
    return text, (form, args), bad


def run(check):
    check.rule = ("valid sources of all declarations in which one structural error was planted (%d kinds: a missing or "
                  "wrong name, colon, semicolon, bracket, brace, parenthesis, quote, end, script; stray tokens), given alone, "
                  "before, after and as tests of another source: exit status, messages and every file left are observed; "
                  "sources with one unknown step: message and whole model; a case is one command, distinct by error, form and "
                  "source" % len(grammar.REFUSED))
    binary, hooked = common.build()
    def one(b):
        rng = check.rng("source", b)
        res = []
        for kind in grammar.REFUSED:
            x = refused(rng, binary, kind)
            if x: res.append((kind,) + x)
        for _ in range(3): res.append(("unknown step",) + unknown_step(rng, binary))
        return res
    for res in common.parallel(one, range(common.quick(20, 400))):
        for kind, text, form, bad in res:
            check.case((kind, form, text)); check.count(kind.replace(" ", "_"))
            if kind != "unknown step": check.count("form_" + form[0])
            if len(check.samples) < 8: check.sample({"error": kind, "source": text[:400]})
            if bad: check.violation("a source with the error %r (%s) %s\n%s" % (kind, form, bad, text[:900]), {"error": kind, "form": form, "source": text})
    for kind in grammar.REFUSED:
        if not check.violations and not check.extra.get(kind.replace(" ", "_")): raise common.Inconclusive("no source with the error %r was generated" % kind)
    return check.finish(500)
