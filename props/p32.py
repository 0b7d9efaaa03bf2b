import json, os
from lib import common, decomp, fmp, hostile, sources, specs

TEST = 'test t_%s:\n  script: [\n    define t_%s() { set_variable(x, 1); assert(x == 1); }\n  ],\nend test;\n'


def tree(sc):
    """Every file of the directory with its content, models as data."""
    res = {}
    for d, ds, ns in os.walk(sc.dir):
        for n in ns:
            if n.startswith(".std"): continue
            p = os.path.join(d, n)
            k = os.path.relpath(p, sc.dir)
            if os.path.islink(p): res[k] = ("link", os.readlink(p)); continue
            with open(p, "rb") as f: res[k] = f.read()
            if k.startswith("inspect_output"):
                try: res[k] = json.loads(res[k])             # its keys come in any order
                except ValueError: pass
    return res


def good(rng, kind, n):
    """(name, content) of an input or test file that can be used"""
    if kind == "-t": return n + ".burn", TEST % (n, n)
    if kind == "-c":
        used = {k: set() for k in ("table", "occ", "list", "script", "test")}
        s = sources.random_source(rng, used, n=rng.choice([0, 1, 2, 4]), kinds=("table", "occ", "rel", "list", "scripts")).text(sources.Format(rng, rng.choice(["plain", "tight", "wild"])))
        return n + ".burn", s + (TEST % (n, n) if rng.random() < 0.4 else "")
    sp = specs.random_spec(rng, scripts=rng.random() < 0.5)
    return n + ".fmp12", fmp.write(sp.items(rng), decomp.random_enc(rng))


def unusable(rng, kind, n):
    """(what, name, how to make it: content, None for nothing, "dir", "loop")"""
    what = rng.choice(["missing", "missing", "directory", "loop", "below a file"] + (["damaged"] * 5 + ["empty", "short"] if kind == "-d" else ["not UTF-8"] * 3) + (["ending"] * 2 if kind == "-c" else []))
    name = n + (".fmp12" if kind == "-d" else ".burn")
    if what == "missing": return what, rng.choice([name, "no/such/" + name]), None
    if what == "directory": return what, name, "dir"
    if what == "loop": return what, name, "loop"
    if what == "below a file": return what, "notes/" + name, None
    if what == "empty": return what, name, b""
    if what == "short": return what, name, good(rng, kind, n)[1][:rng.choice([1, 100, 4095, 4096, 4100])]
    if what == "damaged":
        k, img = hostile.certain(rng)
        return k, name, img
    if what == "ending": return what, rng.choice([n, n + ".txt", n + ".BURN", n + ".burn.bak", n + "burn", n + ".burn~", n + ".fmp12"]), good(rng, kind, n)[1]
    b = good(rng, kind, n)[1].encode()
    if rng.random() < 0.7: b += (b"" if rng.random() < 0.5 else b"\ntable more:\nend table;\n")
    i = rng.randrange(len(b) + 1) if rng.random() < 0.6 else len(b)
    return what, name, b[:i] + rng.choice([b"\xff", b"\x80", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xfe\xff", b"\xc0\xaf"]) + b[i:]


def one_case(rng, binary):
    op = rng.choice(["-c", "-d"])
    inputs = [good(rng, op, "%s%d" % (rng.choice("abc"), i)) for i in range(rng.choice([0, 1, 1, 2, 3]))]
    tests = [good(rng, "-t", "t%d" % i) for i in range(rng.choice([0, 0, 1, 2]))]
    where = "-t" if inputs and rng.random() < 0.25 else op
    what, name, how = unusable(rng, where, "bad")
    seq = tests if where == "-t" else inputs
    at = rng.randrange(len(seq) + 1)
    flags = (["--no-testing"] if rng.random() < 0.3 else []) + (["--print-header"] if rng.random() < 0.15 else [])

    def args(ins, ts):
        i = [x for n, _ in ins for x in (op, n)]
        t = [x for n, _ in ts for x in ("-t", n)]
        return (i + t if order else t + i) + flags
    order = rng.random() < 0.5
    bad_one = [(name, how)]
    full = args(inputs, tests[:at] + bad_one + tests[at:]) if where == "-t" else args(inputs[:at] + bad_one + inputs[at:], tests)
    before = [] if where == "-t" else inputs[:at]
    old = rng.random() < 0.7

    def setup(sc):
        sc.write("notes", "n")
        for n, d in inputs + tests: sc.write(n, d)
        if how == "dir": os.mkdir(sc.path(name))
        elif how == "loop": os.symlink(name, sc.path(name))
        elif how is not None: sc.write(name, how)
        if old:                                              # outputs of earlier commands
            for n in ("test_compile", "test_decompile"): sc.write("inspect_output/" + n, "what was there before")
            for n, _ in inputs + bad_one:
                stem = os.path.basename(n).split(".")[0]
                if op == "-c" and not os.path.exists(sc.path(stem + ".fmp12")): sc.write(stem + ".fmp12", "an older database")
            sc.write("header.log", "an older log")
    with common.Scratch() as sc:
        setup(sc)
        ref = common.run(binary, args(before, tests), sc, cpu=10) if before else None
        want = tree(sc)
    with common.Scratch() as sc:
        setup(sc)
        r = common.run(binary, full, sc, cpu=10)
        got = tree(sc)
    logged = "--print-header" in flags and op == "-d" and where == "-d" and isinstance(how, bytes)
    if logged:                                               # the log is made before the file is looked at
        for t in (want, got): t.pop("header.log", None)
    ran = lambda x: [l for l in x.out.split("\n") if l.startswith("Running test: ")] if x else []
    if ref and ref.rc: bad = "the command without it ended with status %d: %s" % (ref.rc, ref.err.strip()[-200:])
    elif r.signal: bad = "ended by signal %s" % r.signal
    elif r.rc == 0: bad = "ended with status 0"
    elif not r.err.strip(): bad = "ended with status %d and no message" % r.rc
    elif sorted(got) != sorted(want): bad = "left the files %r, expected are %r" % (sorted(got), sorted(want))
    elif any(got[n] != want[n] for n in got): bad = "changed %r" % [n for n in got if got[n] != want[n]]
    elif ran(r) != ran(ref): bad = "ran the tests %r, expected are %r" % (ran(r), ran(ref))
    else: bad = None
    files = {n: d if isinstance(d, str) else d.rstrip(b"\0").hex() if d else None for n, d in inputs + tests + bad_one}
    return (op, where, what, len(before), len(inputs), len(tests), tuple(flags), old), full, bad, files if bad else None, len(ran(r))


def run(check):
    check.rule = ("random commands of valid sources or databases and test files with one input that cannot be used (missing, a directory, "
                  "a link to itself, below a file, not UTF-8, without the ending of sources, empty, cut, a database with a cycle, a link or count "
                  "beyond its end or an invalid chunk) at any place, among outputs of earlier commands or none: exit status, messages, tests run "
                  "and every file afterwards are compared with those of the command that ends before that input; a case is one command, distinct "
                  "by operation, defect, place and numbers of inputs")
    binary, hooked = common.build()
    def some(b):
        rng = check.rng("command", b)
        return [one_case(rng, binary) for _ in range(6)]
    for rs in common.parallel(some, range(common.quick(120, 3000))):
        for key, args, bad, files, ran in rs:
            check.case((key, tuple(args))); check.count("unusable_" + key[2].replace(" ", "_")); check.count("place_" + key[1][1])
            check.count("inputs_before", key[3]); check.count("tests_run", ran)
            check.sample({"what": key[2], "args": args})
            if bad: check.violation("%s with an unusable input (%s) %s" % (args, key[2], bad), {"args": args, "files": files})
    return check.finish(200)
