import os, re
from lib import burn, common, decomp, fmp, gen, harness, hostile, progcheck, progs, sources, specs
from props import p29

TEST = 'test t:\n  script: [\n    define t() { set_variable(x, "é" & 1); assert(Min(x, 2) == x); show_custom_dialog(Char(233)) }\n  ],\nend test;\n'


def program(rng, tests, small):
    """A schema or a source with scripts, and tests for it."""
    if rng.random() < 0.6:
        w = {k: v for k, v in p29.W.items() if k not in ("call", "setf", "assert_false", "exit")}
        bt = progcheck.db_batch(rng, None, False, w, n_scripts=0 if small else rng.choice([0, 1, 2]))
    else: bt = progcheck.source_batch(rng, None, False, {"set": 2, "probe": 2, "if": 1, "loop": 1}, rng.choice([0, 1, 2]))
    cases = []
    for _ in range(tests * 6):
        p = progs.Progs(rng, p29.W if bt.schema else {"set": 2, "probe": 2, "if": 1, "loop": 1, "call": 1, "assert_false": 0.1}, bt.schema, list(bt.scripts))
        c = harness.make_case("t%d" % len(cases), (p.start() if bt.schema and not small else []) + p.body(rng.randrange(2, 5 if small else 14), 2, {}), burn.World(bt.schema, bt.scripts, budget=200 if small else 1500),
                              burn.Printer(rng, style=rng.choice(["plain", "tight", "wild"])))
        if c: cases.append(c)
        if len(cases) >= tests: break
    files = dict(bt.session.files)
    files["cases.burn"] = "".join(c.source for c in cases)
    return list(bt.session.args) + ["-t", "cases.burn"], files


def damaged(rng, s):
    """Sometimes with bytes that are not UTF-8."""
    if rng.random() < 0.75 or not s: return s
    b = s.encode("utf-8")
    for _ in range(rng.choice([1, 1, 3])):
        i = rng.randrange(len(b) + 1)
        b = b[:i] + rng.choice([b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f"]) + b[i:]
    return b


def job(rng, sample=None, small=False):
    """(kind, arguments, files)"""
    x = rng.random()
    if x < 0.3:
        args, files = program(rng, 2 if small else 10, small)
        return "program", args, files
    if x < 0.45:
        s = sources.random_source(rng, n=rng.choice([1, 3]) if small else None)
        return "source", ["-c", "f.burn", "--no-testing"], {"f.burn": s.text(sources.Format(rng, rng.choice(["plain", "tight", "wild"])))}
    if x < 0.6: return "hostile_source", ["-c", "f.burn"] + rng.choice([["--no-testing"], []]), {"f.burn": damaged(rng, hostile.source(rng)[1])}
    extra, files = rng.choice([([], {}), (["-t", "t.burn"], {"t.burn": TEST}), (["--print-header"], {})])
    if x < 0.7:
        sp = specs.random_spec(rng, big=not small and rng.random() < 0.2, scripts=True, calc=decomp.CalcGen())
        files["f.fmp12"] = fmp.write(sp.items(rng), decomp.random_enc(rng))
        return "image", ["-d", "f.fmp12"] + extra, files
    kind, img = hostile.image(rng, sample)
    while small and len(img) > 5 * 4096: kind, img = hostile.image(rng)
    files["f.fmp12"] = img
    return "hostile_image", ["-d", "f.fmp12"] + extra, files


def not_text(sc):
    """A String has to hold UTF-8, so what is printed and written from Strings has to be UTF-8, too."""
    for n in (".stdout", "inspect_output/test_compile", "inspect_output/test_decompile"):
        if not os.path.exists(sc.path(n)): continue
        try: sc.read(n).decode("utf-8")
        except UnicodeDecodeError as e:
            if e.reason == "unexpected end of data" and e.end == len(e.object): continue      # cut by a limit of the run
            return "%s has the bytes %s: a String without valid UTF-8" % (n, e.object[max(0, e.start - 20):e.end + 20].hex())
    return None


def verdict(r):
    m = re.search(r"(ERROR: \w*Sanitizer: .*)|(runtime error: .*)|(unsafe precondition\(s\) violated.*)|(error: Undefined Behavior: .*)|(.*memory allocation of \d+ bytes failed.*)", r.err)
    if m: return m.group(0)[:400]
    if r.signal and r.signal != 24: return "died from signal %d: %s" % (r.signal, r.err.strip()[-300:])
    return None


def run(check):
    check.rule = ("the tool built with AddressSanitizer and all debug assertions (overflow, alignment, unsafe preconditions), and "
                  "interpreted by Miri, on valid programs with tests, valid and damaged sources, valid and hostile database files "
                  "on files that end inside a chunk of every kind and on components whose data is too short, and encoder calls with hostile text; every run is watched for sanitizer reports, undefined behaviour, fatal "
                  "signals and text in its outputs that is not UTF-8; a case is one run, distinct by kind, outcome and message")
    binary, hooked = common.build("asan")
    miri = common.miri()
    p = os.path.join(common.REPO, "tests/input/blank.fmp12")
    sample = open(p, "rb").read() if os.path.exists(p) else None
    failed = []
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=1500"}
    edges = hostile.overruns() + hostile.shortened()
    def execute(salt, b, small):
        if len(failed) >= 4: return None
        rng = check.rng(salt, b)
        if salt == "edge":
            kind, img = edges[b]
            args, files = ["-d", "f.fmp12"], {"f.fmp12": img}
        else: kind, args, files = job(rng, sample, small)
        with common.Scratch() as sc:
            for n, d in files.items(): sc.write(n, d)
            if salt == "miri":
                e = miri[1]
                r = common.run(miri[0][0], miri[0][1:] + args, sc, env=e, cpu=200, mem=None, wall=600)
            else: r = common.run(binary, args, sc, env=env, cpu=20, mem=None)
            bad = verdict(r) or not_text(sc)
        if bad: failed.append(b)
        lines = [l for l in r.err.strip().split("\n") if "panicked at" not in l and l.strip()]
        msg = re.sub(r"\d+", "#", lines[0])[:60] if r.rc and lines else ""
        return kind, args, r.rc, msg, bad and "%s, %s: %s" % (salt, kind, bad), {n: d if isinstance(d, str) else d.rstrip(b"\0").hex() for n, d in files.items()} if bad else None
    work = [("asan", lambda b: execute("asan", b, False), range(common.quick(300, 8000)))]
    work.append(("edge", lambda b: execute("edge", b, False), range(len(edges))))
    if miri: work.append(("miri", lambda b: execute("miri", b, True), range(common.quick(2, 40))))
    else: check.assumptions.append("Miri did not build the tool: only AddressSanitizer was used")
    for name, fn, items in work:
        for res in common.parallel(fn, items):
            if res is None: continue
            kind, args, rc, msg, bad, files = res
            check.case((name, kind, rc, msg)); check.count(name + "_" + kind.split("-")[0]); check.count("%s_ended_%s" % (name, "well" if rc == 0 else "in_error"))
            if bad: check.violation(bad, {"args": args, "files": files, "tool": name})
    # encoders and decoders on any bytes
    if "codec" in hooked and not failed:
        rng = check.rng("codec")
        cmds = []
        for _ in range(common.quick(100, 1000)):
            t = rng.choice([gen.literal_text(rng, maxlen=40), "".join(chr(rng.choice([rng.randrange(128), rng.randrange(0xD000), 0x1F600])) for _ in range(rng.randrange(0, 30)))])
            cmds.append({"op": rng.choice(["encode_text", "encrypt"]), "arg": t})
            cmds.append({"op": rng.choice(["decode_bytes", "decrypt"]), "arg": [rng.randrange(256) for _ in range(rng.randrange(0, 40))]})
            cmds.append({"op": "get_path_int", "arg": [rng.randrange(256) for _ in range(rng.randrange(0, 5))]})
            cmds.append({"op": rng.choice(["put_int", "put_path_int"]), "arg": rng.choice([0, 127, 128, 255, 256, 1151, 2 ** 16, 2 ** 24, 2 ** 32 - 1, rng.randrange(2 ** 32)])})
        with common.Scratch() as sc:
            import json
            sc.write("cmds.json", json.dumps(cmds))
            r = common.run(binary, [], sc, env=dict(env, BURN_VERIF_DRIVE="cmds.json"), cpu=60, mem=None)
        check.count("codec_calls", len(cmds))
        bad = verdict(r)
        if bad: check.violation("codec calls: " + bad, {"commands": cmds})
    return check.finish(40)
