import hashlib, json, os, re
from lib import common, decomp, hostile

TEST = 'test t:\n  script: [\n    define t() { set_variable(x, 1); assert(x == 1); }\n  ],\nend test;\n'
RSS = 400 << 10                                             # KiB; the largest image has 0.4 MB


def verdict(r, model, must_fail):
    """What is wrong with how a run ended, or None."""
    if r.signal == 24 or r.cpu > 9: return "did not end within %d s of CPU time" % r.cpu
    if r.signal: return "died from signal %d: %s" % (r.signal, r.err.strip()[-300:])
    if r.maxrss > RSS: return "used %d MB of memory" % (r.maxrss >> 10)
    if must_fail and r.rc == 0: return "was accepted"
    if r.rc == 0 and not isinstance(model, dict): return "ended with status 0 without a readable model"
    if r.rc and not r.err.strip(): return "ended with status %d and no message" % r.rc
    return None


def run(check):
    check.rule = ("damaged images (bit flips, edge bytes, truncation, extension, sector copies and swaps, rewritten links and "
                  "counts, shifted payloads), images of valid chunks with hostile contents, keys, paths and order, payloads of "
                  "chunk soup, files that are no database, and files that have to be refused (cycles, links and counts beyond "
                  "the end, invalid chunks), files that end inside a chunk of every kind and components whose data is too short; decompiled under CPU, memory and file-size limits, partly with a test run; damaged sources and token soup, compiled; a case "
                  "is one file, distinct by kind, outcome and message")
    binary, hooked = common.build()
    p = os.path.join(common.REPO, "tests/input/blank.fmp12")
    sample = open(p, "rb").read() if os.path.exists(p) else None
    failed = []                                             # each worker has its own
    edges = hostile.overruns() + hostile.shortened()
    check.rng("edges").shuffle(edges)
    edges = edges[:common.quick(75, 1000, 8)]
    def one(b):
        if len(failed) >= 6: return None
        rng = check.rng("image", b)
        must = b >= 0 and rng.random() < 0.12
        kind, img = edges[-1 - b] if b < 0 else hostile.certain(rng) if must else hostile.image(rng, sample)
        extra, files = ((), None) if rng.random() < 0.7 else (("-t", "t.burn"), {"t.burn": TEST})
        with common.Scratch() as sc:
            sc.write("f.fmp12", img)
            for n, d in (files or {}).items(): sc.write(n, d)
            r = common.run(binary, ["-d", "f.fmp12"] + list(extra), sc, cpu=10, mem=1 << 30)
            try: model = json.loads(sc.read("inspect_output/test_decompile").decode("utf-8"))
            except (OSError, ValueError): model = None
            changed = sc.read("f.fmp12") != img
        # a test may legitimately abort on a hostile schema, after the model was written
        bad = verdict(r, model, must and not extra) or ("was changed" if changed else None)
        if bad: failed.append(b)
        msg = re.sub(r"\d+", "#", r.err.strip().split("\n")[1] if "\n" in r.err.strip() else r.err.strip())[:80] if r.rc else ""
        return kind, must, r.rc, msg, len(model["tables"]) if r.rc == 0 and model and "tables" in model else None, bad and "%s image of %d bytes %s" % (kind, len(img), bad), decomp.file_note(img) if bad else None
    for res in common.parallel(one, range(-len(edges), common.quick(850, 30000))):
        if res is None: continue
        kind, must, rc, msg, tables, bad, note = res
        check.case((kind, rc, msg, tables))
        check.count("outcome_" + ("model" if rc == 0 else "error" if rc > 0 else "signal")); check.count("kind_" + kind.split("+")[0].split("-")[0])
        if must: check.count("had_to_be_refused")
        if msg: check.sample("%s -> %s" % (kind, msg), 8)
        if bad: check.violation(bad, {"file": note, "kind": kind})
    failed.clear()
    def source(b):
        rng = check.rng("text", b)
        if len(failed) >= 6: return None
        kind, text = hostile.source(rng)
        with common.Scratch() as sc:
            sc.write("f.burn", text)
            r = common.run(binary, ["-c", "f.burn", "--no-testing"], sc, cpu=10, mem=1 << 30)
            try: model = json.loads(sc.read("inspect_output/test_compile").decode("utf-8"))
            except (OSError, ValueError): model = None
        bad = verdict(r, model, False)
        if bad: failed.append(b)
        msg = re.sub(r"\d+", "#", r.err.strip())[-80:] if r.rc else ""
        return kind, r.rc, msg, bad and "%s source %s" % (kind, bad), text if bad else None
    for res in common.parallel(source, range(common.quick(400, 15000))):
        if res is None: continue
        kind, rc, msg, bad, text = res
        check.case(("source", kind, rc, msg)); check.count("source_" + kind); check.count("source_" + ("model" if rc == 0 else "error" if rc > 0 else "signal"))
        if bad: check.violation(bad, {"source": text})
    return check.finish(60)
