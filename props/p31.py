import json, os
from lib import common
from props import p26

FAULTS = ["directory", "full", "limit", "limit", "no_directory", "dangling", "stdout_full", "stdout_gone"]


def content(path):
    """What a regular file holds; None for anything else."""
    if os.path.islink(path) or not os.path.isfile(path): return None
    with open(path, "rb") as f: return f.read()


def meaning(name, data):
    """A model as data, the order of its keys says nothing."""
    if data is None or not name.startswith("inspect_output"): return data
    try: return json.loads(data)
    except ValueError: return ("no JSON", data[:200])


def prepare(sc, files):
    for n, d in files.items():
        os.makedirs(os.path.dirname(sc.path(n)), exist_ok=True)
        sc.write(n, d)


def outputs(sc, names): return {n: meaning(n, content(sc.path(n))) for n in names}


def run(check):
    check.rule = ("random valid commands (programs with tests, sources, databases, several files) are run once undisturbed and then with one "
                  "fault in the way of one of their outputs: a directory or an endless link in its place, a full device, a missing "
                  "directory, a file-size limit below or above the size of the outputs, a full or closed standard output. A run that ends with "
                  "status 0 has to have written what the undisturbed one wrote; one that cannot has to end in an error status and not by a "
                  "signal; inputs and unrelated files stay as they are. A case is a command with a fault, distinct by fault, output and sizes")
    binary, hooked = common.build()
    failed = []

    def one(b):
        if len(failed) >= 4: return None
        rng = check.rng("command", b)
        while True:
            kind, args, files, agree = p26.job(rng, None)
            if agree: break
        if rng.random() < 0.3 and "-d" in args and "--print-header" not in args: args = args + ["--print-header"]
        names, _ = p26.allowed(args)
        res = []
        with common.Scratch() as sc:
            prepare(sc, files)
            ref = common.run(binary, args, sc, cpu=10)
            want = outputs(sc, names)
            size = {n: os.path.getsize(sc.path(n)) for n in names if want[n] is not None}
        if ref.rc or None in want.values():
            failed.append(b)
            return [((kind, "none"), "an undisturbed command ended with status %d, without %s" % (ref.rc, [n for n in want if want[n] is None]), args, files)]
        for fault in rng.sample(FAULTS, 3) + ["limit"]:
            target = rng.choice(sorted(names))
            limit, out, possible = 256 << 20, None, False
            with common.Scratch() as sc:
                prepare(sc, dict(files, **{"notes": b"n", "inspect_output/notes": b"n"} if fault != "no_directory" else {}))
                p = sc.path(target)
                if fault == "directory": os.mkdir(p)
                elif fault == "full": os.symlink("/dev/full", p)
                elif fault == "dangling": os.symlink(rng.choice([p, sc.path("nowhere/x")]), p)
                elif fault == "no_directory":
                    target = "inspect_output"
                    for f in os.listdir(sc.path(target)): os.unlink(sc.path(target + "/" + f))
                    os.rmdir(sc.path(target))
                elif fault == "limit":
                    target, s = rng.choice(sorted(size.items()))
                    limit = max(0, rng.choice([s - 1, s, s + 1, s // 2, s // 4096 * 4096, s - rng.randrange(1, 600), rng.randrange(s + 2), max(size.values())]))
                    # what earlier files of the command left in between may have been larger
                    possible = max(size.values()) <= limit and sum(a[:2] in ("-c", "-d") for a in args) == 1
                elif fault == "stdout_full":
                    target, out, possible = "stdout", os.open("/dev/full", os.O_WRONLY), not ref.out
                else:
                    target = "stdout"
                    r, out = os.pipe(); os.close(r)
                    possible = not ref.out
                if fault == "limit": out = os.open("/dev/null", os.O_WRONLY)
                before = {n: content(sc.path(n)) for n in files}
                r = common.run(binary, args, sc, cpu=10, fsize=limit, stdout=out, stderr=out if fault == "limit" else None, report=True)
                if out is not None: os.close(out)
                got = outputs(sc, names)
                bad = []
                if r.rc < 0: bad.append("died from signal %d" % -r.rc)
                elif r.rc == 0:
                    for n in sorted(names):
                        if got[n] != want[n]: bad.append("status 0, but %s was %s" % (n, "not written" if got[n] is None else "not written in full"))
                    if out is None and r.out != ref.out: bad.append("status 0 with other output lines")
                    if fault.startswith("stdout") and not possible: bad.append("status 0 although no output line could be written")
                elif possible: bad.append("status %d although everything could be written: %s" % (r.rc, r.err.strip()[-200:]))
                for n, d in before.items():
                    if content(sc.path(n)) != d: bad.append("the input %s was changed" % n)
                left = {os.path.relpath(os.path.join(d, f), sc.dir) for d, _, fs in os.walk(sc.dir) for f in fs} - set(files) - names - {"notes", "inspect_output/notes"}
                if left and r.rc == 0: bad.append("wrote %s" % sorted(left))
            what = "model" if target.startswith("inspect") else target[-6:]
            res.append(((fault, what, "possible" if possible else "refusable", limit if fault == "limit" else 0, tuple(sorted(size.values()))), bad and "%s of %s: %s" % (fault, target, "; ".join(bad)), args, files))
            if bad: failed.append(b)
        return res
    for rs in common.parallel(one, range(common.quick(150, 4000))):
        for key, bad, args, files in rs or []:
            check.case(key); check.sample([key[0], args])
            check.count("fault_%s_%s" % (key[0], key[1])); check.count("runs")
            if len(key) > 2: check.count(key[2])
            if bad: check.violation("%s\n%s" % (args, bad), {"args": args, "files": {n: d if isinstance(d, str) else d.rstrip(b"\0").hex() for n, d in files.items()}})
    return check.finish(200)
