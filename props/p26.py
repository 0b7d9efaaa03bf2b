import json, os, subprocess
from lib import common, decomp, fmp, harness, hostile, progcheck, progs, sources, specs
from props import p25, p27


def job(rng, sample):
    """(kind, arguments, files, whether two runs have to agree)"""
    x = rng.random()
    if x < 0.3:
        args, files = p25.program(rng, 8, False)
        return "program", args, files, True
    if x < 0.5:
        used = {k: set() for k in ("table", "occ", "list", "script", "test")}
        files, args = {}, []
        for i in range(rng.choice([1, 1, 2, 3])):
            n = common.stem(rng, "s%d" % i) + ".burn"
            files[n] = sources.random_source(rng, used, n=rng.choice([3, 10, 25])).text(sources.Format(rng, rng.choice(["plain", "tight", "wild"])))
            args += ["-c", n]
        return "source", args + ["--no-testing"], files, True
    if x < 0.7:
        kind, mains, tfiles, files, stages = p27.make(rng)
        return "commands", p27.arguments(rng, kind, mains, tfiles, rng.choice([[], ["--print-header"], ["--no-testing"]])), files, True
    if x < 0.9:
        files, args = {}, []
        for i in range(rng.choice([1, 1, 2])):
            n = common.stem(rng, "f%d" % i) + rng.choice([".fmp12", ".fmp12", ".fmp12", ".FMP12", "", ".burn"])
            if sample and rng.random() < 0.1: files[n] = sample
            else:
                sp = specs.random_spec(rng, big=rng.random() < 0.3, scripts=True, calc=decomp.CalcGen())
                files[n] = fmp.write(sp.items(rng), decomp.random_enc(rng))
            if rng.random() < 0.3: files[n] += bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 19, 500, 4095, 4097])))
            args += ["-d", n]
        return "image", args + rng.choice([[], ["--print-header"]]), files, True
    if rng.random() < 0.5: return "hostile_image", ["-d", "f.fmp12"] + rng.choice([[], ["--print-header"]]), {"f.fmp12": hostile.image(rng, sample)[1]}, False
    return "hostile_source", ["-c", "f.burn", "--no-testing"], {"f.burn": hostile.source(rng)[1]}, False


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h: out[os.path.relpath(p, d)] = h.read()
    return out


def allowed(args):
    """The files a command may write."""
    comp = [args[i + 1] if a == "-c" else a[2:].lstrip("=") for i, a in enumerate(args) if a.startswith("-c")]
    dec = [args[i + 1] if a == "-d" else a[2:].lstrip("=") for i, a in enumerate(args) if a.startswith("-d")]
    w = {"inspect_output/test_compile"} if comp else {"inspect_output/test_decompile"}
    w |= {os.path.basename(c)[:-5] + ".fmp12" for c in comp}
    if "--print-header" in args and dec: w.add("header.log")
    return w, dec


CLOCK = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long shift(void) { const char *s = getenv("SHIFT"); return s ? atol(s) : 0; }
int clock_gettime(clockid_t id, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, t);
    if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
    return r;
}
time_t time(time_t *out) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (out) *out = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval *out, void *z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); out->tv_sec = t.tv_sec; out->tv_usec = t.tv_nsec / 1000; return 0; }
"""


def clock():
    """A library that moves the calendar clock of the program it is loaded into, None without a C compiler."""
    out = os.path.join(common.BUILD, "clock.so")
    os.makedirs(common.BUILD, exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    try: r = subprocess.run(["gcc", "-shared", "-fPIC", "-x", "c", "-", "-o", tmp], input=CLOCK.encode(), capture_output=True).returncode
    except OSError: return None
    if r: return None
    os.replace(tmp, out)
    return out


def surroundings(rng, variant, lib):
    """The environment of a run: user, language, place, date."""
    if variant == "fresh": return {}
    e = {"USER": rng.choice(["root", "alice", "b\u00f6b"]), "LANG": rng.choice(["C", "de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8"]), "LC_ALL": rng.choice(["", "C", "fr_FR.UTF-8"]),
         "TZ": rng.choice(["Asia/Tokyo", "America/Lima", "UTC"]), "HOSTNAME": "h%d" % rng.randrange(99), "TERM": rng.choice(["dumb", "xterm-256color"]), "COLUMNS": str(rng.choice([20, 80, 400])),
         "TMPDIR": "/nowhere", "PWD": "/", "HOME": "/nowhere", "RUST_LOG": "trace", "DEBUG": "1", "NO_COLOR": "1", "CI": "true", "SOURCE_DATE_EPOCH": "1", "LOGNAME": "alice"}
    e = {k: v for k, v in e.items() if rng.random() < 0.7}
    if lib: e.update(LD_PRELOAD=lib, SHIFT=str(rng.choice([-1, 1]) * rng.choice([61, 3600, 86400, 40 * 86400, 1000 * 86400])))
    return e


def run(check):
    check.rule = ("random programs with tests, sources, databases and commands over several files; each command runs in three "
                  "directories (fresh, one with other files in the places it writes to and next to them, and a second time over its own "
                  "output), on other dates, as other users and with other environments, inputs of other ages and modes; output lines, status, model (as data) and every written byte are compared, all input files and unrelated files are "
                  "compared with what they were, also for damaged and hostile input; a case is one command, distinct by what it produced")
    binary, hooked = common.build()
    pth = os.path.join(common.REPO, "tests/input/blank.fmp12")
    sample = open(pth, "rb").read() if os.path.exists(pth) else None
    lib = clock()
    failed = []
    def one(b):
        if len(failed) >= 6: return None
        rng = check.rng("command", b)
        kind, args, files, agree = job(rng, sample)
        sub = rng.random() < 0.25                           # the input in a directory of its own
        if sub:
            files = {"in/" + n: d for n, d in files.items()}
            args = [("in/" + a if ("in/" + a) in files else a[:2] + "in/" + a[2:] if ("in/" + a[2:]) in files else a[:3] + "in/" + a[3:] if a[2:3] == "=" and ("in/" + a[3:]) in files else a) for a in args]
        may, dec = allowed(args)
        runs, bad = [], []
        decoys = {"other.fmp12": b"other" * 100, "other.burn": b"x", "inspect_output/notes": b"n", "header.txt": b"h", "target/x": b"y", "s": b"", "in/other.fmp12": b"z"}
        old = {"inspect_output/test_compile": b"{" * 60000, "inspect_output/test_decompile": b"old" * 3, "header.log": b"H" * 99999, "s0.fmp12": b"S" * 50000, "f0.fmp12": b"F" * 90000, "main.fmp12": b"M"}
        for variant in ("fresh", "decoys", "again"):
            with common.Scratch() as sc:
                present = dict(files)
                if variant == "decoys": present.update({k: v for k, v in {**decoys, **old}.items() if k not in present})
                for n, d in present.items():
                    os.makedirs(os.path.dirname(sc.path(n)), exist_ok=True)
                    sc.write(n, d)
                around = surroundings(rng, variant, lib)
                if variant == "again": common.run(binary, args, sc, cpu=10)
                if variant != "fresh":
                    for n in files:
                        os.utime(sc.path(n), (rng.randrange(1 << 31),) * 2)
                        os.chmod(sc.path(n), rng.choice([0o444, 0o600, 0o644, 0o755]))
                r = common.run(binary, args, sc, cpu=10, env=around)
                after = tree(sc.dir)
            for n, d in present.items():
                d = d.encode() if isinstance(d, str) else d
                if n in may and n not in files: continue
                if n in may and n in files: continue        # an input with the name of an output is not generated
                if n not in after: bad.append("%s: %s was removed" % (variant, n))
                elif after[n] != d: bad.append("%s: %s was changed" % (variant, n))
            extra = set(after) - set(present) - may
            if extra: bad.append("%s: wrote %s" % (variant, sorted(extra)))
            if r.rc == 0:
                missing = may - set(after)
                if missing: bad.append("%s: did not write %s" % (variant, sorted(missing)))
                src = files[dec[-1]] if dec else None
                if "header.log" in may and after.get("header.log") != src: bad.append("%s: header.log is no copy of the input" % variant)
            out = {n: after.get(n) for n in may}
            for n in list(out):
                if n.startswith("inspect_output") and out[n] is not None:
                    try: out[n] = json.loads(out[n])
                    except ValueError:
                        if r.rc == 0: bad.append("%s: %s is no JSON" % (variant, n))
            runs.append((r.rc, r.out, out))
        if agree:
            for v, o in zip(("decoys", "again"), runs[1:]):
                if o[0] != runs[0][0]: bad.append("%s: status %r, first %r" % (v, o[0], runs[0][0]))
                elif o[1] != runs[0][1]: bad.append("%s: the output differs" % v)
                elif o[0] == 0:
                    for n in may:
                        if o[2][n] != runs[0][2][n]: bad.append("%s: %s differs" % (v, n) + ("" if not isinstance(o[2][n], dict) else ": " + str(specs.diff(runs[0][2][n], o[2][n]))[:300]))
            if runs[0][0]: bad.append("a valid command ended with status %d" % runs[0][0])
        if bad: failed.append(b)
        return kind, args, hash_of(runs[0]), bad, {n: d if isinstance(d, str) else d.rstrip(b"\0").hex() for n, d in files.items()} if bad else None
    for res in common.parallel(one, range(common.quick(90, 2500))):
        if res is None: continue
        kind, args, fp, bad, files = res
        check.case((kind, fp)); check.count("commands_" + kind); check.count("runs", 4); check.count("runs_on_another_date", 2 if lib else 0); check.sample(args)
        if bad: check.violation("%s\n%s" % (args, "\n".join(bad)), {"args": args, "files": files})
    return check.finish(150)


def hash_of(run):
    import hashlib
    return hashlib.md5(repr((run[0], run[1], sorted((n, repr(d)) for n, d in run[2].items()))).encode()).hexdigest()
