"""Shared machinery: building /repo, running the tool, seeds, verdicts, evidence."""
import fcntl, glob, hashlib, json, os, pickle, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BURN_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = min(8, os.cpu_count() or 4)


class Inconclusive(Exception):
    """The run can neither confirm nor refute (build failed, watchdog fired, too few events)."""


# ---------------------------------------------------------------- building

def cargo_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith("BURN_VERIF")}
    for line in open("/opt/vp/env.sh") if os.path.exists("/opt/vp/env.sh") else []:
        m = re.match(r"export (\w+)=(.*)$", line.strip())
        if m and m.group(1) not in ("HOME", "PATH"):
            env[m.group(1)] = m.group(2)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env.pop("RUSTFLAGS", None)
    return env


def repo_sources_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def _seed_deps(target):
    """Reuse the dependencies /repo/target holds (never the crate itself)."""
    src = os.path.join(REPO, "target", "debug")
    dst = os.path.join(target, "debug")
    if os.path.isdir(dst) or not os.path.isdir(os.path.join(src, ".fingerprint")):
        return
    os.makedirs(dst, exist_ok=True)
    for d in ("deps", "build", ".fingerprint"):
        if os.path.isdir(os.path.join(src, d)):
            subprocess.run(["cp", "-a", os.path.join(src, d), dst], check=False)


def _cargo(target, extra, rustflags=None, toolchain=None, triple=None):
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = target
    if rustflags: env["RUSTFLAGS"] = rustflags
    cmd = ["cargo"]
    if toolchain:
        cmd.append("+" + toolchain)
        env.pop("RUSTUP_TOOLCHAIN", None)
    cmd += ["rustc", "--offline", "--locked", "--bin", "burn_fm"]
    if triple: cmd += ["--target", triple]
    cmd += ["--"] + extra
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def _drop_crate(target):
    for pat in ("*/.fingerprint/burn_fm-*", "*/*/.fingerprint/burn_fm-*", "*/deps/burn_fm-*", "*/*/deps/burn_fm-*"):
        for p in glob.glob(os.path.join(target, pat)):
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


PARTS = ("codec", "database", "state", "trace")    # of the observation points


class Hooked(frozenset):
    """The parts of the observation points that are in a build; true when it has the trace of states."""
    def __bool__(self): return {"trace", "state"} <= self
    def __repr__(self): return "observation points: " + (" ".join(sorted(self)) or "none")


def build(kind="hook"):
    """Builds the tool from /repo's working tree; returns (binary, Hooked).
    kind: 'hook' (observation points on), 'asan' (nightly AddressSanitizer build).
    Where a part of the observation points does not build (the tree renamed what it observes) the others are used."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "bin")
    os.makedirs(out, exist_ok=True)
    digest = repo_sources_digest()[:24]
    stem = os.path.join(out, "burn_fm-%s-%s-" % (kind, digest))
    log = [""]

    def attempt(parts):
        cfg = [] if parts is None else ["--cfg", "burn_verif"] + [x for p in PARTS if p not in parts for x in ("--cfg", "burn_verif_no_" + p)]
        if kind == "asan":
            target = os.path.join(BUILD, "asan")
            triple = "x86_64-unknown-linux-gnu"
            _drop_crate(target)
            rc, log[0] = _cargo(target, cfg, rustflags="-Zsanitizer=address -Cdebuginfo=1 -Cdebug-assertions=on",
                                toolchain="nightly", triple=triple)
            built = os.path.join(target, triple, "debug", "burn_fm")
        else:
            target = os.path.join(BUILD, "t")
            _seed_deps(target)
            _drop_crate(target)
            rc, log[0] = _cargo(target, cfg)
            built = os.path.join(target, "debug", "burn_fm")
        return built if rc == 0 else None

    with open(os.path.join(BUILD, "lock-" + kind), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for f in glob.glob(stem + "*"):
            if not f.endswith(".tmp"): return f, Hooked(x for x in f[len(stem):].split("+") if x != "none")
        parts = set(PARTS)
        built = attempt(parts)
        if not built:
            parts = {p for p in ("codec", "state") if attempt({p} | ({"trace"} if p == "state" else set()))}
            for p in ("database", "trace"):
                if attempt(parts - {"codec"} | {p}): parts.add(p)
            if not parts & {"codec", "database", "trace"}: parts = None
            built = attempt(parts) or attempt(None)
        if not built: raise Inconclusive("build of /repo failed:\n" + log[0][-3000:])
        final = stem + ("+".join(sorted(parts)) if parts else "none")
        for old in glob.glob(os.path.join(out, "burn_fm-%s-*" % kind)):
            if os.path.getmtime(old) < time.time() - 3600: os.unlink(old)
        shutil.copy2(built, final + ".tmp")
        os.rename(final + ".tmp", final)
        return final, Hooked(parts or ())


def miri():
    """The command line that runs /repo's working tree under Miri, and its environment; None where Miri does not build it."""
    os.makedirs(BUILD, exist_ok=True)
    env = cargo_env()
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.update(CARGO_TARGET_DIR=os.path.join(BUILD, "miri"), HOME=os.environ.get("HOME", "/root"),
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks", RUST_BACKTRACE="0", TZ="UTC")
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--"]
    with open(os.path.join(BUILD, "lock-miri"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try: r = subprocess.run(cmd + ["--help"], cwd=BUILD, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except (OSError, subprocess.TimeoutExpired): return None
        return (cmd, env) if "Usage:" in r.stdout else None


# ---------------------------------------------------------------- running

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def _limits(cpu, mem, fsize, report=False):
    """report: a write beyond the file-size limit fails, where it otherwise ends the process."""
    def f():
        if report: signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


class Result:
    def __init__(self, rc, out, err, cpu, maxrss=0):
        self.rc, self.out, self.err, self.cpu, self.maxrss = rc, out, err, cpu, maxrss

    @property
    def signal(self):
        return -self.rc if self.rc < 0 else 0


class Scratch:
    """A scratch directory with the inspect_output folder the tool expects."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="w", dir=_scratch_base())
        os.mkdir(os.path.join(self.dir, "inspect_output"))

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
        return p

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def model(self, which):
        return json.loads(self.read("inspect_output/test_" + which).decode("utf-8"))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.close()


_hung = []


def run(binary, args, scratch, env=None, cpu=25, mem=3 << 30, fsize=256 << 20, wall=300, stdout=None, stderr=None, report=False):
    """Runs the tool in the scratch directory under CPU, memory and file-size limits.
    stdout, stderr: file descriptors for the output, which is not in the result then."""
    if len(_hung) > 3: cpu = 1                              # runs that hang were seen: do not wait for each of them
    e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "HOME": scratch.dir, "TZ": "UTC"}
    e.update(env or {})
    fo, fe = scratch.path(".stdout"), scratch.path(".stderr")
    with open(fo, "wb") as o, open(fe, "wb") as er:
        p = subprocess.Popen([binary] + list(args), cwd=scratch.dir, env=e, stdin=subprocess.DEVNULL,
                             stdout=o if stdout is None else stdout, stderr=er if stderr is None else stderr, preexec_fn=_limits(cpu, mem, fsize, report),
                             restore_signals=not report)
        deadline = time.time() + wall
        delay = 0.001
        while True:
            pid, status, usage = os.wait4(p.pid, os.WNOHANG)
            if pid: break
            if time.time() > deadline:
                os.killpg(p.pid, signal.SIGKILL)
                os.wait4(p.pid, 0)
                p.returncode = -9
                raise Inconclusive("wall-clock watchdog fired for %s" % (args,))
            time.sleep(delay); delay = min(delay * 1.5, 0.02)
        p.returncode = os.waitstatus_to_exitcode(status)
    with open(fo, "rb") as f: out = f.read().decode("utf-8", "replace")
    with open(fe, "rb") as f: err = f.read().decode("utf-8", "replace")
    os.unlink(fo); os.unlink(fe)
    if p.returncode == -signal.SIGXCPU: _hung.append(1)
    return Result(p.returncode, out, err, usage.ru_utime + usage.ru_stime, usage.ru_maxrss)


def parallel(fn, items, workers=WORKERS):
    """Runs fn over items in forked workers; the results in order. Worker w takes items w, w+workers, ..."""
    items = list(items)
    workers = min(workers, len(items))
    if workers <= 1: return [fn(i) for i in items]
    sys.stdout.flush(); sys.stderr.flush()
    jobs = []
    for w in range(workers):
        fd, name = tempfile.mkstemp(prefix="r", dir=_scratch_base())
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                try: out = ("ok", [fn(i) for i in items[w::workers]])
                except Inconclusive as e: out = ("inconclusive", str(e))
                except BaseException: out = ("error", traceback.format_exc())
                with open(name, "wb") as f: pickle.dump(out, f, pickle.HIGHEST_PROTOCOL)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        jobs.append((pid, name))
    res, trouble = [None] * len(items), None
    for w, (pid, name) in enumerate(jobs):
        os.waitpid(pid, 0)
        try:
            with open(name, "rb") as f: kind, val = pickle.load(f)
        except Exception as e: kind, val = "error", "worker %d left no result: %r" % (w, e)
        os.unlink(name)
        if kind == "ok":
            for i, v in zip(range(w, len(items), workers), val): res[i] = v
        elif trouble is None or kind == "error": trouble = (kind, val)
    if trouble: raise Inconclusive(trouble[1]) if trouble[0] == "inconclusive" else RuntimeError(trouble[1])
    return res


def _scratch_base():
    base = os.path.join(BUILD, "scratch")
    os.makedirs(base, exist_ok=True)
    return base


# ---------------------------------------------------------------- verdicts

class Check:
    """Collects what a check observed and decides its exit."""
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.rule = ""
        self.assumptions = []
        self.known = load_known(prop)

    def rng(self, *salt):
        return random.Random("%s|%s|%s" % (self.prop, SEED, "|".join(map(str, salt))))

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def case(self, fingerprint, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(fingerprint).encode()).digest()[:8])

    def sample(self, text, limit=4):
        if len(self.samples) < limit: self.samples.append(text)

    def violation(self, what, replay):
        for k in self.known:
            if k["match"] in what:
                if k["text"] not in self.known_hits: self.known_hits.append(k["text"])
                return
        if len(self.violations) < 20:
            d = os.path.join(VERIF, "replay", self.prop)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "v%d.json" % len(self.violations))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "what": what, "replay": replay},
                          f, indent=1, ensure_ascii=False, default=repr)
            self.violations.append((what, p))
        else:
            self.violations.append((what, self.violations[0][1]))

    def finish(self, minimum=1):
        ev = {"property": self.prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED,
              "level": "exploration",
              "coverage": dict({"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                                "rule": self.rule, "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known_hits: print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            for what, p in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + what[:1500].replace("\n", "\n  "))
            print("%d violation(s)" % len(self.violations))
            return 1
        if len(self.distinct) < minimum:
            print("INCONCLUSIVE property=%s: only %d distinct cases observed" % (self.prop, len(self.distinct)))
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" %
              (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0


def load_known(prop):
    """Entries 'known: property=<id> match=<substring> :: <what fails>' of known-findings.txt."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append({"match": m.group(2), "text": m.group(3)})
    return res


def quick(q, t, scale=8):
    """The size of a workload in the quick and the thorough tier."""
    return t * 8 if TIER == "thorough" else q * scale


def stem(rng, base):
    """A name for a file; now and then one with further dots, spaces or letters of other scripts."""
    if rng.random() < 0.5: return base
    return rng.choice(["%s.1", "%s.", "v1.2 %s", ".%s", "%s.fmp12", "%s.burn", "a b %s", "\u00dcn\u00ef%s", "UP%s", "\u6587%s", "%s'\"", "%s,x", "%s_$HOME", "%s#", "a..%s", "%s-d"]) % base
