"""Runs batches of burn tests in the real tool and compares them with the reference model."""
import re
from . import asis, burn, common

NOISE = ("RESULT: ", "calling ", "Popping script: ")
OUT = re.compile(r"^Test (.*) outcome: (Success|Fail)$")


def parse_output(out):
    """[(test name, [lines], outcome or None)] in order of execution."""
    res, cur = [], None
    for line in common.ANSI.sub("", out).split("\n"):
        if line.startswith("Running test: "):
            cur = [line[len("Running test: "):], [], None]
            res.append(cur)
            continue
        if cur is None or line.startswith(NOISE): continue
        m = OUT.match(line)
        if m and m.group(1) == cur[0]:
            cur[2] = m.group(2)
            continue
        if cur[2] is None: cur[1].append(line)
    return res


class Case:
    """One test: its source (as printed), the lines and outcome the model expects."""
    def __init__(self, name, body, source, lines, ok, meta=None):
        self.name, self.body, self.source, self.lines, self.ok, self.meta = name, body, source, lines, ok, meta
        self.known = False     # the run showed the known findings
        self.alt = None        # (lines, outcome) where the interpreter's known findings lead to something else


class Mix:
    """Decides which programs are run: all that the interpreter's known findings do not touch, and some they do."""
    def __init__(self, rng, share=0.25):
        self.rng, self.share, self.skipped, self.touched, self.clean = rng, share, 0, 0, 0


def make_case(name, body, world, printer, meta=None, script_name=None, flat=None, mix=None):
    """None when the program leaves the claimed language, does not end within the budget, or would not end
    in the interpreter as it is. flat: the scripts as asis.flatten gives them."""
    try:
        events, ok = world.run_test(body)
    except (burn.ModelError, burn.Budget, RecursionError):
        return None
    start = len(printer.log)
    source = printer.test(name, body, script_name)
    if flat is None: flat = {n: asis.flatten(b) for n, b in world.scripts.items()}
    now = asis.predict(name, asis.flatten(body, printer.log[start:]), world.schema, flat)
    if isinstance(now, str):
        if mix: mix.skipped += 1
        return None
    lines = []
    for ev in events:
        if ev[0] == "dlg": lines += ev[1].split("\n")
        elif printer.style == "plain" and not printer.redundant:
            lines.append(["failed", burn.text(ev[1])])  # compared up to white space
        else: lines.append(["failed", None])           # printed with parentheses of its own
    c = Case(name, body, source, lines, ok, meta)
    there = []
    for ev in now[0]: there += ev[1].split("\n") if ev[0] == "dlg" else [["failed", ev[1]]]
    c.counts_now = now[2]
    if match(c, ["Assertion failed: " + (x[1] or "") if isinstance(x, list) else x for x in there], "Success" if now[1] else "Fail"):
        c.alt = (there, now[1])
    if mix:
        if c.alt and mix.rng.random() > mix.share:
            mix.skipped += 1
            return None
        if c.alt: mix.touched += 1
        else: mix.clean += 1
    return c


def match(case, lines, outcome):
    """None or a description of the difference."""
    exp = "Success" if case.ok else "Fail"
    got = list(lines)
    n = max(len(case.lines), len(got))
    for i in range(n):
        e = case.lines[i] if i < len(case.lines) else "<nothing>"
        g = got[i] if i < len(got) else "<nothing>"
        if isinstance(e, list):
            if not g.startswith("Assertion failed: "):
                return "output line %d: expected a failed assertion, got %r" % (i, g)
            rest = "\n".join(got[i:])[len("Assertion failed: "):]   # the expression may span lines
            if e[1] is not None and "".join(rest.split()) != "".join(e[1].split()):
                return "output line %d: expected the failed assertion %r, got %r" % (i, e[1], rest)
            break
        elif e != g:
            return "output line %d: expected %r, got %r" % (i, e, g)
    if outcome != exp:
        return "expected outcome %s, got %s" % (exp, outcome or "none (the run ended)")
    return None


def agrees(case, lines, outcome):
    """None when the run is right or shows the known findings, else the difference."""
    d = match(case, lines, outcome)
    if d and case.alt and match(Case(case.name, case.body, case.source, case.alt[0], case.alt[1]), lines, outcome) is None:
        case.known, d = True, None
    return d


class Session:
    """Files shared by a batch of tests, e.g. a schema or a source with scripts."""
    def __init__(self, binary, args, files, hooked=False):
        self.binary, self.args, self.files, self.hooked = binary, args, files, hooked

    def execute(self, sources, trace=False, cpu=12, extra_args=()):
        with common.Scratch() as sc:
            for n, d in self.files.items(): sc.write(n, d)
            sc.write("cases.burn", "".join(sources))
            env = {}
            if trace and self.hooked: env["BURN_VERIF_TRACE"] = sc.path("trace.jsonl")
            r = common.run(self.binary, list(self.args) + ["-t", "cases.burn"] + list(extra_args), sc, env=env, cpu=cpu)
            tr = None
            if trace and self.hooked:
                try: tr = sc.read("trace.jsonl").decode()
                except OSError: tr = ""
            return r, tr

    def run_cases(self, check, cases, on_trace=None, label=""):
        """Runs the cases in one process (several when one of them ends it); reports differences."""
        todo = list(cases)
        bad = []
        while todo:
            r, tr = self.execute([c.source for c in todo], trace=on_trace is not None)
            seen = parse_output(r.out)
            if on_trace and tr is not None: on_trace(tr, todo)
            done = 0
            for c, (name, lines, outcome) in zip(todo, seen):
                if name != c.name:
                    bad.append((c, "test %s ran where %s was expected" % (name, c.name), r)); break
                d = None
                if outcome is None and r.rc != 0:
                    d = "the run ended (status %d) inside the test: %s" % (r.rc, r.err.strip()[-400:])
                else:
                    d = agrees(c, lines, outcome)
                if d: bad.append((c, d, r))
                done += 1
                if outcome is None: break
            if done == 0:
                bad.append((todo[0], "no test was run (status %d): %s" % (r.rc, r.err.strip()[-400:]), r))
                done = 1
                if r.rc != 0 and not seen and len(todo) > 1:   # the whole batch was refused: bisect
                    half = len(todo) // 2
                    bad.pop()
                    bad += self.run_cases(None, todo[:half], on_trace) + self.run_cases(None, todo[half:], on_trace)
                    break
            if done < len(todo) and r.rc == 0 and len(seen) < len(todo) and not bad:
                bad.append((todo[done], "test was not run", r)); break
            todo = todo[done:]
            if len(bad) > 8 or r.signal: break
        if check is not None:
            for c, d, r in bad:
                check.violation("%s%s\n%s" % (label, d, c.source[:1200]),
                                {"files": {k: (v if isinstance(v, str) else v.hex()) for k, v in self.files.items()
                                           if len(v) < 100000},
                                 "args": list(self.args), "test": c.source, "expected": c.lines, "expected_ok": c.ok,
                                 "difference": d, "stdout_tail": r.out[-2000:], "stderr_tail": r.err[-800:]})
        return bad


def drive(binary, commands, files=None, cpu=25):
    """Runs hook commands in one process; the values (None: the command panicked; Ellipsis: the process ended)."""
    import json
    with common.Scratch() as sc:
        for n, d in (files or {}).items(): sc.write(n, d)
        sc.write("cmds.json", json.dumps(commands))
        r = common.run(binary, [], sc, env={"BURN_VERIF_DRIVE": "cmds.json"}, cpu=cpu)
        vals = []
        for line in r.out.split("\n"):
            if line.startswith("@@"):
                v = json.loads(line[2:])
                vals.append(("panic",) if v.get("panic") else ("value", v["value"]))
        while len(vals) < len(commands): vals.append(("ended", r.rc))
        return vals, r
