"""Shared driver of the program checks: random tests (and the scripts they call) run in the real tool and in the
reference interpreter; every output line and outcome is compared."""
import hashlib
from . import asis, burn, common, fmp, gen, harness, progs

SCRIPT_NAMES = ["helper", "helper2", "Helper", "add_record", "s", "loop_all", "end_", "test_it", "a", "ab", "é1", "inner_script", "x", "Loop", "ELSE", "table", "test", "Define", "007", "1e3", "2.50",
                "l" * 64, "l" * 65, "recalculate_the_totals_" * 8 + "1", "recalculate_the_totals_" * 8 + "2"]


# of scripts in databases, which may have any name
STORED_NAMES = ["Add Record", "a, b", "find (all)", "7 days", "x;y", "名前 テスト", "Ünïcode", "[list]", "true", "end test;", "a=b", "//x", "$x",
                "{go}", "it's", "50%", "helper 2", "New  Record", "a: b", "long " + "script name " * 30]


def with_inert(flat, steps):
    """The flat steps of a body together with the inert ones that were stored between them."""
    it = iter(flat)
    out = [("inert", []) if s.kind in progs.INERT else next(it) for s in steps if s.kind[0] != "?"]
    assert next(it, None) is None
    return out


class Batch:
    def __init__(self, session, schema, scripts, spec=None):
        self.session, self.schema, self.scripts, self.spec = session, schema, scripts, spec
        self.flat = {n: asis.flatten(b) for n, b in scripts.items()}
        for n, st, _ in spec.scripts.values() if spec else []:
            if n in self.flat: self.flat[n] = with_inert(self.flat[n], st)


def source_batch(rng, binary, hooked, w, n_scripts, depth=2, size=(0, 6), block="plain", extra_scripts=None, prog_hook=None):
    """Scripts in a compiled source."""
    names = rng.sample(SCRIPT_NAMES, n_scripts)
    bodies = dict(extra_scripts or {})
    pr = burn.Printer(rng, style="plain", block=block)
    for i, n in enumerate(names):
        p = progs.Progs(rng, w, None, names[:i] + list(extra_scripts or {}))
        if prog_hook: prog_hook(p)
        bodies[n] = p.body(rng.randrange(*size), depth, {})
        if rng.random() < 0.3: bodies[n].append(("exit", rng.choice([None, ("str", "out")])))
    order = list(bodies)
    rng.shuffle(order)
    src, i = "", 0
    while i < len(order):                           # scripts may share a script block or have their own
        k = rng.randrange(1, 4)
        src += "script: [\n" + "".join(pr.script(n, bodies[n]) for n in order[i:i + k]) + "]\n"
        i += k
    if not src: src = "value_list unused:\nend value_list;\n"
    ses = harness.Session(binary, ["-c", "main.burn"], {"main.burn": src}, hooked)
    return Batch(ses, None, bodies)


def db_batch(rng, binary, hooked, w, n_scripts=0, schema_spec=None, depth=2, size=(1, 6), enc=None, prog_hook=None):
    """A schema, and scripts stored in it, in a synthesized .fmp12."""
    sp = schema_spec or progs.random_schema(rng)
    sch = progs.burn_schema(sp)
    names = rng.sample(SCRIPT_NAMES + rng.sample(STORED_NAMES, 10), n_scripts)
    ids = dict(zip(names, rng.sample(range(1, rng.choice([100, 200, 1000, 31800])), n_scripts)))
    bodies = {}
    for i, n in enumerate(names):
        for _ in range(30):
            ww = {k: v for k, v in w.items() if k not in ("setf", "findop", "fill", "records")}
            p = progs.Progs(rng, ww, sch, names[:i], unknown_calls=False, simple=True)
            if prog_hook: prog_hook(p)
            b = p.body(rng.randrange(*size), depth, {})
            try: st = progs.stored_steps(b, ids, rng)
            except progs.Unstorable: continue
            bodies[n] = b
            sp.scripts[ids[n]] = (n, st, "chunk" if rng.random() < 0.6 and len(st) < 140 else
                                  [rng.randrange(1, 28 * len(st)) for _ in range(rng.randrange(0, 4))] + list(range(3000, 28 * len(st), 3000)) if st else "chunk")
            break
        else:
            bodies[n] = []
            sp.scripts[ids[n]] = (n, [], "chunk")
    img = fmp.write(sp.items(rng), enc)
    ses = harness.Session(binary, ["-d", "synth.fmp12"], {"synth.fmp12": img}, hooked)
    return Batch(ses, sch, bodies, sp)


def fingerprint(case, world_events):
    return hashlib.md5(repr((world_events, case.ok)).encode()).hexdigest()


def run(check, make_batch, make_body, batches, tests, trace=None, block="plain", min_lines=0, collect=None):
    """make_batch(rng) -> Batch; make_body(rng, batch) -> test body."""
    totals = {}

    seen_bad = []

    def one(b):
        if len(seen_bad) >= 8: return [], [], {}, None      # decided: do not spend the budget on more of the same
        rng = check.rng("batch", b)
        bt = make_batch(rng, b)
        cases, tries, stats = [], 0, {}
        mix = harness.Mix(rng)
        while len(cases) < tests and tries < tests * 30:
            tries += 1
            body = make_body(rng, bt)
            world = burn.World(bt.schema, bt.scripts, budget=1500)
            style = rng.choice(["plain", "plain", "tight", "wild"])
            pr = burn.Printer(rng, style=style, redundant=rng.choice([0, 0, 0.2]), block=rng.choice(["plain", "plain", "wild"]) if block == "any" else block)
            c = harness.make_case("t%d" % len(cases), body, world, pr, flat=bt.flat, mix=mix)
            if not c or len(c.lines) < min_lines: continue
            c.events = list(world.events)
            c.counts = [list(c.counts_now), list(world.count_history)]
            cases.append(c)
            for k, v in world.stats.items(): stats[k] = stats.get(k, 0) + v
        bad = bt.session.run_cases(None, cases, trace(bt, cases) if trace else None)
        seen_bad.extend(bad)
        stats["~skipped"] = mix.skipped
        return bad, cases, stats, bt

    for bad, cases, stats, bt in common.parallel(one, range(batches)):
        if collect is not None and bt is not None: collect.append(bt)
        for c in cases: check.case(fingerprint(c, c.events))
        check.count("tests_run", len(cases))
        check.count("tests_untouched_by_known_findings", sum(c.alt is None for c in cases))
        check.count("tests_that_showed_known_findings", sum(c.known for c in cases))
        check.count("programs_left_out_for_known_findings", stats.pop("~skipped", 0))
        check.count("failing_tests", sum(not c.ok for c in cases))
        check.count("output_lines_compared", sum(len(c.lines) for c in cases))
        for k, v in stats.items(): totals[k] = totals.get(k, 0) + v
        for c in cases[:1]: check.sample(c.source[:900])
        for c, d, r in bad:
            check.violation("%s\n%s" % (d, c.source[:1500]),
                            {"files": {k: (v if isinstance(v, str) else v.hex()[:200000]) for k, v in bt.session.files.items()},
                             "args": bt.session.args, "test": c.source, "expected": c.lines, "expected_ok": c.ok,
                             "difference": d, "stdout_tail": r.out[-1500:], "stderr_tail": r.err[-600:]})
    check.extra["steps_executed_by_the_model"] = totals
    return totals
