import random
from lib import burn, common, harness, progcheck, progs

W = {"probe": 3, "if": 1, "set": 2, "unset": 2, "layout": 2, "new": 1, "fill": 3, "setf": 2, "goto": 2, "findop": 1.5,
     "enterfind": 0.7, "find": 0.7, "all": 0.7, "records": 0.5, "assert_false": 0.4, "call": 1, "exit": 0.2}


def run(check):
    check.rule = ("random record-handling tests, many of which end in find mode, with criteria left, on another layout or "
                  "by a failed assert; each is run alone, in a long run and in a permuted run, and the lines and outcome of "
                  "each run are compared with the reference interpreter starting from nothing; a case is one test in one "
                  "of these runs, distinct by what it prints and what ran before it")
    binary, hooked = common.build()
    seen_bad = []
    def one(b):
        if len(seen_bad) >= 8: return [], [], [], None
        rng = check.rng("batch", b)
        bt = progcheck.db_batch(rng, binary, hooked, dict(W), n_scripts=rng.randrange(0, 3))
        cases, tries = [], 0
        while len(cases) < 9 and tries < 200:
            tries += 1
            p = progs.Progs(rng, W, bt.schema, list(bt.scripts))
            start = rng.choice([[], [("find",)], [("new",)], [("all",)], [("goto", ("str", "last"), None)]])
            body = start + p.start() + p.body(rng.randrange(2, 9), 2, {})
            if rng.random() < 0.5: body += p.dump()
            x = rng.random()
            if x < 0.3: body += [("enterfind",)]
            if x < 0.2: body += p.dbstep("setf", 1, {}, 0)
            elif x < 0.4: body += [("assert", progs.F)]
            elif x < 0.5: body += [("set", "x", ("num", "1"))]
            c = harness.make_case("t%d" % len(cases), body, burn.World(bt.schema, bt.scripts, budget=1500), burn.Printer(rng))
            if c: cases.append(c)
        runs = [cases, rng.sample(cases, len(cases)), list(reversed(cases)), cases + cases] + [[c] for c in rng.sample(cases, min(3, len(cases)))]
        bad = []
        for r in runs:
            if len(bad) < 3: bad += bt.session.run_cases(None, r)
        seen_bad.extend(bad)
        return bad, cases, runs, bt
    for bad, cases, runs, bt in common.parallel(one, range(common.quick(100, 2000))):
        for r in runs:
            before = ""
            for c in r:
                check.case((c.source, before)); before = c.source
            check.count("runs")
        for c in cases[:1]: check.sample(c.source[:900])
        check.count("failing_tests", sum(not c.ok for c in cases))
        for c, d, r in bad:
            check.violation("%s\n%s" % (d, c.source[:1500]),
                            {"files": {k: (v if isinstance(v, str) else v.hex()) for k, v in bt.session.files.items()},
                             "args": bt.session.args, "tests": [x.source for x in cases], "test": c.source,
                             "expected": c.lines, "expected_ok": c.ok, "stdout_tail": r.out[-1500:]})
    return check.finish(300)
