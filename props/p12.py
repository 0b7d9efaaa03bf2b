from lib import common, findings, progcheck, progs

W = {"probe": 4, "goto": 8, "records": 3, "fill": 2, "layout": 2, "findop": 1, "loop": 1, "if": 1, "setf": 1, "all": 0.5, "call": 0.5}


def run(check):
    check.rule = ("random tests that move in found sets of every size, past both ends, by number and by name, in find mode, with every kind of exit argument and in record loops nested in other loops; "
                  "every dialog and a final listing of all found sets and all records are compared with the reference "
                  "interpreter; a case is one test, distinct by what it prints")
    binary, hooked = common.build()
    findings.run(check, binary)
    def db(rng, b):
        w = {k: v for k, v in W.items() if k in ("probe", "set", "if", "new", "layout", "goto", "all", "enterfind", "find", "loop", "exitif")}
        return progcheck.db_batch(rng, binary, hooked, w, n_scripts=rng.choice([0, 0, 1, 2]))
    def body(rng, bt):
        p = progs.Progs(rng, W, bt.schema, list(bt.scripts))
        b = p.start()
        for _ in range(rng.randrange(0, 4)): b += p.dbstep("fill", 1, {}, 0)
        return b + p.body(rng.randrange(2, 12), rng.choice([0, 0, 1, 1, 2]), {}) + p.dump()
    progcheck.run(check, db, body, common.quick(50, 1600), 14, min_lines=2)
    if check.extra["steps_executed_by_the_model"].get("goto", 0) < 50: raise common.Inconclusive("too few goto")
    if check.extra["steps_executed_by_the_model"].get("exit-after-last", 0) < 50: raise common.Inconclusive("too few exit-after-last")
    if check.extra["steps_executed_by_the_model"].get("iteration", 0) < 50: raise common.Inconclusive("too few iteration")
    return check.finish(200)
