from lib import common, progcheck, progs

W = {"probe": 3, "findop": 6, "find": 0.5, "enterfind": 0.5, "all": 2, "fill": 4, "setf": 2, "layout": 2, "goto": 1.5, "records": 0.7, "if": 0.5, "call": 0.3}


def run(check):
    check.rule = ("random tests of finds with no, one and several criteria, repeated, without matches, on found sets of earlier finds, and show all; "
                  "every dialog and a final listing of all found sets and all records are compared with the reference "
                  "interpreter; a case is one test, distinct by what it prints")
    binary, hooked = common.build()
    def db(rng, b):
        w = {k: v for k, v in W.items() if k in ("probe", "set", "if", "new", "layout", "goto", "all", "enterfind", "find", "loop", "exitif")}
        return progcheck.db_batch(rng, binary, hooked, w, n_scripts=rng.choice([0, 0, 1, 2]))
    def body(rng, bt):
        p = progs.Progs(rng, W, bt.schema, list(bt.scripts))
        b = p.start()
        for _ in range(rng.randrange(0, 4)): b += p.dbstep("fill", 1, {}, 0)
        return b + p.body(rng.randrange(2, 12), rng.choice([0, 0, 1, 1, 2]), {}) + p.dump()
    progcheck.run(check, db, body, common.quick(50, 1600), 14, min_lines=2)
    if check.extra["steps_executed_by_the_model"].get("find-match", 0) < 50: raise common.Inconclusive("too few find-match")
    if check.extra["steps_executed_by_the_model"].get("find-nothing", 0) < 50: raise common.Inconclusive("too few find-nothing")
    if check.extra["steps_executed_by_the_model"].get("all", 0) < 50: raise common.Inconclusive("too few all")
    return check.finish(200)
