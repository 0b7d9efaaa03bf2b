from lib import common, progcheck, progs

W = {"probe": 4, "layout": 8, "fill": 3, "new": 1, "setf": 1, "goto": 2, "findop": 1, "enterfind": 0.4, "find": 0.4, "all": 0.7, "set": 0.7, "if": 0.5, "loop": 0.5, "call": 0.7}


def run(check):
    check.rule = ("random tests that switch layouts (also to unknown ones, by computed names, in find mode, in called scripts) between steps that act on the context; "
                  "every dialog and a final listing of all found sets and all records are compared with the reference "
                  "interpreter; a case is one test, distinct by what it prints")
    binary, hooked = common.build()
    def db(rng, b):
        w = {k: v for k, v in W.items() if k in ("probe", "set", "if", "new", "layout", "goto", "all", "enterfind", "find", "loop", "exitif")}
        return progcheck.db_batch(rng, binary, hooked, w, n_scripts=rng.choice([0, 0, 1, 2]))
    def body(rng, bt):
        p = progs.Progs(rng, W, bt.schema, list(bt.scripts))
        b = p.start()
        for _ in range(rng.randrange(0, 4)): b += p.dbstep("fill", 1, {}, 0)
        return b + p.body(rng.randrange(2, 12), rng.choice([0, 0, 1, 1, 2]), {}) + p.dump()
    progcheck.run(check, db, body, common.quick(50, 1600), 14, min_lines=2)
    if check.extra["steps_executed_by_the_model"].get("layout", 0) < 50: raise common.Inconclusive("too few layout")
    if check.extra["steps_executed_by_the_model"].get("layout-unknown", 0) < 50: raise common.Inconclusive("too few layout-unknown")
    return check.finish(200)
