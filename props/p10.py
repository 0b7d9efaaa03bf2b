from lib import common, findings, progcheck, progs

W = {"probe": 4, "setf": 8, "fill": 2, "new": 1, "goto": 2, "layout": 2, "set": 1, "if": 0.7, "show": 1, "loop": 0.4, "findop": 0.4, "call": 0.3}


def run(check):
    check.rule = ("random tests that set fields of any occurrence (also of other tables, without record, from expressions over other fields) and read them back through every occurrence; "
                  "every dialog and a final listing of all found sets and all records are compared with the reference "
                  "interpreter; a case is one test, distinct by what it prints")
    binary, hooked = common.build()
    findings.run(check, binary)
    def db(rng, b):
        w = {k: v for k, v in W.items() if k in ("probe", "set", "if", "new", "layout", "goto", "all", "enterfind", "find", "loop", "exitif")}
        return progcheck.db_batch(rng, binary, hooked, w, n_scripts=rng.choice([0, 0, 1, 2]))
    def body(rng, bt):
        p = progs.Progs(rng, W, bt.schema, list(bt.scripts))
        b = p.start()
        for _ in range(rng.randrange(0, 4)): b += p.dbstep("fill", 1, {}, 0)
        return b + p.body(rng.randrange(2, 12), rng.choice([0, 0, 1, 1, 2]), {}) + p.dump()
    progcheck.run(check, db, body, common.quick(50, 1600), 14, min_lines=2)
    if check.extra["steps_executed_by_the_model"].get("setf", 0) < 50: raise common.Inconclusive("too few setf")
    return check.finish(200)
