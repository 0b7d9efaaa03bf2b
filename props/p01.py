from lib import burn, common, harness, progcheck, progs

W = {"probe": 4, "if": 2, "loop": 1.5, "set": 2, "call": 2, "exit": 0.3, "assert_true": 3, "assert_false": 0.5, "assert": 0.6}


def run(check):
    check.rule = ("random runs of 1-24 tests, some with duplicate names, with true and false asserts in branches, loops "
                  "and called scripts; order, outcome lines, the reported expression and every dialog before and after "
                  "asserts are compared with the reference interpreter; a case is one test, distinct by what it prints")
    binary, hooked = common.build()
    def body(rng, bt):
        w = dict(W)
        if rng.random() < 0.5: w["assert_false"] = 0; w["assert"] = 0
        return progs.Progs(rng, w, bt.schema, list(bt.scripts)).body(rng.randrange(0, 9), rng.choice([1, 2, 3]), {})
    def src(rng, b):
        w = dict(W)
        if rng.random() < 0.7: w["assert_false"] = 0
        return progcheck.source_batch(rng, binary, hooked, w, rng.randrange(0, 5), depth=2, size=(0, 6))
    def db(rng, b):
        w = dict(W, new=1, layout=0.5, assert_false=rng.choice([0, 0.3]))
        return progcheck.db_batch(rng, binary, hooked, w, n_scripts=rng.randrange(0, 4))
    progcheck.run(check, lambda rng, b: (db if b % 3 == 2 else src)(rng, b), body, common.quick(200, 4000), 20, block="any")
    for k in ("failing_tests",):
        if not check.extra.get(k): raise common.Inconclusive("no failing assert was observed")
    return check.finish(150)
