from lib import common, findings, progcheck, progs

W = {"probe": 3, "set": 8, "unset": 5, "if": 1, "loop": 1, "call": 4, "show": 1, "exit": 0.3}


def run(check):
    check.rule = ("random tests that set, overwrite and read variables of every kind of value (numbers, texts, outcomes "
                  "of comparisons, empty values) around calls of scripts that use the same names, including names the "
                  "script has not set; every read is shown and compared with the reference interpreter; a case is one "
                  "test, distinct by what it prints")
    binary, hooked = common.build()
    findings.run(check, binary)
    def src(rng, b):
        return progcheck.source_batch(rng, binary, hooked, W, rng.randrange(1, 6), depth=2, size=(1, 7), block=rng.choice(["plain", "wild"]))
    def db(rng, b):
        w = dict(W, new=1, goto=0.5, layout=0.5)
        return progcheck.db_batch(rng, binary, hooked, w, n_scripts=rng.randrange(1, 5))
    def body(rng, bt):
        w = dict(W, call=5)
        if bt.schema: w.update(fill=3, setf=2, layout=1, goto=1)
        return progs.Progs(rng, w, bt.schema, list(bt.scripts)).body(rng.randrange(4, 16), 2, {})
    progcheck.run(check, lambda rng, b: (db if b % 3 == 2 else src)(rng, b), body, common.quick(40, 2000), 16, block="any", min_lines=2)
    return check.finish(150)
