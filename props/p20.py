import random
from lib import burn, common, decomp, fmp, harness, progcheck, progs, specs

RUN = {"probe": 4, "set": 3, "if": 2, "loop": 1.5, "exitif": 0.5, "call": 2, "exit": 0.5, "new": 0.7, "layout": 0.5, "goto": 0.5, "all": 0.2}


def run(check):
    check.rule = ("random files whose scripts have 0-130 steps of every known kind with dense, scattered and unordered "
                  "indexes, stored in one chunk or in 1-15 segments cut anywhere and in any order, with names, results, "
                  "targets and calculations attached; the decompiled steps are compared one by one. In a second part "
                  "random programs are stored as scripts and run by tests, whose output is compared with the reference "
                  "interpreter; a case is one script (distinct by kinds, indexes and cuts) or one test")
    binary, hooked = common.build()
    cg = decomp.CalcGen()
    def one(b):
        rng = check.rng("file", b)
        sp = specs.random_spec(rng, scripts=False)
        nm = specs.Names(rng)
        for s in specs.ids(rng, rng.randrange(1, 9), 1, rng.choice([127, 250, 400, 31800])): sp.scripts[s] = (nm.new(), [], None)
        for s in list(sp.scripts):
            sp.scripts[s] = specs.random_script(rng, sp, s, rng.random() < 0.3, cg)
            for st in sp.scripts[s][1]:
                if st.kind == "SetVariable" and rng.random() < 0.15: st.calc, st.text = None, rng.choice(["12", "plain text", "x é"])
        e = decomp.random_enc(rng) if rng.random() < 0.5 else fmp.Enc()
        img = fmp.write(sp.items(rng if rng.random() < 0.8 else None), e)
        m, r = decomp.decompile(binary, img)
        if m is None or r.rc: d = "decompiling ended with status %d: %s" % (r.rc, r.err.strip()[-300:])
        else: d = decomp.script_diff(sp.model(), decomp.got_model(m))
        return sp, img, d
    for sp, img, d in common.parallel(one, range(common.quick(300, 6000, 4))):
        for n, steps, how in sp.scripts.values():
            check.case((tuple((s.kind, s.index) for s in steps), how if how == "chunk" else len(how)))
            check.count("steps_compared", len(steps))
            check.count("scripts_in_%s" % ("one_chunk" if how == "chunk" else "segments"))
            for s in steps: check.count("kind_" + s.kind)
        if d: check.violation(d, {"file": decomp.file_note(img), "stored": sp.model()["scripts"]})
    def db(rng, b):
        e = decomp.random_enc(rng) if rng.random() < 0.4 else None
        return progcheck.db_batch(rng, binary, hooked, RUN, n_scripts=rng.randrange(2, 7), depth=3, size=(2, 9), enc=e)
    def body(rng, bt):
        p = progs.Progs(rng, {"probe": 1}, bt.schema, [])
        b = p.start() + [("call", ("str", n)) for n in rng.sample(list(bt.scripts), rng.randrange(1, len(bt.scripts) + 1))]
        return b + p.dump()
    progcheck.run(check, db, body, common.quick(60, 1500, 4), 4)
    return check.finish(300)
