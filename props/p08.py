from lib import burn, common, findings, fmp, harness, progcheck, progs

W = {"probe": 5, "if": 2, "loop": 2, "exitif": 1, "set": 2, "call": 5, "exit": 1.2, "unset": 0.5}


def recursion(rng, binary, hooked):
    """Scripts that call themselves or each other until the records run out, and what they must print."""
    sp = progs.random_schema(rng)
    o = min(sp.occs)
    occ, t = sp.occs[o]
    f = rng.choice(list(sp.tables[t]["fields"].values()))["name"]
    lay = [n for n, x in sp.layouts.values() if x == o]
    here = ("fld", occ, f)
    names = rng.sample(progcheck.SCRIPT_NAMES, rng.choice([1, 1, 2, 3]))
    ids = dict(zip(names, rng.sample(range(1, rng.choice([100, 200, 1000, 31800])), len(names))))
    bodies = {}
    for i, n in enumerate(names):
        nxt = names[(i + 1) % len(names)]
        tag = ("cat", ("str", n + " "), here)
        stop = ("cmp", "==", here, ("str", "stop"))
        b = [("set", "x", tag), ("dlg", ("var", "x"))]
        again = [("goto", ("str", "next"), None), ("call", ("str", nxt)), ("dlg", ("cat", ("str", "back in "), ("var", "x")))]
        k = rng.randrange(3)
        if k == 0: b += [("if", [(stop, [("exit", None)])], None)] + again
        elif k == 1: b += [("if", [(stop, [("dlg", ("str", "bottom"))])], again), ("dlg", ("cat", ("str", "end "), ("var", "x")))]
        else: b += [("loop", [("exitif", stop)] + again + [("exit", None)]), ("dlg", ("str", "after " + n))]
        bodies[n] = b
        sp.scripts[ids[n]] = (n, [], "chunk")
    for n in names: sp.scripts[ids[n]] = (n, progs.stored_steps(bodies[n], ids, rng), "chunk")
    ses = harness.Session(binary, ["-d", "synth.fmp12"], {"synth.fmp12": fmp.write(sp.items(rng))}, hooked)
    return progcheck.Batch(ses, progs.burn_schema(sp), bodies, sp), (occ, f)


def run(check):
    check.rule = ("random call graphs of scripts (up to six deep, unknown names, computed names, exit_script inside "
                  "blocks, from every depth) and recursive scripts over record lists (up to 60 deep); the sequence of "
                  "dialogs, each naming its place and the variables there, is compared with the reference interpreter; "
                  "a case is one test, distinct by what it prints")
    binary, hooked = common.build()
    findings.run(check, binary)
    def src(rng, b):
        return progcheck.source_batch(rng, binary, hooked, W, rng.randrange(2, 9), depth=2, size=(1, 6), block=rng.choice(["plain", "wild"]))
    def db(rng, b):
        return progcheck.db_batch(rng, binary, hooked, dict(W, new=0.5, layout=0.3), n_scripts=rng.randrange(2, 8))
    def body(rng, bt):
        return progs.Progs(rng, W, bt.schema, list(bt.scripts)).body(rng.randrange(1, 8), 2, {})
    progcheck.run(check, lambda rng, b: (db if b % 2 else src)(rng, b), body, common.quick(40, 1600), 14, block="any", min_lines=1)
    targets = {}
    def rec(rng, b):
        bt, t = recursion(rng, binary, hooked)
        bt.target = t
        return bt
    def rec_body(rng, bt):
        occ, f = bt.target
        n = rng.choice([0, 1, 2, 3, 5, 8, 20, 55])
        out = []
        for i in range(n): out += [("new",), ("setf", occ, f, ("num", str(i)))]
        out += [("new",), ("setf", occ, f, ("str", "stop")), ("goto", ("str", "first"), None)]
        out += [("set", "x", ("str", "mine")), ("call", ("str", rng.choice(list(bt.scripts)))), ("dlg", ("var", "x"))]
        return out
    progcheck.run(check, rec, rec_body, common.quick(20, 400), 4, min_lines=1)
    return check.finish(150)
