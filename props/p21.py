from lib import common, decomp, fmp, specs


def run(check):
    check.rule = ("random files, each written once in the plainest encoding and then in several equivalent ones (other "
                  "chunk forms, no-ops, unrelated chunks and subtrees, other cuts, sectors in another physical order, "
                  "gaps between sectors, truncated pops); the whole models are compared with each other and with what was "
                  "stored; a case is one re-encoded file, distinct by component counts and encoding features used")
    binary, hooked = common.build()
    cg = decomp.CalcGen()
    def one(b):
        rng = check.rng("file", b)
        sp = specs.random_spec(rng, big=rng.random() < 0.25, scripts=rng.random() < 0.7, calc=cg)
        items = sp.items(rng)
        base_img = fmp.write(items, fmp.Enc())
        base, r = decomp.decompile(binary, base_img)
        out = []
        if base is None or r.rc: return sp, [(None, base_img, "decompiling ended with status %d: %s" % (r.rc, r.err.strip()[-300:]))]
        exp = sp.model()
        d = specs.diff(decomp.without_steps(exp), decomp.without_steps(decomp.got_model(base))) or decomp.script_diff(exp, decomp.got_model(base))
        if d: out.append((None, base_img, "in the plainest encoding: " + d))
        only = ["forms", "noops", "junk", "cut", "shuffle", "pops", "all", "random"]
        for kind in rng.sample(only, 5) + ["random"]:
            kw = dict(forms=False, noops=0.0, junk=0.0, cut=0.0, shuffle=False, pops=True, gaps=0)
            if kind == "forms": kw["forms"] = True
            elif kind == "noops": kw["noops"] = 0.4
            elif kind == "junk": kw["junk"] = 0.4
            elif kind == "cut": kw["cut"] = rng.choice([0.02, 0.1, 0.4])
            elif kind == "shuffle": kw.update(shuffle=True, gaps=rng.randrange(0, 4), cut=0.1)
            elif kind == "pops": kw.update(pops=False, cut=0.1)
            elif kind == "all": kw.update(forms=True, noops=0.2, junk=0.2, cut=0.1, shuffle=True, gaps=2, pops=rng.random() < 0.5)
            e = fmp.Enc(rng, **kw) if kind != "random" else decomp.random_enc(rng)
            img = fmp.write(items, e)
            m, r = decomp.decompile(binary, img)
            d = None
            if m is None or r.rc: d = "%s: decompiling ended with status %d: %s" % (kind, r.rc, r.err.strip()[-300:])
            else:
                d = specs.diff(base, m)
                if d: d = "%s encoding (used %s) against the plainest one: %s" % (kind, sorted(e.used), d)
            out.append((e, img, d))
            if r.signal: break
        return sp, out
    for sp, out in common.parallel(one, range(common.quick(220, 5000, 2))):
        for e, img, d in out:
            if e is not None:
                check.case((decomp.size_of(sp), sorted(e.used)))
                for k, n in e.used.items(): check.count("used_" + k, n)
            if d: check.violation(d, {"file": decomp.file_note(img), "stored": sp.model()})
    return check.finish(300)
