from lib import common, decomp, fmp, specs


def run(check):
    check.rule = ("random files with 0-20 tables, up to 60 fields each, occurrences, relationships, layouts, scripts and "
                  "data sources under dense and scattered ids, stored in every order the format allows and in random "
                  "encodings; the whole decompiled model is compared with what was stored; a case is one file, distinct "
                  "by its component counts and names")
    binary, hooked = common.build()
    def one(b):
        rng = check.rng("file", b)
        res = []
        for i in range(4):
            sp = specs.random_spec(rng, big=rng.random() < 0.3, scripts=rng.random() < 0.6)
            e = decomp.random_enc(rng) if rng.random() < 0.6 else fmp.Enc()
            img = fmp.write(sp.items(rng if rng.random() < 0.8 else None), e)
            m, r = decomp.decompile(binary, img)
            d = None
            if m is None or r.rc: d = "decompiling ended with status %d: %s" % (r.rc, r.err.strip()[-300:])
            else: d = specs.diff(decomp.without_steps(sp.model()), decomp.without_steps(decomp.got_model(m)))
            res.append((sp, img, d, r))
            if r.signal: break
        return res
    for res in common.parallel(one, range(common.quick(350, 7000, 2))):
        for sp, img, d, r in res:
            check.case((decomp.size_of(sp), sorted(t["name"] for t in sp.tables.values())))
            for k in ("tables", "occs", "rels", "layouts", "scripts", "sources"): check.count(k + "_compared", len(getattr(sp, k)))
            check.count("fields_compared", sum(len(t["fields"]) for t in sp.tables.values()))
            if d: check.violation(d, {"file": decomp.file_note(img), "stored": decomp.without_steps(sp.model()), "stderr": r.err[-600:]})
    return check.finish(300)
