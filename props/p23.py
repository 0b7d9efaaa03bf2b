import json
from lib import common, decomp, fmp, reader, sources, specs

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def name(rng, used, maxlen):
    while True:
        n = rng.choice(LETTERS) + "".join(rng.choice(LETTERS + "____") for _ in range(rng.choice([0, 1, 3, 8, maxlen - 1, rng.randrange(0, maxlen)])))
        if n.lower() in used or n.lower() in sources.KEYWORDS or n.lower() in ("inf", "infinity", "nan"): continue
        used.add(n.lower())
        return n


def stored(data):
    """What the file says it has: components by kind, in stored order."""
    cs, seen = reader.read(data)
    at = lambda p, kind: [(k, d) for q, t, k, d in cs if q == p and t == kind]
    one = lambda p, key: [d for k, d in at(p, "ref") if k == key]
    return {"table names": [(k.hex(), d.hex()) for k, d in at((3, 16, 1, 1), "long")],
            "table ids": [(k.hex(), d.hex()) for k, d in at((3, 16, 1, 3), "long")],
            "table count": [reader.number(d) for d in one((3, 16, 1), 4)],
            "table directories": [q[3] - 128 for q, t, k, d in cs if t == "push" and len(q) == 4 and q[:3] == (3, 16, 5)],
            "occurrence names": [d.hex() for k, d in at((3, 17, 1, 1), "data")],
            "occurrence ids": [reader.number(d) for k, d in at((3, 17, 1, 3), "data")],
            "layout count": [list(d) for d in one((4, 1), 0)],
            "script count": [list(d) for d in one((17, 1), 0)]}, cs, seen


def expected(m):
    t = [(int(i), v["table_name"]) for i, v in sorted(m["tables"].items(), key=lambda x: int(x[0]))]
    o = [(int(i), v["table_occurence_name"]) for i, v in sorted(m["table_occurrences"].items(), key=lambda x: int(x[0]))]
    return {"table names": [((reader.code(n) + b"\0\0\0").hex(), bytes([2, 128, i]).hex()) for i, n in t],
            "table ids": [(i.to_bytes(4, "big").hex(), i.to_bytes(4, "big").hex()) for i, n in t],
            "table count": [len(t)], "table directories": [i for i, n in t],
            "occurrence names": [(reader.code(n) + b"\0" * 4).hex() for i, n in o],
            "occurrence ids": [i for i, n in o],
            "layout count": [[1, len(m["layouts"])]], "script count": [[1, len(m["scripts"])]]}


def run(check):
    check.rule = ("random sources of up to 30 tables and occurrences (as many as one data sector holds) and other "
                  "declarations, compiled alone or after others, with and without running tests; the written file is read by "
                  "an independent reader and by the decompiler and compared with the declarations; a case is one written "
                  "file, distinct by its declared names and counts")
    binary, hooked = common.build()
    def one(b):
        rng = check.rng("source", b)
        used = {k: set() for k in ("table", "occ", "list", "script", "test")}
        lower = {"table": set(), "occ": set()}
        exp, srcs, room = None, [], 2900
        nfiles = rng.choice([1, 1, 1, 2, 3])
        stems = [common.stem(rng, "s%d" % i) if rng.random() < 0.6 else name(rng, {"s0", "s1", "s2"} | set(range(3)), rng.choice([20, 20, 60, 200])) + str(i) for i in range(nfiles)]
        for i in range(nfiles):
            maxlen = rng.choice([1, 2, 6, 20, 60, 120])
            decls = []
            for _ in range(rng.choice([0, 1, 2, 3, 8, 20, 45])):
                k = rng.choice(["table", "occ", "other"])
                if k == "other": decls += sources.random_source(rng, used, n=1, kinds=("rel", "list", "scripts", "test")).decls; continue
                n = name(rng, lower[k], maxlen)
                cost = 2 * len(n) + (40 if k == "table" else 32)
                if cost > room or sum(d[0] == k for s in srcs + [decls] for d in (s.decls if not isinstance(s, list) else s)) >= 30: continue
                room -= cost
                used[k].add(n)
                if k == "table": decls.append(("table", n, rng.sample(sources.FIELDS, rng.randrange(0, 4))))
                else: decls.append(("occ", n, rng.choice(sorted(used["table"]) or ["none"])))
            srcs.append(sources.Source(decls))
        texts, bad, exps = [], [], []
        with common.Scratch() as sc:
            for s, stem in zip(srcs, stems):
                texts.append(s.text(sources.Format(rng, rng.choice(["plain", "tight", "wild"]))))
                sc.write(stem + ".burn", texts[-1])
            args = [a for n in stems for a in ("-c", n + ".burn")] + (["--no-testing"] if rng.random() < 0.6 or used["test"] else [])
            r = common.run(binary, args, sc, cpu=10)
            for s, stem in zip(srcs, stems):
                exp = s.model(exp)
                e = expected(exp)
                exps.append(e)
                try: data = sc.read(stem + ".fmp12")
                except OSError: bad.append("%s.fmp12 was not written, status %d: %s" % (stem, r.rc, r.err.strip()[-300:])); break
                try: got, cs, seen = stored(data)
                except reader.Malformed as x: bad.append("%s.fmp12 is malformed: %s" % (stem, x)); break
                if len(seen) < 2: bad.append("%s.fmp12 has only %d data sectors" % (stem, len(seen)))
                for k in e:
                    if e[k] != got[k]: bad.append("%s.fmp12: %s are %r, declared are %r" % (stem, k, got[k], e[k]))
                mark = (stem + "/").encode()
                if data[3082:3082 + len(mark)] != mark: bad.append("%s.fmp12 carries the name %r" % (stem, data[3082:3082 + len(mark)]))
                m, r2 = decomp.decompile(binary, data)
                if m is None or r2.rc: bad.append("decompiling %s.fmp12 ended with status %d: %s" % (stem, r2.rc, r2.err.strip()[-300:])); break
                ids = sorted(int(i) for i in m["tables"])
                if ids != e["table directories"]: bad.append("decompiling %s.fmp12 reports tables %r, declared are %r" % (stem, ids, e["table directories"]))
                for k in ("table_occurrences", "relationships", "layouts", "scripts", "data_sources"):
                    if m.get(k): bad.append("decompiling %s.fmp12 reports %s %r" % (stem, k, m[k]))
        return texts, exps, bad, stems
    for texts, exps, bad, stems in common.parallel(one, range(common.quick(150, 3000))):
        for e in exps:
            check.case(json.dumps(e, sort_keys=True))
            check.count("tables", len(e["table ids"])); check.count("occurrences", len(e["occurrence ids"]))
        check.sample(exps[-1] if len(str(exps[-1])) < 800 else {k: len(v) for k, v in exps[-1].items()})
        if bad: check.violation("\n".join(bad[:4])[:1500], {"sources": dict(zip(stems, texts)), "expected": exps, "differences": bad})
    return check.finish(200)
