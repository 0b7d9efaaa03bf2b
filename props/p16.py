import itertools
from lib import common, endtoend, fmp, harness


def graph(rng):
    n = rng.choice([2, 3, 4, 5, 6, 8, 12, 20])
    ids = rng.sample(range(0, rng.choice([n, 130, 5000])), n) if rng.random() < 0.6 else list(range(1, n + 1))
    kind = rng.choice(["path", "cycle", "star", "tree", "random", "sparse", "dense", "islands", "grid", "ladder"])
    e = []
    if kind in ("path", "cycle"): e = list(zip(ids, ids[1:]))
    if kind == "cycle" and n > 2: e.append((ids[-1], ids[0]))
    if kind == "star": e = [(ids[0], x) for x in ids[1:]]
    if kind == "tree": e = [(ids[rng.randrange(i)], ids[i]) for i in range(1, n)]
    if kind in ("random", "sparse", "dense"):
        p = {"random": 0.3, "sparse": 0.12, "dense": 0.7}[kind]
        e = [x for x in itertools.combinations(ids, 2) if rng.random() < p]
    if kind == "islands":
        k = max(1, n // 2)
        e = [x for part in (ids[:k], ids[k:]) for x in itertools.combinations(part, 2) if rng.random() < 0.5]
    if kind == "grid":
        w = max(2, int(n ** 0.5))
        e = [(ids[i], ids[i + 1]) for i in range(n - 1) if (i + 1) % w] + [(ids[i], ids[i + w]) for i in range(n - w)]
    if kind == "ladder":
        h = n // 2
        e = [(ids[i], ids[i + h]) for i in range(h)] + [(ids[i], ids[i + 1]) for i in range(h - 1)]
    if rng.random() < 0.3:                         # detours: a long way round next to a short one
        e += [(rng.choice(ids), rng.choice(ids)) for _ in range(2)]
    e = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in e if a != b]
    if e and rng.random() < 0.3: e += [rng.choice(e) for _ in range(2)] + [tuple(reversed(rng.choice(e)))]
    rng.shuffle(e)
    qs = [(a, b) for a in ids for b in ids if a != b]
    if len(qs) > 120: qs = rng.sample(qs, 120)
    unknown = max(ids) + 1
    qs += [(ids[0], unknown), (unknown, ids[0])]
    return kind, e, qs


def distances(edges, src):
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b); adj.setdefault(b, set()).add(a)
    d, todo = {src: 0}, [src]
    for x in todo:
        for y in adj.get(x, ()):
            if y not in d: d[y] = d[x] + 1; todo.append(y)
    return d


def scenario(rng):
    """A schema with a table for each occurrence, joined by relationships every record satisfies. For each query only
    the occurrences on shortest chains have records, so that an answer shows the chain it came along."""
    kind, e, qs = graph(rng)
    ids = sorted({x for p in e for x in p} | {x for q in qs[:-2] for x in q})
    sp = fmp.Spec()
    far = rng.choice([1, 1, 100, 120, 250, 4000, 31500])      # table ids of one byte and of two
    tid = dict(zip(ids, rng.sample(range(far, far + len(ids) + 3), len(ids))))
    oid = {x: x + 1 for x in ids}
    for x in ids:
        sp.tables[tid[x]] = {"name": "tab%d" % x, "fields": {1: {"name": "name"}}}
        sp.occs[oid[x]] = ("occ%d" % x, tid[x])
    for i, (a, b) in enumerate(e, 1): sp.rels[i] = (oid[a], 1, oid[b], 1, "Cartesian")
    acts, queries = [], []
    qs = qs[:-2]
    for a, b in rng.sample(qs, min(len(qs), 14)):
        d, back = distances(e, a), distances(e, b)
        on = [x for x in ids if x in d and b in d and d[x] + back.get(x, 10 ** 6) == d[b]] or [a, b]
        if rng.random() < 0.3: on = list(ids)           # any chain will do
        acts.append(["clear"])
        for x in rng.sample(on, len(on)): acts += [["occurrence", oid[x]], ["new"], ["set", "occ%d" % x, "name", "record of %d" % x]]
        acts += [["occurrence", oid[a]], ["goto", 0], ["related", "occ%d" % b, "name"]]
        queries.append((len(acts) - 1, a, b, d.get(b), len(on)))
        # the found sets of one query are not those of the next
        acts.append(["fresh"])
    return kind, e, sp, acts, queries


def run(check):
    check.rule = ("relationship graphs (paths, cycles, stars, trees, grids, ladders, islands, random ones; 2-20 "
                  "occurrences, with repeated and reversed declarations) stored in files; the tool looks up a field across "
                  "pairs of occurrences while only the occurrences on shortest chains have records, and each answer is "
                  "compared with an independent breadth-first search; a case is one query, distinct by graph shape, "
                  "distance and number of hops")
    binary, hooked = common.build()
    if "database" not in hooked: return endtoend.relationships(check, binary, lambda rng: scenario(rng)[2])
    def one(b):
        rng = check.rng("batch", b)
        gs = [scenario(rng) for _ in range(12)]
        files, cmds, where = {}, [], []
        for i, (kind, e, sp, acts, queries) in enumerate(gs):
            files["f%d.fmp12" % i] = fmp.write(sp.items(rng))
            part = []
            for x in acts:
                if x == ["fresh"]:
                    cmds.append({"op": "database", "fmp12": "f%d.fmp12" % i, "actions": part}); part = []
                else: part.append(x)
            where.append(len(queries))
        vals, r = harness.drive(binary, cmds, files)
        return gs, vals, where, files
    for gs, vals, where, files in common.parallel(one, range(common.quick(16, 400, 2))):
        at = 0
        for i, ((kind, e, sp, acts, queries), n) in enumerate(zip(gs, where)):
            check.count("graphs")
            for (_, a, b, d, on), v in zip(queries, vals[at:at + n]):
                check.case((kind, len(e), d, e if len(e) < 8 else 0))
                rep = {"edges": e, "query": [a, b], "file": files["f%d.fmp12" % i].hex()[:40000], "records_in": on}
                if v[0] != "value":
                    check.violation("the lookup from %d to %d over %r ended abnormally: %r" % (a, b, e, v), rep); continue
                got = v[1][-1]
                check.count("unconnected" if d is None else "hops_%s" % min(d, 9))
                if d is None and "ok" in got: check.violation("%d is not connected with %d by %r, got %r" % (a, b, e, got["ok"]), rep)
                if d is not None and got.get("ok") != "record of %d" % b:
                    check.violation("from %d to %d (%d hops) over %r, with records in %d occurrences on the way: got %r" % (a, b, d, e, on, got), rep)
            at += n
    return check.finish(200)
