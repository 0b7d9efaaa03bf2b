import itertools, math, re
from lib import common, endtoend, fmp, harness, progs, specs
from props import p16

NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


def number(s):
    return float(s) if NUM.match(s) else None


def order(a, b):
    x, y = number(a), number(b)
    if x is not None and y is not None: return (x > y) - (x < y)
    q = lambda s: s[1:-1] if len(s) >= 2 and s[0] == s[-1] == '"' else s
    a, b = q(a), q(b)
    return (a > b) - (a < b)


TURN = {"Less": "Greater", "LessEqual": "GreaterEqual", "Greater": "Less", "GreaterEqual": "LessEqual"}


def holds(c, a, b):
    if c == "Equal": return a == b
    if c == "NotEqual": return a != b
    if c == "Cartesian": return True
    o = order(a, b)
    return {"Less": o < 0, "LessEqual": o <= 0, "Greater": o > 0, "GreaterEqual": o >= 0}[c]


VALUES = ["1", "2", "3", "10", "9", "2.5", "100", '"a"', '"b"', '"ab"', '"B"', '"10"', '"9"', "", "true", '"é"', '"a b"']


def scenario(rng):
    sp = fmp.Spec()
    nm = specs.Names(rng)
    pool = [nm.new(plain=True, maxbytes=16) for _ in range(6)]
    far = rng.random() < 0.25                       # ids of two bytes
    for t in rng.sample(range(1, 31700 if far else 30), rng.randrange(1, 5)):
        fs = rng.sample(range(1, 31800 if far else 40), rng.randrange(1, 5))
        sp.tables[t] = {"name": nm.new(), "fields": {f: {"name": n} for f, n in zip(fs, rng.sample(pool, len(fs)))}}
    for o in rng.sample(range(1, 65000 if far else 100), rng.randrange(2, 7)):
        sp.occs[o] = (nm.new(plain=True, maxbytes=16), rng.choice(list(sp.tables)))
    occs = list(sp.occs)
    pairs = list(itertools.combinations(occs, 2))
    rng.shuffle(pairs)
    if rng.random() < 0.5:
        rng.shuffle(occs)
        edges = list(zip(occs, occs[1:]))           # a chain
        if rng.random() < 0.4: edges += [p for p in pairs[:1] if p not in edges and p[::-1] not in edges]
    else: edges = pairs[:rng.randrange(1, len(occs) + 2)]
    bias = rng.choice([None, None, "Equal", "Less", "GreaterEqual"])
    for i, (a, b) in enumerate(edges, 1):
        if rng.random() < 0.5: a, b = b, a
        f = lambda o: rng.choice(list(sp.tables[sp.occs[o][1]]["fields"]))
        sp.rels[i] = (a, f(a), b, f(b), bias if bias and rng.random() < 0.6 else rng.choice(fmp.CMPS))
    # records
    acts, data, found, pos = [], {}, {o: [] for o in sp.occs}, {o: 0 for o in sp.occs}
    vals = rng.sample(VALUES, rng.randrange(2, 8))
    for t, d in sp.tables.items():
        os_ = [o for o in sp.occs if sp.occs[o][1] == t]
        data[t] = []
        if not os_: continue
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            acts += [["occurrence", os_[0]], ["new"]]
            rec = {}
            for f, x in d["fields"].items():
                rec[f] = rng.choice(vals) if rng.random() < 0.9 else ""
                if rec[f]: acts.append(["set", sp.occs[os_[0]][0], x["name"], rec[f]])
            data[t].append(rec)
        for o in os_: found[o] = list(range(len(data[t]))); pos[o] = max(0, len(data[t]) - 1)
    queries = []
    for _ in range(30):
        cur = rng.choice(list(sp.occs))
        n = len(found[cur])
        acts.append(["occurrence", cur])
        if n:
            k = rng.randrange(n)
            acts.append(["goto", k]); pos[cur] = k
        to = rng.choice([o for o in sp.occs if o != cur])
        f = rng.choice(list(sp.tables[sp.occs[to][1]]["fields"]))
        acts.append(["related", sp.occs[to][0], sp.tables[sp.occs[to][1]]["fields"][f]["name"]])
        queries.append((len(acts) - 1, cur, to, f, found[cur][pos[cur]] if n else None))
    return sp, acts, data, queries


def chains(sp, a, b):
    """All shortest chains of occurrences from a to b."""
    edges = [(r[0], r[2]) for r in sp.rels.values()]
    d = p16.distances(edges, a)
    if b not in d: return []
    res = [[b]]
    while res[0][0] != a:
        nxt = []
        for c in res:
            for x, y in edges + [(y, x) for x, y in edges]:
                if y == c[0] and d.get(x) == d[c[0]] - 1 and [x] + c not in nxt: nxt.append([x] + c)
        res = nxt
    return res


def follow(sp, data, chain, rec):
    """Number of the first record reached, or None."""
    cur = [rec]
    for a, b in zip(chain, chain[1:]):
        (o1, f1, o2, f2, c), = [r for r in sp.rels.values() if {r[0], r[2]} == {a, b}]
        if o1 != a: f1, f2, c = f2, f1, TURN.get(c, c)
        ta, tb = sp.occs[a][1], sp.occs[b][1]
        cur = [j for i in cur for j, r in enumerate(data[tb]) if holds(c, data[ta][i][f1], r[f2])]
        cur = list(dict.fromkeys(cur))
        if not cur: return None
    return cur[0]


def follow_now(sp, data, chain, rec):
    """The value number of the record the tool arrives at today (see known-findings.txt)."""
    cur = None
    for a, b in zip(chain, chain[1:]):
        (o1, f1, o2, f2, c), = [r for r in sp.rels.values() if {r[0], r[2]} == {a, b}]
        if o1 != a: f1, f2 = f2, f1
        if not data[sp.occs[a][1]]: return None
        if cur is None: cur = [(rec, data[sp.occs[a][1]][rec][f1])]
        h = {"Equal": lambda x, y: x == y, "NotEqual": lambda x, y: x != y, "Cartesian": lambda x, y: True,
             "Less": lambda x, y: x.encode() <= y.encode(), "Greater": lambda x, y: x.encode() >= y.encode()}[c if c == "NotEqual" else c.removesuffix("Equal") or c]
        cur = [(j, r[f2]) for _, v in cur for j, r in enumerate(data[sp.occs[b][1]]) if h(v, r[f2])]
        if not cur: return None
    return cur[0][0]


def fixed(rels, records, cur, rec, to, f):
    """A scenario of three tables t1-t3 with the fields 1 and 2, and one occurrence each."""
    sp = fmp.Spec()
    for t in (1, 2, 3):
        sp.tables[t] = {"name": "t%d" % t, "fields": {1: {"name": "f1"}, 2: {"name": "f2"}}}
        sp.occs[t] = ("o%d" % t, t)
    sp.rels = dict(enumerate(rels, 1))
    acts, data = [], {}
    for t in (1, 2, 3):
        data[t] = []
        for r in records.get(t, []):
            data[t].append({1: r[0], 2: r[1]})
            acts += [["occurrence", t], ["new"], ["set", "o%d" % t, "f1", r[0]], ["set", "o%d" % t, "f2", r[1]]]
    acts += [["occurrence", cur], ["goto", rec], ["related", "o%d" % to, "f%d" % f]]
    return sp, acts, data, [(len(acts) - 1, cur, to, f, rec)]


FINDINGS = {
    "less-strict": fixed([(1, 1, 2, 1, "Less")], {1: [("2", "")], 2: [("2", "equal"), ("3", "more")]}, 1, 0, 2, 2),
    "greater-strict": fixed([(1, 1, 2, 1, "Greater")], {1: [("2", "")], 2: [("2", "equal"), ("1", "less")]}, 1, 0, 2, 2),
    "other-side": fixed([(1, 1, 2, 1, "LessEqual")], {1: [("1", "less"), ("3", "more")], 2: [("2", "")]}, 2, 0, 1, 2),
    "number-order": fixed([(1, 1, 2, 1, "LessEqual")], {1: [("9", "")], 2: [("1", "one"), ("10", "ten")]}, 1, 0, 2, 2),
    "several-hops": fixed([(1, 1, 2, 1, "Equal"), (2, 2, 3, 1, "Equal")], {1: [("a", "")], 2: [("a", "b")], 3: [("a", "wrong"), ("b", "right")]}, 1, 0, 3, 2),
}


def outcome(sp, data, q, follow):
    at, cur, to, f, rec = q
    n = follow(sp, data, chains(sp, cur, to)[0], rec)
    return None if n is None else data[to][n][f]


def reproductions(check, binary):
    for key, (sp, acts, data, qs) in FINDINGS.items():
        v, r = harness.drive(binary, [{"op": "database", "fmp12": "f.fmp12", "actions": acts}], {"f.fmp12": fmp.write(sp.items())})
        check.case(("finding", key)); check.count("reproductions_run")
        q = qs[0]
        res = v[0][1][q[0]].get("ok") if v[0][0] == "value" else v[0]
        right, now = outcome(sp, data, q, follow), outcome(sp, data, q, follow_now)
        assert right != now
        if res != right:
            check.violation("%s the lookup gave %r, right is %r" % ("[%s]" % key if res == now else "the reproduction of " + key, res, right), {"rels": sp.rels, "records": data, "actions": acts})


def run(check):
    check.rule = ("random schemas of 1-4 tables and 2-6 occurrences joined by chains, trees and cycles of relationships "
                  "of all seven kinds declared from either side, random records of numbers, texts and empty values; each "
                  "lookup of a related field from each current record is compared with an independent evaluation along "
                  "the shortest chains; a case is one lookup, distinct by hops, comparisons, values joined and outcome")
    binary, hooked = common.build()
    if "database" not in hooked: return endtoend.relationships(check, binary, lambda rng: scenario(rng)[0])
    reproductions(check, binary)
    def one(b):
        rng = check.rng("batch", b)
        scs = [scenario(rng) for _ in range(8)]
        files = {"f%d.fmp12" % i: fmp.write(s[0].items(rng)) for i, s in enumerate(scs)}
        vals, r = harness.drive(binary, [{"op": "database", "fmp12": "f%d.fmp12" % i, "actions": s[1]} for i, s in enumerate(scs)], files)
        return scs, vals, files
    for scs, vals, files in common.parallel(one, range(common.quick(60, 1500))):
        for i, ((sp, acts, data, queries), v) in enumerate(zip(scs, vals)):
            rep = {"file": files["f%d.fmp12" % i].hex()[:60000], "actions": acts}
            if v[0] != "value":
                check.violation("the lookups ended abnormally: %r" % (v,), rep); continue
            for at, cur, to, f, rec in queries:
                got = v[1][at]
                cs = chains(sp, cur, to)
                want, now = set(), set()
                if not cs or rec is None: want.add(None)
                else:
                    for c in cs:
                        n = follow(sp, data, c, rec)
                        want.add(None if n is None else data[sp.occs[to][1]][n][f])
                        n = follow_now(sp, data, c, rec)
                        now.add(None if n is None else data[sp.occs[to][1]][n][f])
                res = got["ok"] if "ok" in got else None
                hops = len(cs[0]) - 1 if cs else 0
                kinds = tuple(sorted(r[4] for r in sp.rels.values())) if hops else ()
                check.case((hops, kinds, res, rec is None, len(cs)))
                check.count("lookups_%s" % ("without_chain" if not cs else "no_record" if rec is None else "error" if res is None else "%d_hops" % hops))
                if res in want and (not now or now == want): check.count("lookups_untouched_by_known_findings")
                if res not in want and res in now: check.count("lookups_that_showed_known_findings")
                elif res not in want:
                    check.violation("field %s of occurrence %s from record %r of %s: got %r, the relationships %r lead to %r" %
                                    (f, to, rec, cur, res, sp.rels, sorted(map(repr, want))), dict(rep, records=data, query=[cur, to, f, rec]))
    if check.extra.get("lookups_2_hops", 0) < 20: raise common.Inconclusive("too few lookups over two hops")
    return check.finish(300)
