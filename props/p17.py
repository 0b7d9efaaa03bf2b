import json
from lib import common, sources, specs


def names_only(m):
    """The model without the steps of its scripts (P18 speaks about them)."""
    if "scripts" not in m: return m
    return dict(m, scripts={i: s["script_name"] for i, s in m["scripts"].items()}, tests=[t["test_name"] for t in m["tests"]])


def run(check):
    check.rule = ("random sources of 1-400 declarations of all kinds in any order, names that resemble keywords, non-ASCII "
                  "names and literals, in plain, tight and wild layout, alone and as one of several files; the whole model "
                  "is compared with the declarations, and the models of two layouts of one source with each other; a case "
                  "is one command, distinct by the sequence of declared kinds and names")
    binary, hooked = common.build()
    def one(b):
        rng = check.rng("source", b)
        used = {k: set() for k in ("table", "occ", "list", "script", "test")}
        n = rng.choice([1, 1, 1, 2, 3])
        srcs = [sources.random_source(rng, used, n=rng.choice([0, 1, 2, 3, 5, 8, 12, 25]) if n > 1 else rng.choice([1, 2, 3, 5, 8, 12, 25, 40])) for _ in range(n)]
        if b % 30 == 7: srcs[rng.randrange(len(srcs))] = sources.large_source(rng)
        exp = None
        for s in srcs: exp = s.model(exp)
        models, bad = [], None
        for style in rng.sample(["plain", "tight", "wild"], 2):
            with common.Scratch() as sc:
                names = []
                for i, s in enumerate(srcs):
                    sc.write("s%d.burn" % i, s.text(sources.Format(rng, style))); names.append("s%d.burn" % i)
                r = common.run(binary, [a for f in names for a in ("-c", f)] + ["--no-testing"], sc, cpu=10)
                texts = [sc.read(f).decode() for f in names]
                try: m = json.loads(sc.read("inspect_output/test_compile").decode())
                except (OSError, ValueError): m = None
            if m is None or r.rc:
                bad = ("%s: compiling ended with status %d: %s" % (style, r.rc, r.err.strip()[-300:]), texts); break
            d = specs.diff(names_only(exp), names_only(sources.read(m)))
            if d: bad = ("%s: %s" % (style, d), texts); break
            m.pop("name", None)
            models.append(m)
        if not bad and specs.diff(models[0], models[1]): bad = ("two layouts of one source: " + specs.diff(models[0], models[1]), texts)
        return [[(d[0], d[1] if isinstance(d[1], str) else len(d[1])) for d in s.decls] for s in srcs], bad, exp, texts
    for kinds, bad, exp, texts in common.parallel(one, range(common.quick(300, 5000))):
        check.case(kinds)
        for k in ("tables", "table_occurrences", "relationships", "value_lists", "scripts", "tests"): check.count(k + "_compared", len(exp[k]))
        check.sample(texts[0][:500])
        if bad: check.violation(bad[0] + "\n" + "\n----\n".join(bad[1])[:1500], {"sources": bad[1], "expected": names_only(exp)})
    return check.finish(300)
