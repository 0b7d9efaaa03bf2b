import json
from lib import common, sources, specs


def steps_only(m):
    if "scripts" not in m: return m
    return {"scripts": {s["script_name"]: (s["arguments"], [list(i) for i in s["instructions"]]) for s in m["scripts"].values()},
            "tests": [(t["script"]["script_name"], t["script"]["arguments"], [list(i) for i in t["script"]["instructions"]]) for t in m["tests"]]}


def normal(x):
    return json.loads(json.dumps(x))


def run(check):
    check.rule = ("random scripts of every step kind, with arguments of any text (nested parentheses, literals with every "
                  "kind of bracket and separator, line breaks) and blocks nested up to forty deep, up to forty arguments and parameters, scripts of up to a thousand steps, in plain, tight and wild "
                  "layout, declared in script blocks and in tests; every compiled step is compared with its source step; "
                  "a case is one script, distinct by its sequence of steps and arguments")
    binary, hooked = common.build()
    def one(b):
        rng = check.rng("source", b)
        src = sources.random_source(rng, n=rng.choice([1, 2, 4, 6]), steps=(0, rng.choice([3, 6, 10, 30])), depth=rng.choice([1, 2, 3, 4, 6]),
                                    kinds=rng.choice([("scripts",), ("test",), ("scripts", "test"), None]))
        if b % 40 == 7: src = sources.large_source(rng, ("scripts", "test"))
        exp = src.model()
        text = src.text(sources.Format(rng, rng.choice(["plain", "tight", "wild", "wild"])))
        with common.Scratch() as sc:
            sc.write("s.burn", text)
            r = common.run(binary, ["-c", "s.burn", "--no-testing"], sc, cpu=10)
            try: m = json.loads(sc.read("inspect_output/test_compile").decode())
            except (OSError, ValueError): m = None
        if m is None or r.rc: d = "compiling ended with status %d: %s" % (r.rc, r.err.strip()[-300:])
        else: d = specs.diff(normal(steps_only(exp)), normal(steps_only(sources.read(m))))
        return exp, d, text
    for exp, d, text in common.parallel(one, range(common.quick(350, 6000))):
        for s in list(exp["scripts"].values()) + [t["script"] for t in exp["tests"]]:
            check.case(s["instructions"]); check.count("scripts_compared"); check.count("steps_compared", len(s["instructions"]))
        check.sample(text[:500])
        if d: check.violation(d + "\n" + text[:1500], {"source": text, "expected": steps_only(exp)})
    return check.finish(300)
