"""Shared driver of the expression checks (P03-P06): many expressions, each shown in a dialog of a real
test run and compared with the reference evaluator."""
from . import asis, burn, common, gen, harness

BLANK = None


def session(binary, hooked, tables=False):
    return harness.Session(binary, ["-c", "main.burn"], {"main.burn": "value_list unused:\nend value_list;\n"}, hooked)


class Env:
    def __init__(self): self.vars = {}
    def var(self, n): return self.vars[n]
    def field(self, o, f): raise burn.ModelError("field")


def build_case(check, rng, idx, make_expr, n_steps, style=None, setup=None, share=0.06):
    """A test that sets variables and shows expressions made by make_expr(gen, env). share: of the calculations the
    interpreter's known findings change."""
    env, now = Env(), asis.Calculator()
    world = burn.World(budget=100000)
    style = style or rng.choice(["plain", "plain", "tight", "wild"])
    pr = burn.Printer(rng, style=style)
    redundant = rng.choice([0, 0, 0.1, 0.2])
    body, shapes, skipped = [], [], 0
    vars_ = {"n": [], "t": [], "b": []}
    tries = 0
    while len(body) < n_steps and tries < n_steps * 20:
        tries += 1
        ex = gen.Exprs(rng, vars_["n"], vars_["t"], vars_["b"] if rng.random() < 0.2 else [])
        e = burn.parens(make_expr(ex, rng), rng, redundant)
        try: v = burn.evaluate(e, env)
        except (burn.ModelError, OverflowError): continue
        if v[0] == "t" and len(v[1]) > 3000: continue
        is_ = now(e)
        if is_ is None or (is_ != burn.show(v) and rng.random() > share): skipped += 1; continue
        r = rng.random()
        if r < 0.3:
            name = rng.choice(gen.NAMES)
            for l in vars_.values():
                if name in l: l.remove(name)
            vars_[v[0]].append(name)
            env.vars[name] = v
            now.set(name, is_)
            body.append(("set", name, e))
            body.append(("dlg", ("var", name)))
        else: body.append(("dlg", e))
        shapes.append((shape(e), burn.show(v)))
    check.count("expressions_left_out_for_known_findings", skipped)
    return harness.make_case("c%d" % idx, body, world, pr), shapes


def shape(e):
    """The operator structure of an expression, without the values."""
    k = e[0]
    if k in ("num", "str", "var", "fld"): return k
    if k == "par": return "(" + shape(e[1]) + ")"
    if k == "call": return e[1] + "(" + ",".join(map(shape, e[2])) + ")"
    if k == "cat": return "[" + shape(e[1]) + "&" + shape(e[2]) + "]"
    return "[" + shape(e[2]) + e[1] + shape(e[3]) + "]"


def drive(check, make_expr, batches, tests_per_batch, steps):
    binary, hooked = common.build()
    check.extra["observation_points"] = sorted(hooked)
    ses = session(binary, hooked)

    seen_bad = []

    def one(b):
        if len(seen_bad) >= 8: return [], [], [], 0
        rng = check.rng("batch", b)
        cases, shapes, before = [], [], check.extra.get("expressions_left_out_for_known_findings", 0)
        while len(cases) < tests_per_batch:
            c, sh = build_case(check, rng, len(cases), make_expr, steps)
            if c: cases.append(c); shapes += sh
        bad = ses.run_cases(None, cases)
        seen_bad.extend(bad)
        return bad, cases, shapes, check.extra.get("expressions_left_out_for_known_findings", 0) - before

    for bad, cases, shapes, left in common.parallel(one, range(batches)):
        for s in shapes: check.case(s)
        check.count("expressions_left_out_for_known_findings", left)
        check.count("tests_that_showed_known_findings", sum(c.known for c in cases))
        check.count("tests_run", len(cases))
        check.count("dialog_values_compared", sum(len(c.lines) for c in cases))
        for c in cases[:1]: check.sample(c.source[:700])
        for c, d, r in bad:
            check.violation("%s\n%s" % (d, c.source[:1200]),
                            {"files": ses.files, "args": ses.args, "test": c.source, "expected": c.lines,
                             "expected_ok": c.ok, "difference": d, "stdout_tail": r.out[-1500:], "stderr_tail": r.err[-600:]})
