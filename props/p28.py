from lib import asis, burn, common, decomp, exprcheck, fmp, gen, harness, progs


def expression(rng, env_names):
    g = gen.Exprs(rng, env_names["n"], env_names["t"], env_names["b"], functions=True, division=True)
    g.small = True
    d = rng.choice([0, 1, 1, 2, 2, 3])
    return rng.choice([g.num, g.num, g.text, g.boolean])(d)


def long_operand(rng, e):
    """The expression with a literal or a variable of up to 255 bytes next to it, or several of them."""
    x, n = None, rng.choice([1, 1, 1, 2, 4, 5, 8, 16])
    for _ in range(n):
        k = rng.choice([100, 126, 127, 128, 129, 180, 220, 230, 240, 254])
        s = "".join(rng.choice("abcdefghijklmnop_ABC0123456789") for _ in range(k - 1))
        y = ("str", s + " ") if n > 1 or rng.random() < 0.7 else ("var", "v" + s)
        x = y if x is None else ("cat", x, y)
    if n > 1: return rng.choice([x, ("cat", x, e), ("cat", e, x), ("cmp", "==", x, e)]), False
    return rng.choice([x, ("cat", x, e), ("cat", e, x), ("cmp", "==", x, e)]), x[0] == "var"


NAMES = ["x", "y", "$v", "total_1", "é", "名前", "_a", "counter", "X", "a1", "v" * 129, "v" * 128 + "w", "a_name_of_more_than_sixty_four_characters_that_is_not_a_literal_at_all"]


def run(check):
    check.rule = ("random expressions over + - * / & == != < <= > >=, parentheses, Abs, Acos, Char and Get, integers, text "
                  "literals and variables, stored as calculations of set-variable, dialog, branch and exit-script steps "
                  "with and without stored spacing of every form; the decompiled text is compared token by token, and "
                  "running the stored script has to show the values of the reference evaluator; a case is one "
                  "calculation, distinct by structure and value")
    binary, hooked = common.build()
    def one(b):
        rng = check.rng("file", b)
        sp = fmp.Spec()
        scripts, wanted, shapes = {}, {}, []
        for s in range(1, 4):
            env, now, kinds = exprcheck.Env(), asis.Calculator(), {"n": [], "t": [], "b": []}
            steps, body, tries = [], [], 0
            while len(steps) < 14 and tries < 200:
                tries += 1
                e = expression(rng, kinds)
                unset = False
                if rng.random() < 0.06: e, unset = long_operand(rng, e)
                c = decomp.calc_of(e, rng if rng.random() < 0.6 else None)
                if c is None or len(c) > 4000: continue
                def read_only():                      # in a script that is not run
                    x = decomp.calc_of(decomp.decorate(rng, e), rng, True)
                    if x is not None and len(x) <= 4000: wanted.setdefault(s, []).append(x)
                if unset or rng.random() < 0.12:
                    read_only()
                    continue
                try: v = burn.evaluate(e, env)
                except (burn.ModelError, OverflowError): continue
                is_ = now(e)
                if is_ is None or is_ != burn.show(v):    # known findings of the interpreter
                    if len(wanted.get(s, [])) < 12: read_only()
                    continue
                shapes.append((exprcheck.shape(e), burn.show(v)))
                if rng.random() < 0.3:
                    n = rng.choice(NAMES)
                    for l in kinds.values():
                        if n in l: l.remove(n)
                    kinds[v[0]].append(n); env.vars[n] = v; now.set(n, is_)
                    body.append(("set", n, e)); steps.append(fmp.Step("SetVariable", len(steps) + 1, name=n, calc=c))
                else:
                    body.append(("dlg", e)); steps.append(fmp.Step("ShowCustomDialog", len(steps) + 1, calc=c))
            scripts["calc%d" % s] = body
            sp.scripts[s] = ("calc%d" % s, steps, "chunk")
            more = [fmp.Step(rng.choice(["If", "ElseIf", "ExitLoopIf", "ExitScript", "GoToLayout", "ShowCustomDialog"]), i + 1, calc=c) for i, c in enumerate(wanted.get(s, []))]
            if more: sp.scripts[10 + s] = ("not run %d" % s, more, "chunk")
        img = fmp.write(sp.items(rng), fmp.Enc())
        cases = []
        for n in scripts:
            c = harness.make_case("t%d" % len(cases), [("call", ("str", n))], burn.World(None, scripts, budget=5000), burn.Printer())
            if c: cases.append(c)
        ses = harness.Session(binary, ["-d", "synth.fmp12"], {"synth.fmp12": img}, hooked)
        bad = [(c.source, d) for c, d, r in ses.run_cases(None, cases)]
        m, r = decomp.decompile(binary, img)
        if m is None or r.rc: d = "decompiling ended with status %d: %s" % (r.rc, r.err.strip()[-300:])
        else: d = decomp.script_diff(sp.model(), decomp.got_model(m))
        if d: bad.append((d, "decompiled calculation"))
        n = sum(len(v[1]) for v in sp.scripts.values())
        return shapes, n, sum(len(c.lines) for c in cases), bad, img, {i: [(st.kind, st.calc.toks) for st in v[1] if st.calc is not None] for i, v in sp.scripts.items()}
    for shapes, n, lines, bad, img, calcs in common.parallel(one, range(common.quick(120, 2500))):
        for s in shapes: check.case(s)
        check.count("calculations_compared", n); check.count("values_compared", lines)
        if shapes: check.sample(str(calcs[1])[:600])
        for a, d in bad: check.violation("%s\n%s" % (d, a[:1200]), {"file": decomp.file_note(img), "calculations": calcs})
    return check.finish(300)
