"""Reproductions of the findings listed in known-findings.txt: programs whose run in the test interpreter differs from the
reference interpreter. Each is run on its own; what the reference says is right, what asis.py says is the finding,
anything else is a violation."""
from . import asis, burn, common, fmp, harness

NUM = lambda x: ("num", str(x))
STR = lambda s: ("str", s)
VAR = lambda n: ("var", n)
ADD = lambda a, b: ("bin", "+", a, b)
CMP = lambda op, a, b: ("cmp", op, a, b)
CAT = lambda a, b: ("cat", a, b)
CALL = lambda f, *a: ("call", f, list(a))
DLG = lambda e: ("dlg", e)
T, F = CMP("==", NUM(1), NUM(1)), CMP("==", NUM(1), NUM(2))


def schema():
    sp = fmp.Spec()
    sp.tables = {1: {"name": "people", "fields": {1: {"name": "name"}, 2: {"name": "first_name"}}},
                 2: {"name": "orders", "fields": {1: {"name": "name"}}}}
    sp.occs = {1: ("people", 1), 2: ("orders", 2)}
    sp.layouts = {1: ("people", 1), 2: ("orders", 2)}
    return sp


def counting(name, limit, *inner):
    return [("set", name, NUM(0)), ("loop", [("set", name, ADD(VAR(name), NUM(1))), *inner, ("exitif", CMP("==", VAR(name), NUM(limit)))])]


PEOPLE, ORDERS = ("layout", STR("people")), ("layout", STR("orders"))
NAME, ORDER = ("fld", "people", "name"), ("fld", "orders", "name")
STEPS = lambda *s: {"body": list(s)}
DB = lambda *s, **kw: dict({"body": list(s), "db": True}, **kw)

# (property, key): program
PROGRAMS = {
    ("P04", "compare-text"): STEPS(DLG(CMP("<", NUM(9), NUM(10)))),
    ("P04", "compare-quotes"): STEPS(DLG(CMP("<", STR("a"), STR("a b")))),
    ("P09", "boolean-in-variable"): STEPS(("set", "x", T), DLG(VAR("x"))),
    ("P05", "literal-without-letters"): STEPS(DLG(STR("!"))),
    ("P05", "quote-in-concatenation"): STEPS(DLG(CAT(CALL("Char", NUM(34)), STR("a")))),
    ("P05", "line-break-in-name"): {"source": 'test t:\n script: [ define t_t() {\n set_variable(x, 1);\nshow_custom_dialog(x\n+ 1);\n} ],\nend test;\n',
                                    "body": [("set", "x", NUM(1)), DLG(ADD(VAR("x"), NUM(1)))], "texts": ["1", "x\n+ 1"]},
    ("P06", "operator-after-call"): STEPS(DLG(("bin", "-", CALL("Abs", NUM(2)), NUM(5)))),
    ("P06", "more-than-one-argument"): STEPS(DLG(CALL("Min", NUM(3), NUM(2)))),
    ("P06", "abs-single-precision"): STEPS(DLG(CALL("Abs", NUM(16777217)))),
    ("P06", "asin"): STEPS(DLG(CALL("Asin", NUM("0.5")))),
    ("P06", "get"): {"body": [DLG(CALL("Get", VAR("AccountName")))], "now": ['Unknown argument for Get(): Variable("AccountName")']},
    ("P07", "nested-if"): STEPS(("if", [(F, [("if", [(T, [DLG(STR("inner"))])], None), DLG(STR("after"))])], [DLG(STR("other"))]), DLG(STR("end"))),
    ("P07", "nested-loop"): STEPS(*counting("i", 2, *counting("j", 2, DLG(STR("inner"))), DLG(STR("outer"))), DLG(STR("end"))),
    ("P08", "unknown-script"): STEPS(("call", STR("nowhere")), DLG(STR("end"))),
    ("P08", "exit-script"): {"scripts": {"s": [DLG(STR("in")), ("exit", None), DLG(STR("behind"))]}, "body": [("call", STR("s")), DLG(STR("end"))]},
    ("P09", "second-call"): {"scripts": {"s": [("set", "x", NUM(1))], "u": [DLG(CAT(STR("x is "), VAR("x")))]},
                             "body": [("call", STR("s")), ("call", STR("u"))]},
    ("P10", "field-underscore"): DB(PEOPLE, ("new",), ("setf", "people", "first_name", STR("Ada")), DLG(("fld", "people", "first_name"))),
    ("P10", "other-occurrence"): DB(ORDERS, ("new",), ("setf", "orders", "name", STR("o")), PEOPLE, ("new",), ("setf", "people", "name", STR("p")), DLG(ORDER)),
    ("P10", "read-without-record"): DB(PEOPLE, DLG(NAME)),
    ("P10", "set-without-record"): DB(PEOPLE, ("setf", "people", "name", STR("p")), DLG(STR("end"))),
    ("P12", "move-without-record"): DB(PEOPLE, ("goto", STR("next"), None), DLG(STR("end"))),
    ("P12", "exit-argument"): DB(PEOPLE, ("new",), ("loop", [("goto", STR("next"), F), DLG(STR("still here")), ("exitif", T)]), DLG(STR("end"))),
}


def run(check, binary, prop=None):
    """Runs the reproductions of a property."""
    for (p, key), x in PROGRAMS.items():
        if p != (prop or check.prop): continue
        sp = schema() if x.get("db") else None
        from . import progs
        sch = progs.burn_schema(sp) if sp else None
        scripts = x.get("scripts", {})
        world = burn.World(sch, scripts)
        events, ok = world.run_test(x["body"])
        pr = burn.Printer()
        source = x.get("source") or pr.test("t", x["body"])
        flat = {n: asis.flatten(b) for n, b in scripts.items()}
        now = asis.predict("t", asis.flatten(x["body"], x.get("texts")), sch, flat)
        if "now" in x: now = ([("dlg", l) for l in x["now"]], True, [])
        want = harness.Case("t", x["body"], source, [l for e in events for l in e[1].split("\n")], ok)
        if sp: args, files = ["-d", "f.fmp12"], {"f.fmp12": fmp.write(sp.items())}
        else:
            src = "".join("script: [\n" + pr.script(n, b) + "]\n" for n, b in scripts.items()) or "value_list unused:\nend value_list;\n"
            args, files = ["-c", "main.burn"], {"main.burn": src}
        ses = harness.Session(binary, args, files)
        r, _ = ses.execute([source], cpu=1)
        seen = harness.parse_output(r.out)
        check.case(("finding", key))
        check.count("reproductions_run")
        if len(seen) == 1 and seen[0][2] and not harness.match(want, seen[0][1], seen[0][2]): continue     # no longer so
        if now == "crash": same = r.rc == 101
        elif now == "hang": same = r.signal != 0
        elif isinstance(now, str): same = False
        else:
            got = harness.Case("t", x["body"], source, [l for e in now[0] for l in e[1].split("\n")], now[1])
            same = len(seen) == 1 and not harness.match(got, seen[0][1], seen[0][2] or "")
        out = "\n".join(seen[0][1])[-600:] if seen else r.out[-600:]
        check.violation("%s gave %r (status %d), right is %r\n%s" % ("[%s]" % key if same else "the reproduction of " + key, out, r.rc, want.lines, source),
                        {"args": args, "files": {k: v if isinstance(v, str) else v.hex() for k, v in files.items()}, "test": source})
