"""Reference model of the burn language: syntax trees, printer, evaluator, interpreter.

Written from the documentation and the property texts; shares nothing with the implementation.
Expressions (tuples):  ('num', text) ('str', s) ('var', name) ('fld', occ, field)
                       ('bin', op, l, r) ('cat', l, r) ('cmp', op, l, r) ('call', name, [args]) ('par', e)
Values:                ('n', float) ('t', str) ('b', bool) ('e',)
Steps (tuples):        ('set', var, e) ('dlg', e) ('assert', e) ('if', [(cond, body)], else_body or None)
                       ('loop', body) ('exitif', e) ('call', e) ('exit', e or None) ('layout', e) ('new',)
                       ('setf', occ, field, e) ('goto', e, e or None) ('enterfind',) ('find',) ('all',)
"""
import math, re
from decimal import Decimal, ROUND_HALF_UP, localcontext


# ---------------------------------------------------------------- values

def fmt(x):
    """Shortest decimal that reads back as x, without an exponent."""
    if math.isinf(x): return "inf" if x > 0 else "-inf"
    if math.isnan(x): return "NaN"
    d = Decimal(repr(x))
    # of two equally close shortest decimals, the larger one
    exact = Decimal(x)
    with localcontext() as c:
        c.prec = 1200
        up = exact.quantize(Decimal(1).scaleb(d.as_tuple().exponent), rounding=ROUND_HALF_UP)
    if up != d and float(up) == x: d = up
    s = format(d, "f")
    if "." in s: s = s.rstrip("0").rstrip(".")
    return s


def show(v):
    k = v[0]
    if k == "n": return fmt(v[1])
    if k == "t": return '"' + v[1] + '"'
    if k == "b": return "true" if v[1] else "false"
    return ""


def plain(v):
    return v[1] if v[0] == "t" else show(v)


def compare(l, r):
    """-1, 0, 1"""
    if l[0] == "n" and r[0] == "n":
        return (l[1] > r[1]) - (l[1] < r[1])
    a, b = plain(l), plain(r)
    return (a > b) - (a < b)


CMP = {"==": lambda c: c == 0, "!=": lambda c: c != 0, "<": lambda c: c < 0,
       "<=": lambda c: c <= 0, ">": lambda c: c > 0, ">=": lambda c: c >= 0}


class ModelError(Exception):
    """The generator produced something outside the claimed language."""


MAX_TEXT = 20000


def evaluate(e, env):
    """env: .var(name) -> value, .field(occ, field) -> value"""
    k = e[0]
    if k == "num": return ("n", float(e[1]))
    if k == "str": return ("t", e[1])
    if k == "var": return env.var(e[1])
    if k == "fld": return env.field(e[1], e[2])
    if k == "par": return evaluate(e[1], env)
    if k == "bin":
        l, r = evaluate(e[2], env), evaluate(e[3], env)
        if l[0] != "n" or r[0] != "n": raise ModelError("arithmetic on non-numbers")
        a, b = l[1], r[1]
        if e[1] == "+": x = a + b
        elif e[1] == "-": x = a - b
        elif e[1] == "*": x = a * b
        else:
            if b == 0: raise ModelError("division by zero")
            x = a / b
        if not math.isfinite(x): raise ModelError("overflow")
        return ("n", x)
    if k == "cat":
        t = plain(evaluate(e[1], env)) + plain(evaluate(e[2], env))
        if len(t) > MAX_TEXT: raise ModelError("a text that grows without end")
        return ("t", t)
    if k == "cmp":
        return ("b", CMP[e[1]](compare(evaluate(e[2], env), evaluate(e[3], env))))
    if k == "call":
        name, args = e[1], e[2]
        if name == "Get":
            if args[0] == ("var", "AccountName"): return ("t", "Admin")
            raise ModelError("Get")
        vals = [evaluate(a, env) for a in args]
        if name == "Min":
            if len({v[0] for v in vals}) != 1 or vals[0][0] not in "nt": raise ModelError("Min of mixed kinds")
            best = vals[0]
            for v in vals[1:]:
                if compare(v, best) < 0: best = v
            return best
        if vals[0][0] != "n": raise ModelError("number expected")
        x = vals[0][1]
        if name == "Abs": return ("n", abs(x))
        if name == "Char":
            n = int(x)
            if n != x or not (0 <= n < 0x110000) or 0xD800 <= n < 0xE000: raise ModelError("Char")
            return ("t", chr(n))
        if name in ("Acos", "Asin"):
            if not -1 <= x <= 1: raise ModelError(name)
            return ("n", math.acos(x) if name == "Acos" else math.asin(x))
    raise ModelError(repr(e))


# ---------------------------------------------------------------- printing

PREC = {"cmp": 1, "cat": 2, "+": 3, "-": 3, "*": 4, "/": 4}


def prec(e):
    if e[0] == "bin": return PREC[e[1]]
    return PREC.get(e[0], 9)


def tokens(e, rng=None, redundant=0.0):
    """Token list of an expression with the parentheses it needs (and some it does not)."""
    def wrap(t): return ["("] + t + [")"]
    k = e[0]
    if k == "num": t = [e[1]]
    elif k == "str": t = ['"' + e[1] + '"']
    elif k == "var": t = [e[1]]
    elif k == "fld": t = [e[1] + "::" + e[2]]
    elif k == "par": t = wrap(tokens(e[1], rng, redundant))
    elif k == "call":
        t = [e[1], "("]
        for i, a in enumerate(e[2]):
            if i: t.append(",")
            t += tokens(a, rng, redundant)
        t.append(")")
    else:
        op, l, r = (("&", e[1], e[2]) if k == "cat" else (e[1], e[2], e[3]))
        p = prec(e)
        lt, rt = tokens(l, rng, redundant), tokens(r, rng, redundant)
        if prec(l) < p: lt = wrap(lt)
        if prec(r) <= p: rt = wrap(rt)
        t = lt + [op] + rt
    if rng and redundant and rng.random() < redundant: t = wrap(t)
    return t


def parens(e, rng, p):
    """The expression with redundant parentheses."""
    k = e[0]
    if k == "par": e = ("par", parens(e[1], rng, p))
    elif k == "call": e = (k, e[1], [parens(a, rng, p) for a in e[2]])
    elif k == "cat": e = (k, parens(e[1], rng, p), parens(e[2], rng, p))
    elif k in ("bin", "cmp"): e = (k, e[1], parens(e[2], rng, p), parens(e[3], rng, p))
    return ("par", e) if p and rng.random() < p and not (k == "var" and e[1] in ("AccountName", "CurrentTime")) else e


def is_word(tok):
    return tok[0].isalnum() or tok[0] in "_$."


def join(toks, rng=None, style="plain"):
    """style: plain (spaces around operators), tight (none), wild (random white space)."""
    out = []
    for i, t in enumerate(toks):
        if i:
            a = toks[i - 1]
            need = is_word(a) and is_word(t)
            if style == "tight": sp = " " if need else ""
            elif style == "wild":
                sp = rng.choice(["", "", " ", "  ", "\t", "\n", " \n  ", "\r\n"])
                if need and not sp: sp = " "
                if is_word(a) and sp: sp = " " + sp  # known finding: other white space sticks to a name
            else:
                sp = "" if a == "(" or t in (")", ",") or (t == "(" and is_word(a)) else " "
            out.append(sp)
        out.append(t)
    return "".join(out)


def text(e, rng=None, style="plain", redundant=0.0):
    return join(tokens(e, rng, redundant), rng, style)


class Printer:
    def __init__(self, rng=None, style="plain", redundant=0.0, block="plain"):
        self.rng, self.style, self.redundant, self.block = rng, style, redundant, block
        self.log = []          # the texts of the calculations in order of printing

    def e(self, x):
        t = text(x, self.rng, self.style, self.redundant)
        self.log.append(t)
        return t

    def ws(self, default):
        if self.block != "wild": return default
        return self.rng.choice(["", " ", "\n", "\n\t", "  \n  "])

    def args(self, items):
        if self.block != "wild": return "(" + ", ".join(items) + ")"
        sp = lambda: self.rng.choice(["", "", " ", "\n", "\t"])
        return sp_name(self.rng) + "(" + ",".join(sp() + i + sp() for i in items) + ")"

    def steps(self, body, ind="    "):
        return "".join(self.step(s, ind) for s in body)

    def step(self, s, ind):
        k = s[0]
        nl = "\n" if self.block != "wild" else self.ws("\n")
        pad = ind if self.block != "wild" else ""
        end = (";" if self.block != "wild" else self.rng.choice(["", "", " "]) + ";") + nl
        if k == "set": return pad + "set_variable" + self.args([s[1], self.e(s[2])]) + end
        if k == "dlg": return pad + "show_custom_dialog" + self.args([self.e(s[1])]) + end
        if k == "assert": return pad + "assert" + self.args([self.e(s[1])]) + end
        if k == "exitif": return pad + "exit_loop_if" + self.args([self.e(s[1])]) + end
        if k == "call": return pad + "perform_script" + self.args([self.e(s[1])]) + end
        if k == "exit": return pad + "exit_script" + self.args([self.e(s[1])] if s[1] else []) + end
        if k == "layout": return pad + "go_to_layout" + self.args([self.e(s[1])]) + end
        if k == "new": return pad + "new_record_request" + self.args([]) + end
        if k == "setf": return pad + "set_field" + self.args([s[1] + "::" + s[2], self.e(s[3])]) + end
        if k == "goto":
            return pad + "go_to_record" + self.args([self.e(s[1])] + ([self.e(s[2])] if s[2] else [])) + end
        if k == "enterfind": return pad + "enter_find_mode" + self.args([]) + end
        if k == "find": return pad + "perform_find" + self.args([]) + end
        if k == "all": return pad + "show_all_records" + self.args([]) + end
        w = self.ws
        if k == "loop":
            return pad + "loop" + (w(" ")) + "{" + w("\n") + self.steps(s[1], ind + "  ") + pad + "}" + w("\n")
        if k == "if":
            t = pad
            for i, (c, b) in enumerate(s[1]):
                kw = "if" if i == 0 else "elif"
                t += kw + self.args([self.e(c)]) + w(" ") + "{" + w("\n") + self.steps(b, ind + "  ") + pad + "}" + w(" ")
            if s[2] is not None:
                t += "else" + w(" ") + "{" + w("\n") + self.steps(s[2], ind + "  ") + pad + "}"
            return t + w("\n")
        raise ModelError(repr(s))

    def script(self, name, body, params=(), ind="  "):
        return ind + "define " + name + "(" + ", ".join(params) + ") {\n" + self.steps(body, ind + "  ") + ind + "}\n"

    def test(self, name, body, script_name=None):
        return ("test %s:\n script: [\n" % name + self.script(script_name or "t_" + name, body) + " ],\nend test;\n")


def sp_name(rng):
    return rng.choice(["", "", " "])


# ---------------------------------------------------------------- interpreter

class Schema:
    """tables {tid: (name, {fid: field name})}, occs {oid: (name, tid)}, layouts {lid: (name, oid)}"""
    def __init__(self, tables=None, occs=None, layouts=None, rels=None):
        self.tables, self.occs, self.layouts, self.rels = tables or {}, occs or {}, layouts or {}, rels or {}


class _Exit(Exception): pass
class _Leave(Exception): pass
class _Fail(Exception): pass
class Budget(Exception): pass


class World:
    """Interprets one test; events are the lines it must print."""
    def __init__(self, schema=None, scripts=None, budget=4000, maxdepth=60):
        self.schema = schema or Schema()
        self.scripts = scripts or {}
        self.budget, self.maxdepth = budget, maxdepth
        self.stats = {}
        self.reset()

    def reset(self):
        s = self.schema
        self.data = {t: {f: [] for f in fs.values()} for t, (n, fs) in s.tables.items()}
        self.count = {t: 0 for t in s.tables}
        self.occ = {o: {"found": [], "pos": 0, "table": t} for o, (n, t) in s.occs.items()}
        self.by_name = {n: o for o, (n, t) in s.occs.items()}
        self.layout = {n: o for l, (n, o) in s.layouts.items()}
        self.cur = min(s.occs) if s.occs else None
        self.mode, self.criteria = "browse", []
        self.scopes = []
        self.events = []
        self.count_history = [tuple(self.count.values())]   # records per table after each new record

    def hit(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n

    # expression environment
    def var(self, name):
        if name not in self.scopes[-1]:
            self.hit("unset-read")
            return ("e",)
        return self.scopes[-1][name]

    def field(self, occ, field):
        o = self.occ[self.by_name[occ]]
        if o["pos"] >= len(o["found"]): return ("e",)
        return self.data[o["table"]][field][o["found"][o["pos"]]]

    def ev(self, e): return evaluate(e, self)

    def run_test(self, body, printer_texts=None):
        """Returns the expected output lines (dialog and failure lines) and the outcome."""
        self.reset()
        self.scopes = [{}]
        ok = True
        try:
            self.block(body)
        except _Exit:
            pass
        except _Fail:
            ok = False
        except _Leave:
            raise ModelError("exit outside of a loop")
        return self.events, ok

    def block(self, body):
        for s in body: self.step(s)

    def step(self, s):
        self.budget -= 1
        if self.budget < 0: raise Budget()
        k = s[0]
        self.hit(k)
        if k == "set": self.scopes[-1][s[1]] = self.ev(s[2])
        elif k == "dlg": self.events.append(("dlg", show(self.ev(s[1]))))
        elif k == "assert":
            v = self.ev(s[1])
            if v[0] != "b": raise ModelError("assert of a non-boolean")
            if not v[1]:
                self.events.append(("failed", s[1]))
                raise _Fail()
        elif k == "if":
            for i, (c, b) in enumerate(s[1]):
                v = self.ev(c)
                if v[0] != "b": raise ModelError("non-boolean condition")
                if v[1]:
                    self.hit("branch-%s" % ("if" if i == 0 else "elif"))
                    self.block(b)
                    return
            if s[2] is not None:
                self.hit("branch-else")
                self.block(s[2])
            else: self.hit("branch-none")
        elif k == "loop":
            try:
                while True:
                    if not s[1]: raise Budget()
                    self.hit("iteration")
                    self.block(s[1])
            except _Leave:
                pass
        elif k == "exitif":
            v = self.ev(s[1])
            if v[0] != "b": raise ModelError("non-boolean condition")
            if v[1]: self.hit("loop-exit"); raise _Leave()
        elif k == "call":
            v = self.ev(s[1])
            if v[0] != "t": raise ModelError("script name")
            if v[1] in self.scripts:
                if len(self.scopes) > self.maxdepth: raise Budget()
                self.hit("call-depth-%d" % min(len(self.scopes), 5))
                self.scopes.append({})
                try:
                    self.block(self.scripts[v[1]])
                except _Exit:
                    self.hit("exit-returns")
                except _Leave:
                    raise ModelError("exit outside of a loop")
                self.scopes.pop()
            else: self.hit("call-unknown")
        elif k == "exit": raise _Exit()
        elif k == "layout":
            v = self.ev(s[1])
            if v[0] != "t": raise ModelError("layout name")
            if v[1] in self.layout: self.cur = self.layout[v[1]]
            else: self.hit("layout-unknown")
        elif k == "new":
            t = self.occ[self.cur]["table"]
            n = self.count[t]
            self.count[t] += 1
            self.count_history.append(tuple(self.count.values()))
            for vals in self.data[t].values(): vals.append(("e",))
            for o in self.occ.values():
                if o["table"] == t:
                    o["found"].append(n)
                    o["pos"] = len(o["found"]) - 1
        elif k == "setf":
            v = self.ev(s[3])
            if self.mode == "find": self.criteria.append((s[2], v)); return
            o = self.occ[self.by_name[s[1]]]
            if o["pos"] < len(o["found"]):
                self.data[o["table"]][s[2]][o["found"][o["pos"]]] = v
            else: self.hit("set-without-record")
        elif k == "goto": self.goto(s)
        elif k == "enterfind": self.mode = "find"
        elif k == "find":
            o = self.occ[self.cur]
            t = o["table"]
            if any(f not in self.data[t] for f, v in self.criteria): raise ModelError("criterion of another table")
            found = [r for r in range(self.count[t])
                     if any(show(self.data[t][f][r]) == show(v) for f, v in self.criteria)]
            if found: o["found"], o["pos"] = found, 0; self.hit("find-match")
            else: o["found"] = list(range(self.count[t])); self.hit("find-nothing")
            self.mode, self.criteria = "browse", []
        elif k == "all":
            o = self.occ[self.cur]
            o["found"] = list(range(self.count[o["table"]]))
        else: raise ModelError(repr(s))

    def goto(self, s):
        v = self.ev(s[1])
        leave = False
        if s[2] is not None:
            leave = plain(self.ev(s[2])) not in ("false", "", "0")
        if self.mode == "find": return
        o = self.occ[self.cur]
        n, old = len(o["found"]), o["pos"]
        if v[0] == "n":
            i = int(v[1])
            if i != v[1] or i < 0: raise ModelError("position")
            o["pos"] = min(i, max(n - 1, 0))
        elif v == ("t", "first"): o["pos"] = 0
        elif v == ("t", "last"): o["pos"] = max(n - 1, 0)
        elif v == ("t", "next"): o["pos"] = old + 1 if old + 1 < n else old
        elif v == ("t", "previous"): o["pos"] = max(old - 1, 0)
        else: raise ModelError("go_to_record")
        if leave and o["pos"] == old:
            self.hit("exit-after-last")
            raise _Leave()
