"""What the test interpreter of this tree (src/testing) does today, defects included.

The interpreter's files count as test files, so its defects are recorded (known-findings.txt, findings.py) instead of
repaired. This model says, for one program, what those defects lead to: a run that differs from the reference
interpreter (burn.World) is a known finding only when it is exactly what is described here."""
import math, struct
from decimal import Decimal, ROUND_HALF_UP, localcontext
from . import burn


class Crash(Exception): pass
class Hang(Exception): pass
class Unclear(Exception): pass


# ---------------------------------------------------------------- calculations

OPS = {"+": "+", "-": "-", "*": "*", "/": "/", "&": "&", "(": "(", ")": ")", ",": ","}


def number(s):
    """What Rust's f64 parser makes of s, or None."""
    t = s.lower()
    if t.lstrip("+-") in ("inf", "infinity", "nan") and len(t) - len(t.lstrip("+-")) <= 1: return float(t)
    if "_" in s or s.strip() != s or not s.isascii(): return None
    try: return float(s)
    except ValueError: return None


def rust_float(x):
    if math.isinf(x) or math.isnan(x): return burn.fmt(x)
    if x == 0 and math.copysign(1, x) < 0: return "-0"
    return burn.fmt(x)


def f32(x):
    """x rounded to single precision, as text."""
    try: y = struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError: return "inf"
    if math.isinf(y): return "inf"
    back = lambda d: struct.unpack("f", struct.pack("f", float(d)))[0]
    for p in range(1, 18):
        d = Decimal("%.*g" % (p, y))
        if back(d) != y: continue
        with localcontext() as c:      # of two equally close, the larger
            c.prec = 200
            up = Decimal(y).quantize(Decimal(1).scaleb(d.as_tuple().exponent), rounding=ROUND_HALF_UP)
        s = format(up if back(up) == y else d, "f")
        return s.rstrip("0").rstrip(".") if "." in s else s
    raise Unclear()


def lex(text):
    """[(type, value)]"""
    toks, buf, i, n = [], "", 0, len(text)
    def flush():
        nonlocal buf
        if not buf: return
        x = number(buf)
        if x is not None: toks.append(("num", x))
        elif not "0" <= buf[0] <= "9": toks.append(("id", buf))
        else: raise Crash("identifier")
        buf = ""
    while i < n:
        c = text[i]; i += 1
        if c.isspace() and not buf: continue
        if c == " ": flush()
        elif c in OPS:
            flush(); toks.append((OPS[c], None))
        elif c in "!=":
            flush()
            if i >= n: raise Crash("peek")
            if text[i] == "=":
                toks.append(("!=" if c == "!" else "==", None))
                if c == "!": i += 1
            # the second = of == finds no further = and leaves no token
        elif c in "<>":
            flush()
            if i >= n: raise Crash("peek")
            toks.append((c + "=" if text[i] == "=" else c, None))
        elif c == '"':
            flush()
            lit = '"'
            while i < n:
                lit += text[i]; i += 1
                if lit[-1] == '"': break
            if any(x.isalnum() for x in lit): toks.append(("str", lit))
        elif c == ":":
            buf += ":"
            if i >= n or text[i] != ":": raise Unclear()
            i += 1
            buf += ":"
            while i < n:
                buf += text[i]; i += 1
                if i >= n or not text[i].isalnum(): break
            toks.append(("id", buf)); buf = ""
        else: buf += c
    flush()
    return toks


class Parser:
    def __init__(self, toks):
        if not toks: raise Crash("no tokens")
        self.t, self.i = toks, 0

    def next(self):
        if self.i == len(self.t) - 1: return None
        self.i += 1
        return self.t[self.i]

    def cur(self): return self.t[self.i][0]

    def comparison(self):
        l = self.concatenation()
        while True:
            op = self.cur()
            if self.next() is None: break
            if op not in ("==", "!=", "<", "<=", ">", ">="): break
            l = ("cmp", op, l, self.concatenation())
        return l

    def concatenation(self):
        l = self.expr()
        while self.cur() == "&":
            self.next()
            l = ("cat", l, self.expr())
        return l

    def expr(self):
        l = self.term()
        while self.cur() in ("+", "-"):
            op = self.cur(); self.next()
            l = ("bin", op, l, self.term())
        return l

    def term(self):
        l = self.factor()
        while self.cur() in ("*", "/"):
            op = self.cur(); self.next()
            l = ("bin", op, l, self.factor())
        return l

    def factor(self):
        if self.cur() in ("num", "id", "str"):
            e = self.primary()
            self.next()
            return e
        if self.cur() == "(":
            self.next()
            return self.comparison()
        raise Crash("parse")

    def primary(self):
        k, v = self.t[self.i]
        if k == "num": return ("num", v)
        if k == "str": return ("str", v)
        parts = v.split("::")
        if len(parts) == 2: return ("fld", v)
        if self.i + 1 < len(self.t) and self.t[self.i + 1][0] == "(":
            args = []
            while True:
                self.next()
                args.append(self.expr())
                if self.cur() != ",": return ("call", v, args)
        return ("var", v)


def parse(text):
    return Parser(lex(text)).comparison()


# ---------------------------------------------------------------- programs

def flatten(body, texts=None):
    """[(opcode, switches)] of a body; texts: the calculations as printed, in order."""
    out = []
    it = iter(texts) if texts is not None else None
    t = (lambda e: next(it)) if it is not None else burn.text
    def go(b):
        for s in b:
            k = s[0]
            if k == "set": out.append(("set", [s[1], t(s[2])]))
            elif k in ("dlg", "assert", "exitif", "call", "layout"): out.append((k, [t(s[1])]))
            elif k == "exit": out.append((k, [t(s[1])] if s[1] else []))
            elif k in ("new", "enterfind", "find", "all"): out.append((k, []))
            elif k == "setf": out.append((k, [s[1] + "::" + s[2], t(s[3])]))
            elif k == "goto": out.append((k, [t(s[1])] + ([t(s[2])] if s[2] else [])))
            elif k == "loop":
                out.append(("loop", [])); go(s[1]); out.append(("endloop", []))
            elif k == "if":
                for i, (c, bb) in enumerate(s[1]):
                    out.append(("if" if i == 0 else "elif", [t(c)])); go(bb)
                if s[2] is not None:
                    out.append(("else", [])); go(s[2])
                out.append(("endif", []))
            else: raise Unclear()
    go(body)
    return out


class Machine:
    """scripts: name -> flat steps. schema as for burn.World."""
    def __init__(self, schema=None, scripts=None, budget=6000):
        s = self.schema = schema or burn.Schema()
        self.scripts, self.budget = scripts or {}, budget
        self.fields = {t: list(fs.values()) for t, (n, fs) in s.tables.items()}
        self.data = {t: {f: [] for f in fs.values()} for t, (n, fs) in s.tables.items()}
        self.count = {t: 0 for t in s.tables}
        self.occ = {o: {"found": [], "pos": 0, "table": t} for o, (n, t) in s.occs.items()}
        self.by_name = {n: o for o, (n, t) in s.occs.items()}
        self.layout = {n: o for l, (n, o) in s.layouts.items()}
        self.cur = min(s.occs) if s.occs else None
        self.cache = {}
        self.events, self.history = [], []

    # -------------------------------------------------------- values
    def current(self):
        if self.cur is None: raise Crash("no occurrence")
        return self.occ[self.cur]

    def operand(self, v, depth=0):
        """(type, text)"""
        if depth > 50: raise Crash("recursion")
        if number(v) is not None: return ("n", v)
        if v.startswith('"') and v.endswith('"'): return ("t", v)
        parts = v.split("::")
        if len(parts) == 2:
            o = self.current()
            if o["pos"] >= len(o["found"]): raise Crash("no record")
            vals = self.data[o["table"]].get(parts[1])
            return self.operand(vals[o["found"][o["pos"]]] if vals is not None else "", depth + 1)
        scope = self.vars[len(self.ip) - 1]
        if v not in scope: return ("t", "")
        return self.operand(scope[v], depth + 1)

    def calc(self, text):
        if text not in self.cache: self.cache[text] = parse(text)
        return self.ev(self.cache[text])

    def ev(self, e):
        k = e[0]
        if k == "num": return rust_float(e[1])
        if k == "str": return e[1]
        if k in ("var", "fld"): return self.operand(e[1])[1]
        if k == "cat":
            l, r = self.ev(e[1]), self.ev(e[2])
            if len(l) + len(r) > 2 * burn.MAX_TEXT: raise Unclear()
            return '"' + l.replace('"', "") + r.replace('"', "") + '"'
        if k == "cmp":
            l, r = self.ev(e[2]), self.ev(e[3])
            return "true" if burn.CMP[e[1]]((l > r) - (l < r)) else "false"
        if k == "bin":
            l, r = self.operand(self.ev(e[2])), self.operand(self.ev(e[3]))
            if l[0] != "n" or r[0] != "n": return "undefined"
            a, b = number(l[1]), number(r[1])
            if e[1] == "/" and b == 0: raise Unclear()
            x = a + b if e[1] == "+" else a - b if e[1] == "-" else a * b if e[1] == "*" else a / b
            return rust_float(x)
        name, args = e[1], e[2]
        if name == "Get": raise Unclear()
        if name == "Min":
            best = None
            for a in args:
                v = self.ev(a)
                if best is None: best = v; continue
                x, y = self.operand(v), self.operand(best)
                if x[0] == "n" and y[0] == "n": less = number(x[1]) < number(y[1])
                else: less = x[1] < y[1]
                if less: best = v
            return best
        if name == "Asin":
            if len(args) < 2: raise Crash("Asin")
            return min(self.ev(args[0]), self.ev(args[1]))
        if name not in ("Abs", "Acos", "Char"): raise Unclear()
        v = self.ev(args[0])
        x = number(v)
        if x is None: raise Crash(name)
        if name == "Abs": return f32(abs(x))
        if name == "Acos":
            if not -1 <= x <= 1: raise Unclear()
            return rust_float(math.acos(x))
        if not v.isdigit(): raise Crash("Char")
        if int(v) > 0x10FFFF or 0xD800 <= int(v) < 0xE000: raise Crash("Char")
        return '"' + chr(int(v)) + '"'

    @staticmethod
    def unquote(v):
        if len(v) < 2 or v[0] != '"' or v[-1] != '"': raise Crash("not a text")
        return v[1:-1]

    # -------------------------------------------------------- steps
    def run(self, name, flat):
        """(events, ok)"""
        self.ip = [[name, flat, 0]]
        self.vars = [{}]
        self.loops, self.branch, self.mode, self.criteria, self.ok = [], False, "browse", [], True
        self.states = []
        while self.ok and self.ip:
            self.budget -= 1
            if self.budget < 0: raise Hang()
            self.step()
        return self.events, self.ok

    def reset_found(self, o):
        o["found"] = list(range(self.count[o["table"]]))

    def step(self):
        f = self.ip[-1]
        n = len(self.ip) - 1
        prog, i = f[1], f[2]
        if i >= len(prog): self.ip.pop(); return
        op, sw = prog[i]
        if op == "call":
            v = self.unquote(self.calc(sw[0]))
            self.vars.append({})
            if v not in self.scripts: raise Hang()
            f[2] += 1
            self.ip.append([v, self.scripts[v], 0])
            if len(self.ip) > 400: raise Hang()
            return
        if op == "layout":
            v = self.unquote(self.calc(sw[0]))
            if v in self.layout: self.cur = self.layout[v]
        elif op == "goto":
            v = self.calc(sw[0])
            leave = False
            if len(sw) > 1:
                self.calc(sw[1]); leave = True
            if self.mode == "browse":
                o = self.current()
                old, m = o["pos"], len(o["found"])
                if v.isdigit() and v.isascii():
                    if int(v) >= m:
                        if m == 0: raise Crash("goto")
                        o["pos"] = m - 1
                    else: o["pos"] = int(v)
                elif v == '"previous"': o["pos"] = max(0, old - 1)
                elif v == '"first"': o["pos"] = 0
                elif v in ('"next"', '"last"'):
                    if m == 0: raise Crash("goto")
                    if v == '"last"': o["pos"] = m - 1
                    elif old < m - 1: o["pos"] += 1
                if leave and o["pos"] == old:
                    while i < len(prog) and prog[i][0] != "endloop": i += 1
                    if i >= len(prog): raise Crash("no loop")
                    f[2] = i + 1
                    return
        elif op == "enterfind": self.mode = "find"
        elif op == "find":
            o = self.current()
            hits = set()
            for name, val in self.criteria:
                field = name.split("::")[1]
                if field not in self.data[o["table"]]: raise Crash("criterion")
                hits |= {r for r, x in enumerate(self.data[o["table"]][field]) if x == val}
            self.reset_found(o)
            if hits: o["found"], o["pos"] = sorted(hits), 0
            self.mode, self.criteria = "browse", []
        elif op == "all": self.reset_found(self.current())
        elif op == "set":
            self.vars[n][sw[0]] = self.calc(sw[1])
        elif op == "setf":
            v = self.calc(sw[1])
            if self.mode == "find": self.criteria.append((sw[0], v))
            else:
                parts = sw[0].split("::")
                if parts[0] not in self.by_name: raise Crash("occurrence")
                o = self.occ[self.by_name[parts[0]]]
                if o["pos"] >= len(o["found"]) or parts[1] not in self.data[o["table"]]: raise Crash("no record")
                self.data[o["table"]][parts[1]][o["found"][o["pos"]]] = v
        elif op == "loop": self.loops.append(i)
        elif op == "endloop":
            if not self.loops: raise Crash("no loop")
            f[2] = self.loops[-1] + 1
            return
        elif op in ("if", "elif"):
            if op == "elif" and self.branch:
                if self.to_endif(f): return
            v = self.calc(prog[f[2]][1][0])
            if v == "true":
                f[2] += 1
                self.branch = True
            else:
                if op == "elif": f[2] += 1
                while f[2] < len(prog) and prog[f[2]][0] not in ("endif", "else", "elif"): f[2] += 1
            return
        elif op == "else":
            if self.branch and self.to_endif(f): return
        elif op == "endif": self.branch = False
        elif op == "exitif":
            if self.calc(sw[0]) == "true":
                while i < len(prog) and prog[i][0] != "endloop": i += 1
                if i >= len(prog): raise Crash("no loop")
                f[2] = i + 1
                return
        elif op == "new":
            t = self.current()["table"]
            if not self.fields[t]: raise Unclear()
            r = self.count[t]
            self.count[t] += 1
            self.history.append(tuple(self.count.values()))
            for vals in self.data[t].values(): vals.append("")
            for o in self.occ.values():
                if o["table"] == t:
                    o["found"].append(r)
                    o["pos"] = len(o["found"]) - 1
        elif op == "dlg": self.events.append(("dlg", self.calc(sw[0])))
        elif op == "assert":
            if self.calc(sw[0]) == "false":
                self.events.append(("failed", sw[0]))
                self.ok = False
        f[2] += 1

    def to_endif(self, f):
        prog = f[1]
        while f[2] < len(prog):
            if prog[f[2]][0] == "endif":
                self.branch = False
                return True
            f[2] += 1
        raise Unclear()


def predict(name, body_flat, schema, scripts):
    """(events, ok, record counts) or a string saying why the run has no clean end."""
    m = Machine(schema, scripts)
    try: events, ok = m.run(name, body_flat)
    except Crash as e: return "crash"
    except Hang: return "hang"
    except (Unclear, OverflowError): return "unclear"
    return events, ok, [tuple(0 for _ in m.count)] + m.history


class Calculator:
    """Says what calculations give today, one after the other, in one script."""
    def __init__(self):
        self.m = Machine()
        self.m.ip, self.m.vars = [["", [], 0]], [{}]

    def __call__(self, e):
        """The value as shown, or None when the run would end."""
        try: return self.m.calc(burn.text(e))
        except (Crash, Unclear, OverflowError, RecursionError): return None

    def set(self, name, shown): self.m.vars[0][name] = shown
