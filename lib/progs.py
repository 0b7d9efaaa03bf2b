"""Random programs of the burn language (steps of burn.py), and a compiler of bodies into stored script steps."""
from . import burn, fmp, gen

T = ("cmp", "==", ("num", "1"), ("num", "1"))
F = ("cmp", "==", ("num", "1"), ("num", "2"))


class Progs:
    """w: weights of step kinds. schema: burn.Schema or None. scripts: names that may be called."""
    def __init__(self, rng, w, schema=None, scripts=(), unknown_calls=True, literals=True, simple=False):
        self.rng, self.w, self.schema, self.scripts = rng, dict(w), schema, list(scripts)
        self.unknown_calls, self.simple = unknown_calls, simple
        self.counter = 0
        self.uid = 0
        self.given = []
        self.probe_names = ["x", "y", "i", "$v"]
        self.hide_fields = False
        self.cur = min(schema.occs) if schema and schema.occs else None   # the occurrence a step is likely to run on

    # ------------------------------------------------------------ expressions
    def ex(self, scope):
        g = gen.Exprs(self.rng, [v for v, t in scope.items() if t == "n"], [v for v, t in scope.items() if t == "t"],
                      [v for v, t in scope.items() if t == "b"], functions=not self.simple, simple_text=self.simple,
                      division=not self.simple)
        g.small = self.simple
        return g

    def value(self, scope, depth=None):
        r = self.rng
        d = r.choice([0, 0, 1, 1, 2]) if depth is None else depth
        x = r.random()
        g = self.ex(scope)
        if self.schema and x < 0.15:
            f = self.fieldref()
            if f: return f if r.random() < 0.5 else ("cat", f, ("str", r.choice(["y", "+z", "x"])))
        if x < 0.5: return g.num(d)
        if x < 0.85: return g.text(d)
        return g.boolean(d)

    def kind(self, e):
        k = e[0]
        if k in ("num", "bin"): return "n"
        if k == "call": return "n" if e[1] in ("Abs", "Acos", "Asin") else "t" if e[1] in ("Char", "Get") else self.kind(e[2][0])
        if k in ("str", "cat"): return "t"
        if k == "cmp": return "b"
        if k == "par": return self.kind(e[1])
        if k == "var": return None
        return None

    def fieldref(self, write=False):
        s = self.schema
        o = self.rng.choice(list(s.occs))
        if not write and self.cur is not None and self.rng.random() < 0.97: o = self.cur
        name, t = s.occs[o]
        fs = list(s.tables[t][1].values())
        if not fs: return None
        return ("fld", name, self.rng.choice(fs))

    def cond(self, scope):
        r = self.rng
        x = r.random()
        if x < 0.25: return T
        if x < 0.5: return F
        nums = [v for v, t in scope.items() if t == "n"]
        if nums and x < 0.8:
            return ("cmp", r.choice(["==", "<", ">", "!=", "<=", ">="]), ("var", r.choice(nums)), ("num", str(r.randrange(0, 4))))
        if self.schema and x < 0.9:
            f = self.fieldref()
            if f: return ("cmp", r.choice(["==", "!="]), f, self.stored())
        return self.ex(scope).boolean(1)

    def stored(self):
        r = self.rng
        return r.choice([("num", str(r.randrange(0, 4))), ("str", r.choice(["a", "b", "c", "a b", "x, y", "1"])), ("num", "2.5")])

    def tag(self):
        self.uid += 1
        return "p%d" % self.uid

    # ------------------------------------------------------------ statements
    def body(self, n, depth, scope, loops=0):
        out = []
        for _ in range(n):
            out += self.step(depth, scope, loops)
        return out

    def block(self, depth, scope, loops, n=None):
        """A nested body; afterwards variables whose kind it may have changed are forgotten."""
        inner, cur = dict(scope), self.cur
        b = self.body(self.rng.choice([0, 1, 1, 2, 2, 3]) if n is None else n, depth - 1, inner, loops)
        if self.cur != cur and self.rng.random() < 0.8 and any(o == cur for _, o in self.schema.layouts.values()):
            b.append(("layout", ("str", self.layout_of(cur))))
        self.cur = cur
        return b, inner

    def layout_of(self, o): return [n for n, x in self.schema.layouts.values() if x == o][0]

    def merge(self, scope, inners):
        for v in list(scope):
            if any(i.get(v) != scope[v] for i in inners): del scope[v]

    def probe(self, scope):
        """A dialog that tells where the program is and what it sees."""
        r = self.rng
        e = ("str", self.tag())
        vs = list(scope)
        for v in r.sample(vs, min(len(vs), r.randrange(0, 3))): e = ("cat", ("cat", e, ("str", ":")), ("var", v))
        if self.schema and not self.hide_fields and r.random() < 0.7:
            f = self.fieldref()
            if f: e = ("cat", ("cat", e, ("str", "=")), f)
        return ("dlg", e)

    def deep(self, n, scope):
        """A chain of n nested blocks, each entered once or not, with a probe on every level."""
        r = self.rng
        inner = [self.probe(scope)]
        for _ in range(n):
            p = lambda: [self.probe(scope)] if r.random() < 0.5 else []
            x = r.random()
            if x < 0.35: b = [("loop", p() + inner + [("exitif", T)] + p())]
            elif x < 0.45: b = [("loop", p() + [("if", [(T, inner + [("exitif", T)])], None)] + p())]
            elif x < 0.6: b = [("if", [(T, p() + inner + p())], p() or None)]
            elif x < 0.75: b = [("if", [(F, p())], p() + inner + p())]
            elif x < 0.95: b = [("if", [(F, p()), (T, inner + p()), (T, p())], p() or None)]
            else: b = [("if", [(F, inner)], p() or None)]
            inner = b + p()
        return inner

    def step(self, depth, scope, loops):
        r = self.rng
        ks = [k for k, w in self.w.items() if w > 0 and (depth > 0 or k not in ("if", "loop", "records")) and (loops or k != "exitif")]
        k = r.choices(ks, [self.w[q] for q in ks])[0]
        if k == "probe": return [self.probe(scope)]
        if k == "set":
            name = r.choice(gen.NAMES[:10] + gen.NAMES[-2:] if not self.simple else ["x", "y", "z", "total_1", "name"])
            e = self.value(scope)
            kd = self.kind(e)
            if e[0] == "var": kd = scope.get(e[1])
            if kd is None: e, kd = ("num", str(r.randrange(10))), "n"
            scope[name] = kd
            return [("set", name, e)]
        if k == "show": return [("dlg", self.value(scope))]
        if k == "unset":                             # a name that may not be set here
            v = r.choice(self.probe_names + gen.NAMES[:8])
            return [("dlg", r.choice([("var", v), ("cat", ("cat", ("str", "<"), ("var", v)), ("str", ">"))]))]
        if k == "assert_true":
            return [("assert", r.choice([T, ("cmp", "!=", ("str", self.tag()), ("str", "")), ("par", T)]))]
        if k == "assert":
            c = self.cond(scope)
            return [("assert", c)]
        if k == "assert_false":
            return [("assert", r.choice([F, ("cmp", "==", ("str", self.tag()), ("str", "other")), ("cmp", ">", ("num", "2"), ("num", "10"))]))]
        if k == "if":
            n = r.choice([1, 1, 1, 2, 2, 3, 4])
            br, inners = [], [scope]
            for _ in range(n):
                c = self.cond(scope)
                b, i = self.block(depth, scope, loops)
                br.append((c, b)); inners.append(i)
            el = None
            if r.random() < 0.55:
                el, i = self.block(depth, scope, loops)
                inners.append(i)
            self.merge(scope, inners)
            return [("if", br, el), self.probe(scope)] if r.random() < 0.6 else [("if", br, el)]
        if k == "loop": return self.loop(depth, scope, loops)
        if k == "exitif": return [("exitif", self.cond(scope))]
        if k == "call":
            if not self.scripts: return []
            x = r.random()
            if self.unknown_calls and x < 0.1: n = r.choice(["nowhere", "", self.scripts[0] + "x", self.scripts[0][:-1] + "?", self.scripts[0].upper() + "_"])
            else: n = r.choice(self.scripts)
            e = ("str", n)
            if not self.simple and r.random() < 0.2 and len(n) > 1: e = ("cat", ("str", n[:1]), ("str", n[1:]))
            elif not self.simple and r.random() < 0.15:
                v = "callee"
                return [("set", v, ("str", n)), ("call", ("var", v))]
            return [("call", e)]
        if k == "exit":
            return [("exit", r.choice([None, None, ("num", "1"), ("str", "done")]) if not self.simple else r.choice([None, ("num", "1")]))]
        return self.dbstep(k, depth, scope, loops)

    def loop(self, depth, scope, loops):
        r = self.rng
        self.counter += 1
        c = "c%d" % self.counter
        limit = r.randrange(0, 4)
        inner = dict(scope)
        inner[c] = "n"
        parts = [self.body(r.choice([0, 1, 1, 2]), depth - 1, inner, loops + 1) for _ in range(2)]
        tick = [("set", c, ("bin", "+", ("var", c), ("num", "1")))]
        test = ("cmp", r.choice([">=", ">="]), ("var", c), ("num", str(limit)))
        x = r.random()
        if x < 0.55: stop = [("exitif", test)]
        elif x < 0.75: stop = [("if", [(test, [self.probe(inner), ("exitif", T)])], None)]
        elif x < 0.9: stop = [("if", [(("cmp", "<", ("var", c), ("num", str(limit))), [self.probe(inner)])], [("exitif", T), self.probe(inner)])]
        else: stop = [("if", [(F, [("exitif", T)]), (test, [("if", [(T, [("exitif", T)])], None)])], None)]
        seq = parts[0] + tick + stop + parts[1] if r.random() < 0.5 else tick + parts[0] + stop + parts[1] if r.random() < 0.5 else parts[0] + stop + parts[1] + tick
        if r.random() < 0.5: seq = [self.probe(inner)] + seq
        self.merge(scope, [inner])
        scope.pop(c, None)
        return [("set", c, ("num", "0")), ("loop", seq)] + ([self.probe(scope)] if r.random() < 0.6 else [])

    # ------------------------------------------------------------ records
    def layout_expr(self):
        r = self.rng
        names = list({n for n, o in self.schema.layouts.values()})
        if not names: return None
        n = r.choice(names)
        x = r.random()
        if x >= 0.12: self.cur = [o for m, o in self.schema.layouts.values() if m == n][0]
        if x < 0.12: n = r.choice(["no such layout", "", n + " ", n.upper() + "2"])
        e = ("str", n)
        if not self.simple and x > 0.8 and len(n) > 1: e = ("cat", ("str", n[:2]), ("str", n[2:]))
        return e

    def dbstep(self, k, depth, scope, loops):
        r, s = self.rng, self.schema
        if k == "layout":
            e = self.layout_expr()
            return [("layout", e)] if e else []
        if k == "new": return [("new",)]
        if k == "setf":
            f = self.fieldref(True)
            if not f: return []
            if r.random() < 0.4: v = ("str", self.tag())
            elif r.random() < 0.5: v = self.stored()
            else: v = self.value(scope)
            self.given.append((f[1], f[2], v))
            return [("setf", f[1], f[2], v)]
        if k == "fill":                             # a new record with recognisable content
            e = self.layout_expr()
            out = [("layout", e)] if e and r.random() < 0.4 else []
            out.append(("new",))
            for _ in range(r.randrange(0, 3)): out += self.dbstep("setf", depth, scope, loops)
            return out
        if k == "goto":
            x = r.random()
            if x < 0.65: e = ("str", r.choice(["first", "last", "next", "next", "previous"]))
            else: e = ("num", str(r.choice([0, 0, 1, 2, 3, 7, 1000])))
            if not self.simple and r.random() < 0.1 and e[0] == "str": e = ("cat", ("str", e[1][:2]), ("str", e[1][2:]))
            a = None
            if r.random() < (0.4 if loops else 0.05):
                a = r.choice([T, T, T, ("num", "1"), ("str", "true"), F, ("num", "0"), ("str", "")] if loops else [F, ("num", "0"), ("str", "")])
            return [("goto", e, a)]
        if k == "records":                          # visits the found set
            inner = dict(scope)
            b = self.body(r.choice([0, 0, 1]), depth - 1, inner, loops + 1)
            self.merge(scope, [inner])
            way = r.choice([("first", "next"), ("first", "next"), ("last", "previous")])
            return ([("goto", ("str", way[0]), None)] if r.random() < 0.8 else []) + \
                   [("loop", [self.probe(scope)] + b + [("goto", ("str", way[1]), r.choice([T, ("num", "1"), ("str", "yes")]))]), self.probe(scope)]
        if k == "findop":
            out, t = [], None
            if r.random() < 0.8 and s.layouts:       # on a layout of the table of the criteria
                n, o = r.choice(list(s.layouts.values()))
                t = s.occs[o][1]
                self.cur = o
                out.append(("layout", ("str", n)))
            out.append(("enterfind",))
            for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
                f = self.fieldref()
                known = [g for g in self.given if t is None or s.occs[[o for o in s.occs if s.occs[o][0] == g[0]][0]][1] == t]
                if known and r.random() < 0.65:          # values some record has
                    out.append(("setf",) + r.choice(known))
                elif f and (t is None or s.occs[[o for o in s.occs if s.occs[o][0] == f[1]][0]][1] == t):
                    out.append(("setf", f[1], f[2], self.stored()))
            if r.random() < 0.1: out.append(("goto", ("str", r.choice(["next", "last"])), None))
            out.append(("find",))
            return out
        if k == "all": return [("all",)]
        if k == "enterfind": return [("enterfind",)]
        if k == "find": return [("find",)]
        raise KeyError(k)

    def start(self, share=0.9):
        """Steps that give the occurrences reachable by a layout records."""
        out = []
        for n, o in self.rng.sample(list(self.schema.layouts.values()), len(self.schema.layouts)):
            if self.rng.random() > share: continue
            out.append(("layout", ("str", n)))
            self.cur = o
            for _ in range(self.rng.choice([1, 1, 2, 3])):
                out.append(("new",))
                for _ in range(self.rng.randrange(0, 3)):
                    f = self.rng.choice(list(self.schema.tables[self.schema.occs[o][1]][1].values()))
                    x = (self.schema.occs[o][0], f, self.rng.choice([("str", self.tag()), self.stored()]))
                    out.append(("setf",) + x)
                    self.given.append(x)
        return out

    def dump(self):
        """Steps that show every found set and then every record of every occurrence reachable by a layout."""
        s = self.schema
        out = []
        def line(o, tag):
            name, t = s.occs[o]
            e = ("str", tag + name)
            for f in s.tables[t][1].values(): e = ("cat", ("cat", e, ("str", "f")), ("fld", name, f))
            return ("dlg", e)
        by = {}
        for n, o in s.layouts.values(): by.setdefault(o, n)
        for rnd in ("at ", "found ", "all "):
            for o, n in by.items():
                out.append(("layout", ("str", n)))
                if rnd == "at ": out.append(line(o, rnd)); continue
                if rnd == "all ": out.append(("all",))
                out += [("goto", ("str", "first"), None), ("loop", [line(o, rnd), ("goto", ("str", "next"), T)])]
        return out


# ---------------------------------------------------------------- schemas

def random_schema(rng, max_tables=3, max_occs=5, max_fields=4, top=31700):
    """top: the largest id of a table, field or occurrence"""
    from .specs import Names
    nm = Names(rng)
    sp = fmp.Spec()
    pool = [n for n in (nm.new(plain=True, maxbytes=20) for _ in range(40)) if "_" not in n][:6]   # known finding: a field name ends at _
    far = rng.random() < 0.25                       # ids of two bytes
    for t in rng.sample(range(1, top if far else 40), rng.randrange(1, max_tables + 1)):
        fs = rng.sample(range(1, min(31800, top + 100) if far else 60), rng.randrange(1, max_fields + 1))
        names = rng.sample(pool, len(fs))
        sp.tables[t] = {"name": nm.new(), "fields": {f: {"name": n} for f, n in zip(fs, names)}}
    for o in rng.sample(range(1, min(top, rng.choice([300, 16000])) if far else 120), rng.randrange(1, max_occs + 1)):
        sp.occs[o] = (nm.new(plain=True, maxbytes=20), rng.choice(list(sp.tables)))
    for l, o in enumerate(list(sp.occs) + [rng.choice(list(sp.occs)) for _ in range(rng.randrange(0, 2))], 1):
        if o in [x[1] for x in sp.layouts.values()] or rng.random() < 0.9:
            sp.layouts[l] = (rng.choice("abc") + nm.new(maxbytes=60).replace('"', "'"), o)
    return sp


def burn_schema(sp):
    return burn.Schema({t: (d["name"], {f: x["name"] for f, x in d["fields"].items()}) for t, d in sp.tables.items()},
                       dict(sp.occs), dict(sp.layouts))


# ---------------------------------------------------------------- stored scripts

def calc_bytes(e, rng=None, free=False):
    """Bytecode of an expression, or None when the format (as the tool knows it) cannot hold it.
    free: any white space after names and numbers (known finding: the interpreter takes some of it for a part of them)."""
    toks = burn.tokens(e)
    out = []
    for i, t in enumerate(toks):
        if rng and rng.random() < 0.3 and i: out.append(b"\x0c" if rng.random() < 0.3 and t[0] != '"' else
                                                             fmp.calc_space((" " if burn.is_word(toks[i - 1]) and not free else "") + rng.choice([" ", "  ", "\n", "\t"])))
        if t[0] == '"':
            if len(t.encode()) > 250: return None
            out.append(fmp.calc_text(t[1:-1]))
        elif t in fmp.CALC_OPS: out.append(bytes([fmp.CALC_OPS[t]]))
        elif t in fmp.CALC_CALLS and i + 1 < len(toks) and toks[i + 1] == "(": out.append(fmp.CALC_CALLS[t])
        elif t in fmp.CALC_GET and i >= 2 and toks[i - 2] == "Get": out.append(fmp.CALC_GET[t])
        elif t.isdigit() and t.isascii() and int(t) < 256 and str(int(t)) == t: out.append(fmp.calc_number(int(t)))
        elif t[0].isdigit() or t[0] == "." or t == ",": return None
        elif t[0].isalpha() or t[0] in "_$": out.append(fmp.calc_var(t))
        else: return None
    return b"".join(out)


class Unstorable(Exception): pass


# Steps without an effect on what tests observe: comments, and steps the test interpreter reports as unimplemented.
INERT = ["BlankLineComment", "CommentedOut", "UnsortRecords", "Beep", "AllowUserAbort", "FreezeWindow", "CommitRecordsRequests"]


def stored_steps(body, ids_of, rng=None):
    """[fmp.Step] of a body; ids_of: script name -> id."""
    out = []
    def calc(e):
        b = calc_bytes(e, rng)
        if b is None or len(b) > 4000: raise Unstorable()
        return b
    def emit(kind, **kw):
        while rng and rng.random() < 0.1:
            x = fmp.Step(rng.choice(INERT if rng.random() < 0.8 else fmp.UNKNOWN), len(out) + 1)
            if x.kind[0] == "?" and rng.random() < 0.5: x.calc = calc(("str", "an option"))
            out.append(x)
        out.append(fmp.Step(kind, len(out) + 1, **kw))
    def go(b):
        for s in b:
            k = s[0]
            if k == "set": emit("SetVariable", name=s[1], calc=calc(s[2]))
            elif k == "dlg": emit("ShowCustomDialog", calc=calc(s[1]))
            elif k == "assert": emit("Assert", calc=calc(s[1]))
            elif k == "exitif": emit("ExitLoopIf", calc=calc(s[1]))
            elif k == "call":
                if s[1][0] != "str" or s[1][1] not in ids_of: raise Unstorable()
                emit("PerformScript", target=ids_of[s[1][1]])
            elif k == "exit": emit("ExitScript", calc=calc(s[1]) if s[1] else None)
            elif k == "layout": emit("GoToLayout", calc=calc(s[1]))
            elif k == "new": emit("NewRecordRequest")
            elif k == "goto":
                if s[2] is not None: raise Unstorable()
                emit("GoToRecordRequestPage", calc=calc(s[1]))
            elif k == "enterfind": emit("EnterFindMode")
            elif k == "find": emit("PerformFind")
            elif k == "all": emit("ShowAllRecords")
            elif k == "loop":
                emit("Loop"); go(s[1]); emit("EndLoop")
            elif k == "if":
                for i, (c, bb) in enumerate(s[1]):
                    emit("If" if i == 0 else "ElseIf", calc=calc(c)); go(bb)
                if s[2] is not None:
                    emit("Else"); go(s[2])
                emit("EndIf")
            else: raise Unstorable()
    go(body)
    return out
