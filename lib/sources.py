"""Random burn sources with what the compiled model has to say about them."""
from . import gen

STEPS = {"perform_script": "PerformScript", "go_to_layout": "GoToLayout", "go_to_record": "GoToRecordRequestPage",
         "go_to_request": "GoToRecordRequestPage", "enter_find_mode": "EnterFindMode", "perform_find": "PerformFind",
         "show_all_records": "ShowAllRecords", "set_field": "SetField", "set_variable": "SetVariable",
         "exit_loop_if": "ExitLoopIf", "new_record_request": "NewRecordRequest", "exit_script": "ExitScript",
         "show_custom_dialog": "ShowCustomDialog", "assert": "Assert"}
FIRST = "abcdefghkmpqstuvzABCDEFGTR_éß漢"
REST = FIRST + "0123456789"
FIELDS = ["primaryKey: Unique, Required, Text, {get(uuid)},\n  !{!isEmpty(primaryKey)},\n  \"Used as a primary key\",",
          "firstName: Text,", "sex: Text, foundIn[male_female],", "age: Number,", "total:Number,{a * b},", "table_name: Text,",
          "script_id: Number, \"the script, or test; of this\",", "note: Text, {\"a\" & b},", "ended: Date,"]


class Format:
    """How a source is laid out: 'plain', 'tight' or 'wild'."""
    def __init__(self, rng, style):
        self.rng, self.style = rng, style

    def s(self, default=" "):
        """white space that may be absent"""
        if self.style == "plain": return default
        if self.style == "tight": return ""
        return self.rng.choice(["", "", " ", "\n", "\t", "  ", "\r\n", " \n\t "])

    def w(self, default=" "):
        """white space that has to be there"""
        if self.style != "wild": return default
        return self.rng.choice([" ", "\n", "\t", "  ", "\r\n", "\n\n  "])


LONG = [30, 32, 63, 64, 65, 100, 126, 128, 200, 254, 256, 300, 1000]
STORED = [30, 32, 63, 64, 65, 80, 100]           # of names that the database carries in one data sector


def identifier(rng, used, maxlen=12, reserved=None, long=LONG):
    """reserved: the words that may not be names here; those of scripts and of sources are different ones."""
    reserved = SOURCE_WORDS if reserved is None else reserved
    while True:
        x = rng.random()
        if x < 0.06:
            n = rng.choice(sorted(KEYWORDS))
            n = rng.choice([n, n, n.upper(), n.title(), n[:-1] + n[-1].upper()])
            if n in used or n in reserved: continue
            used.add(n)
            return n
        if x < 0.35: n = rng.choice(["Person", "Job", "invoice", "line_item", "table1", "tables", "endtable", "test_a", "scripts", "value",
                                     "relationships", "T", "x", "end_", "Table", "END", "define", "loop", "if"]) + rng.choice(["", "", "_2", "s"])
        else: n = rng.choice(FIRST) + "".join(rng.choice(REST) for _ in range(rng.randrange(0, maxlen) if rng.random() < 0.97 else rng.choice(long)))
        try: float(n); continue
        except ValueError: pass
        if n in used or n in reserved or n.lower() in ("inf", "infinity", "nan"): continue
        used.add(n)
        return n


def compare(f, d):
    """The comparison of a relationship; the compiler keeps none of them."""
    op = ["==", "==", "<=", ">=", "<", ">", "!=", "O"][sum(map(ord, d[3])) % 8] if len(d[3]) > 1 else "=="
    return " " + op + " "


def script_name(rng, used):
    """Scripts may have names that read as numbers."""
    if rng.random() < 0.1:
        n = rng.choice(["infinity", "nan", "inf", "NaN", "1e5", "007", "3", "2nd", "12.5", "1_a"])
        if n not in used:
            used.add(n)
            return n
    return identifier(rng, used, reserved=SCRIPT_WORDS)


SCRIPT_WORDS = {"define", "let", "loop", "if", "elif", "else"}
SOURCE_WORDS = {"table", "relationship", "value_list", "table_occurence", "script", "test", "end"}
KEYWORDS = SCRIPT_WORDS | SOURCE_WORDS


# ---------------------------------------------------------------- script bodies

def raw_argument(rng):
    """Any text: balanced parentheses, complete literals, no top-level comma, no ] outside of a literal."""
    def part(depth):
        x = rng.random()
        if x < 0.3: return rng.choice(["x", "i + 1", "a::b", "12.5", "i == y", "$v", "é", "a  &  b", "x\n + y", "{a; b}", "<=", "a!=b", "\t", "if", "loop", "define"])
        if x < 0.6: return '"' + gen.literal_text(rng).replace('"', "") + '"'
        if depth and x < 0.85:
            return rng.choice(["", "Min", "f "]) + "(" + rng.choice(["", " "]) + ",".join(part(depth - 1) for _ in range(rng.randrange(0, 4))) + ")"
        return "y"
    x = rng.random()
    if x < 0.004:                                            # very deep, very long
        n = rng.choice([20, 63, 64, 130, 260, 300])
        return "f(" * n + part(0) + ")" * n
    if x < 0.012: return '"' + "".join(gen.literal_text(rng).replace('"', "") + rng.choice(["", " ", "é", ";"]) for _ in range(rng.choice([20, 60, 300]))) + '"'
    return rng.choice([" ", "", " & ", "+", "\n"]).join(part(rng.randrange(0, 4)) for _ in range(rng.choice([1, 1, 1, 2, 3]))).strip()


class Body:
    """text and expected steps [(opcode, [arguments])]"""
    def __init__(self, tree): self.tree = tree

    def expected(self):
        out = []
        def go(t):
            for s in t:
                if s[0] == "step": out.append((STEPS[s[1]], s[2]))
                elif s[0] == "loop": out.append(("Loop", [])); go(s[1]); out.append(("EndLoop", []))
                else:
                    for i, (c, b) in enumerate(s[1]): out.append(("If" if i == 0 else "ElseIf", [c] if c else [])); go(b)
                    if s[2] is not None: out.append(("Else", [])); go(s[2])
                    out.append(("EndIf", []))
        go(self.tree)
        return out

    def text(self, f):
        def args(a): return f.s("") + "(" + ",".join((f.s("") if i == 0 else f.s(" ")) + x + f.s("") for i, x in enumerate(a)) + ")"
        def go(t):
            r = ""
            for s in t:
                if s[0] == "step": r += s[1] + args(s[2]) + f.s("") + ";" + f.s("\n")
                elif s[0] == "loop": r += "loop" + f.s() + "{" + f.s("\n") + go(s[1]) + "}" + f.s("\n")
                else:
                    for i, (c, b) in enumerate(s[1]): r += ("if" if i == 0 else "elif") + args([c]) + f.s() + "{" + f.s("\n") + go(b) + "}" + f.s()
                    if s[2] is not None: r += "else" + f.s() + "{" + f.s("\n") + go(s[2]) + "}"
                    r += f.s("\n")
            return r
        return go(self.tree)


def deep_body(rng, depth):
    """Blocks in blocks, of mixed kinds, with steps before and behind the inner one."""
    inner = random_body(rng, rng.randrange(0, 3), 0)
    for _ in range(depth):
        around = [random_body(rng, rng.choice([0, 0, 1]), 0), random_body(rng, rng.choice([0, 0, 1]), 0)]
        x = rng.random()
        if x < 0.4: block = ("loop", inner)
        elif x < 0.6: block = ("if", [("c1", inner)], None)
        elif x < 0.8: block = ("if", [("c1", random_body(rng, 1, 0)), ("c2", inner)], None if rng.random() < 0.5 else random_body(rng, 1, 0))
        else: block = ("if", [("c1", random_body(rng, 1, 0))], inner)
        inner = around[0] + [block] + around[1]
    return inner


def random_body(rng, n, depth):
    out = []
    if depth and rng.random() < 0.03: return deep_body(rng, rng.choice([5, 9, 12, 17, 20, 33, 40]))
    for _ in range(n):
        x = rng.random()
        if depth and x < 0.2: out.append(("loop", random_body(rng, rng.choice([0, 1, 1, 2, 3]), depth - 1)))
        elif depth and x < 0.45:
            br = [(raw_argument(rng) or "y", random_body(rng, rng.choice([0, 1, 1, 2]), depth - 1)) for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.99 else rng.choice([5, 9, 17, 33]))]
            out.append(("if", br, random_body(rng, rng.choice([0, 1, 2]), depth - 1) if rng.random() < 0.5 else None))
        else:
            args = [a for a in (raw_argument(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.97 else rng.choice([4, 5, 6, 8, 9, 12, 17, 40]))) if a]
            if args and rng.random() < 0.1: args.insert(rng.randrange(len(args)), rng.choice(args))
            if args and rng.random() < 0.05: args.insert(rng.randrange(len(args) + 1), "")      # an empty one keeps its place
            out.append(("step", rng.choice(list(STEPS)), args))
    return out


def script_text(f, name, params, body):
    return ("define" + f.w() + name + f.s("") + "(" + ",".join(f.s("") + p + f.s("") for p in params) + ")" + f.s() + "{" + f.s("\n") + body.text(f) + "}" + f.s("\n"))


# ---------------------------------------------------------------- whole sources

class Source:
    """decls: [(kind, ...)] in order."""
    def __init__(self, decls): self.decls = decls

    def text(self, f):
        r = ""
        for d in self.decls:
            k = d[0]
            if k == "table":
                r += "table" + f.w() + d[1] + f.s("") + ":" + f.w("\n") + "\n".join("  " + x for x in d[2]) + f.w("\n") + "end" + f.w() + "table" + f.s("") + ";"
            elif k == "occ":
                r += "table_occurence" + f.w() + d[1] + f.s("") + ":" + f.s("\n ") + "table" + f.s("") + ":" + f.s() + d[2] + f.s("") + "," + f.s("\n") + \
                     "end" + f.w() + "table_occurence" + f.s("") + ";"
            elif k == "rel":
                r += "relationship" + f.s("") + ":" + f.s("\n ") + d[1] + f.s("") + ":" + f.s("") + d[2] + f.s("") + "," + f.s("\n ") + \
                     d[3] + compare(f, d) + d[4] + f.s("") + "," + f.s("\n") + "end" + f.w() + "relationship" + f.s("") + ";"
            elif k == "list":
                r += "value_list" + f.w() + d[1] + f.s("") + ":" + f.s("\n ") + ", ".join('"' + v + '"' for v in d[2]) + f.w("\n") + \
                     "end" + f.w() + "value_list" + f.s("") + ";"
            elif k == "scripts":
                r += "script" + f.s("") + ":" + f.s() + "[" + f.s("\n") + "".join(script_text(f, n, p, b) for n, p, b in d[1]) + "]"
            elif k == "test":
                r += "test" + f.w() + d[1] + f.s("") + ":" + f.s("\n ") + "script" + f.s("") + ":" + f.s() + "[" + f.s("\n") + \
                     script_text(f, *d[2]) + "]" + f.s("") + "," + f.s("\n") + "end" + f.w() + "test" + f.s("") + ";"
            r += f.s("\n\n")
        return r

    def model(self, start=None):
        """The expected model; start: the model of the sources compiled before."""
        m = start or {"tables": {}, "table_occurrences": {}, "relationships": {}, "value_lists": {}, "scripts": {}, "tests": [],
                      "layouts": {}, "data_sources": {}}
        for d in self.decls:
            k = d[0]
            if k == "table": m["tables"][str(len(m["tables"]) + 1)] = {"table_name": d[1]}
            elif k == "occ": m["table_occurrences"][str(len(m["table_occurrences"]))] = {"table_occurence_name": d[1], "table_actual_name": d[2]}
            elif k == "rel": m["relationships"][str(len(m["relationships"]) + 1)] = {"table1_name": d[1], "table2_name": d[2]}
            elif k == "list": m["value_lists"][str(len(m["value_lists"]) + 1)] = {"list_name": d[1]}
            elif k == "scripts":
                for n, p, b in d[1]: m["scripts"][str(len(m["scripts"]) + 1)] = {"script_name": n, "arguments": p, "instructions": b.expected()}
            elif k == "test":
                n, p, b = d[2]
                m["tests"].append({"test_name": d[1], "script": {"script_name": n, "arguments": p, "instructions": b.expected()}})
        return m


def random_source(rng, used=None, n=None, steps=(0, 5), depth=2, kinds=None):
    used = used if used is not None else {k: set() for k in ("table", "occ", "list", "script", "test")}
    decls = []
    w = {"table": 3, "occ": 3, "rel": 2, "list": 1.5, "scripts": 2, "test": 2}
    if kinds: w = {k: v for k, v in w.items() if k in kinds}
    ks = list(w)
    params = lambda: rng.sample(["x", "y", "$id", "name", "é"], rng.choice([0, 0, 1, 2, 3])) if rng.random() < 0.97 else ["p%d" % i for i in range(rng.choice([4, 5, 8, 9, 16, 17, 40]))]
    body = lambda: Body(random_body(rng, rng.randrange(*steps), depth))
    for _ in range(rng.choice([1, 2, 3, 5, 8, 12]) if n is None else n):
        k = rng.choices(ks, [w[x] for x in ks])[0]
        if k == "table" and len(used["table"]) >= 12: continue
        if k == "table": decls.append(("table", identifier(rng, used["table"], long=STORED), rng.sample(FIELDS, rng.randrange(0, 5))))
        elif k == "occ":
            t = rng.choice(sorted(used["table"])) if used["table"] and rng.random() < 0.8 else identifier(rng, set())
            decls.append(("occ", identifier(rng, used["occ"], long=STORED), t))
        elif k == "rel":
            pick = lambda: rng.choice(sorted(used["occ"])) if used["occ"] and rng.random() < 0.8 else identifier(rng, set())
            decls.append(("rel", pick(), pick(), identifier(rng, set()), identifier(rng, set())))
        elif k == "list": decls.append(("list", identifier(rng, used["list"]), [gen.literal_text(rng).replace('"', "") for _ in range(rng.randrange(1, 4))]))
        elif k == "scripts": decls.append(("scripts", [(script_name(rng, used["script"]), params(), body()) for _ in range(rng.choice([1, 1, 2, 3]))]))
        elif k == "test": decls.append(("test", identifier(rng, used["test"]), (script_name(rng, set()), params(), body())))
    return Source(decls)


def large_source(rng, kinds=("rel", "list", "scripts", "test")):
    """One kind of declaration many times, or one script with many steps."""
    k = rng.choice(list(kinds) + ["steps"] * ("scripts" in kinds))
    n = rng.choice([100, 128, 200, 256, 257, 300, 400])
    if k == "steps": return Source([("scripts", [("s", [], Body(random_body(rng, n * 3, 1)))])])
    used = {x: set() for x in ("table", "occ", "list", "script", "test")}
    names = ["n%d" % i for i in range(n)]
    small = lambda: Body([("step", "assert", ["x == %d" % rng.randrange(10)])] * rng.randrange(0, 2))
    if k == "rel": d = [("rel", x, x + "b", "a", "b") for x in names]
    elif k == "list": d = [("list", x, ["v"]) for x in names]
    elif k == "test": d = [("test", x, ("s", [], small())) for x in names]
    elif rng.random() < 0.5: d = [("scripts", [(x, [], small()) for x in names])]
    else: d = [("scripts", [(x, [], small())]) for x in names]
    return Source(d + random_source(rng, used, n=3).decls)


# ---------------------------------------------------------------- comparing

def project(m):
    g = lambda d, *ks: {k: d[k] for k in ks}
    steps = lambda s: dict(g(s, "script_name"), arguments=[a for a in s["arguments"] if a],
                           instructions=[(i["opcode"], [] if i["switches"] == [""] else i["switches"]) for i in s["instructions"]])
    return {"tables": {i: g(t, "table_name") for i, t in m["tables"].items()},
            "table_occurrences": {i: g(t, "table_occurence_name", "table_actual_name") for i, t in m["table_occurrences"].items()},
            "relationships": {i: g(t, "table1_name", "table2_name") for i, t in m["relationships"].items()},
            "value_lists": {i: g(t, "list_name") for i, t in m["value_lists"].items()},
            "scripts": {i: steps(s) for i, s in m["scripts"].items()},
            "tests": [{"test_name": t["test_name"], "script": steps(t["script"])} for t in m["tests"]],
            "layouts": m["layouts"], "data_sources": m["data_sources"]}


def read(m):
    try: return project(m)
    except (KeyError, TypeError, AttributeError) as e: return {"unreadable model": repr(e)}
