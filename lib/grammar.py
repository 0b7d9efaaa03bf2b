"""Burn sources as lists of pieces, and structural errors put into them."""
from . import sources

KINDS = {"table": "table", "occ": "table_occurence", "rel": "relationship", "list": "value_list", "test": "test"}


PUNCT = ["{", "}", "[", "]", "(", ")", ";", ":", ",", "=", "!"]
FIRM = {"colon-rel", "colon-scripts", "colon-test", "colon-occ", "[scripts", "[test", "step;", "if{", "elif{", "loop{", "else{", "end;"}


class P(str):
    """a piece of text with a role"""
    def __new__(cls, text, role="", decl=None, block=None):
        p = str.__new__(cls, text); p.role, p.decl, p.block = role, decl, block
        return p


def script_pieces(f, name, params, body, d):
    out = [P("define" + f.w(), "", d), P(name, "script-name", d), P(f.s("") + "(" + ",".join(f.s("") + p + f.s("") for p in params) + ")" + f.s(), "", d), P("{", "script{", d), P(f.s("\n"))]
    def args(a): return f.s("") + "(" + ",".join((f.s("") if i == 0 else f.s(" ")) + x + f.s("") for i, x in enumerate(a)) + ")"
    def go(t):
        for s in t:
            if s[0] == "step":
                out.extend([P(s[1], "step", d), P(args(s[2]), "args", d), P(f.s("")), P(";", "step;", d), P(f.s("\n"))])
            elif s[0] == "loop":
                out.extend([P("loop" + f.s()), P("{", "loop{", d), P(f.s("\n"))]); go(s[1]); out.extend([P("}", "}", d, "loop"), P(f.s("\n"))])
            else:
                for i, (c, b) in enumerate(s[1]):
                    out.extend([P("if" if i == 0 else "elif"), P(args([c]), "condition", d), P(f.s()), P("{", "if{" if i == 0 else "elif{", d), P(f.s("\n"))])
                    more = i + 1 < len(s[1]) or s[2] is not None
                    go(b); out.extend([P("}", "}more" if more else "}", d), P(f.s())])
                if s[2] is not None:
                    out.extend([P("else" + f.s()), P("{", "else{", d), P(f.s("\n"))]); go(s[2]); out.extend([P("}", "}", d, "else")])
                out.append(P(f.s("\n")))
    go(body.tree)
    return out + [P("}", "script}", d), P(f.s("\n"))]


def pieces(decls, f):
    """The source as pieces; a boundary piece before every declaration and at the end."""
    out = []
    for i, d in enumerate(decls):
        out.append(P("", "boundary", i))
        k = d[0]
        if k == "scripts":
            out += [P("script" + f.s("")), P(":", "colon-scripts", i), P(f.s()), P("[", "[scripts", i), P(f.s("\n"))]
            for n, p, b in d[1]: out += script_pieces(f, n, p, b, i)
            out += [P("]", "]", i), P(f.s("\n\n"))]
            continue
        out.append(P(KINDS[k] + (f.w() if k != "rel" else "")))
        if k == "rel": out += [P(f.s("")), P(":", "colon-rel", i), P(f.s("\n ") + d[1] + f.s("") + ":" + f.s("") + d[2] + f.s(""), "rel-tables", i), P("," + f.s("\n ") + d[3] + sources.compare(f, d) + d[4] + f.s("") + "," + f.s("\n"))]
        else: out += [P(d[1], "name", i), P(f.s("")), P(":", "colon", i)]
        if k == "table": out.append(P(f.w("\n") + "\n".join("  " + x for x in d[2]) + f.w("\n")))
        elif k == "occ": out += [P(f.s("\n ") + "table" + f.s("")), P(":", "colon-occ", i), P(f.s()), P(d[2], "occ-table", i), P(f.s("") + ",", "occ-end", i), P(f.s("\n"))]
        elif k == "list": out.append(P(f.s("\n ") + ", ".join('"' + v + '"' for v in d[2]) + f.w("\n")))
        elif k == "test":
            out += [P(f.s("\n ") + "script" + f.s("")), P(":", "colon-test", i), P(f.s()), P("[", "[test", i), P(f.s("\n"))]
            out += script_pieces(f, *d[2], i)
            out += [P("", "second-script", i), P("]", "]", i), P(f.s("") + "," + f.s("\n"))]
        out += [P("end", "end", i), P(f.w()), P(KINDS[k], "end-kind", i), P(f.s("")), P(";", "end;", i), P(f.s("\n\n"))]
    out.append(P("", "boundary", len(decls)))
    return out


def break_it(rng, ps, kind):
    """The pieces with one error of the kind; None where there is no place for it."""
    ps = list(ps)
    def at(*roles): 
        c = [i for i, p in enumerate(ps) if p.role in roles]
        return rng.choice(c) if c else None
    def drop(*roles):
        i = at(*roles)
        if i is None: return None
        ps[i] = P(" ")
        return ps
    if kind == "no name": return drop("name")
    if kind.startswith("no colon"): return drop(*{"no colon after relationship": ["colon-rel"], "no colon after script": ["colon-scripts"], "no colon after script of a test": ["colon-test"],
                                                   "no colon in occurrence": ["colon-occ"], "no colon after name": ["colon"]}[kind])
    if kind == "no end semicolon": return drop("end;")
    if kind == "end of another kind":
        i = at("end-kind")
        if i is None: return None
        ps[i] = P(rng.choice([k for k in list(KINDS.values()) + ["script", "Table", "nothing", "endtable", "42"] if k != str(ps[i])]))
        return ps
    if kind == "no end":                             # the whole of "end kind;"
        ends = [i for i, p in enumerate(ps) if p.role == "end"]
        kinds = [str(ps[i + 2]) for i in ends]       # the next end must not be one of the same kind; relationships take "x: end" for names
        c = [i for n, i in enumerate(ends) if n + 1 == len(ends) or kinds[n + 1] != kinds[n] != "relationship"]
        if not c: return None
        i = rng.choice(c)
        for j in range(i, i + 5): ps[j] = P(" ")
        return ps
    if kind == "stray token":
        i = at("boundary")
        ps[i] = P(" " + rng.choice(["stray", "end", ";", ":", ",", "12", "tables", "define", "]", "end table;", "Table", "}"]) + rng.choice([" ", "\n"]))
        return ps
    if kind == "two scripts in a test":
        i = at("second-script")
        if i is None: return None
        f = sources.Format(rng, "plain")
        ps[i] = P(sources.script_text(f, "another", [], sources.Body([])))
        return ps
    if kind == "no script in a test":
        i = at("[test")
        if i is None: return None
        j = next(k for k in range(i, len(ps)) if ps[k].role == "]")
        return ps[:i + 1] + ps[j:]
    if kind == "script never closed":                # everything from the last ] on is missing
        c = [i for i, p in enumerate(ps) if p.role == "]"]
        return ps[:c[-1]] if c else None
    if kind == "no [": return drop("[scripts", "[test")
    if kind == "step without semicolon": return drop("step;")
    if kind == "if without block": return drop("if{", "elif{")
    if kind == "loop without block": return drop("loop{")
    if kind == "else without block": return drop("else{")
    if kind == "brace missing at the end":
        i = at("script}")
        if i is None: return None
        ps[i] = P(" "); return ps
    if kind == "brace of a block missing": return drop("}")
    if kind == "brace too many":
        i = at("step;", "}", "script}")         # not before elif and else: see the lexer
        if i is None: return None
        ps[i] = P(str(ps[i]) + "}"); return ps
    if kind == "semicolon for a block":
        i = at("if{", "elif{", "loop{", "else{")
        if i is None: return None
        ps[i] = P(";"); return ps
    if kind == "no block":
        i = at("if{", "elif{", "loop{", "else{")
        if i is None: return None
        depth, j = 1, i
        while depth:
            j += 1
            depth += ps[j].role.endswith("{") - ps[j].role.startswith("}")
        return ps[:i] + [P(rng.choice([";", " ", " ; ", " set_variable(x, 1);"]))] + ps[j + 1:]
    if kind == "other punctuation":
        c = [i for i, p in enumerate(ps) if p.role in FIRM]
        if not c: return None
        i = rng.choice(c)
        ps[i] = P(rng.choice([x for x in PUNCT if x != str(ps[i])]), "was " + ps[i].role); return ps
    if kind == "parenthesis missing":
        c = [i for i, p in enumerate(ps) if p.role == "args"]
        if not c: return None
        i = rng.choice(c); j = ps[i].rindex(")")
        ps[i] = P(ps[i][:j] + " " + ps[i][j + 1:]); return ps
    if kind == "parenthesis too many":
        i = at("args")
        if i is None: return None
        ps[i] = P(ps[i] + ")"); return ps
    if kind == "quote missing":
        c = [i for i, p in enumerate(ps) if p.role == "args" and '"' in p]
        if not c: return None
        if "".join(ps).count("]") != sum(p.role == "]" for p in ps): return None     # ends of blocks would move
        i = rng.choice(c); j = rng.choice([j for j, x in enumerate(ps[i]) if x == '"'])
        ps[i] = P(ps[i][:j] + ps[i][j + 1:]); return ps
    if kind == "no script name": return drop("script-name")
    if kind == "keyword for a script name":
        i = at("script-name")
        if i is None: return None
        ps[i] = P(rng.choice(["define", "let", "loop", "if", "elif", "else"])); return ps
    if kind == "brace of a branch missing": return drop("}more")
    if kind == "branch that continues none":
        c = [i for i, p in enumerate(ps) if p.role in ("step;", "script{") or p.role == "}" and p.block in ("loop", "else")]
        if not c: return None
        i = rng.choice(c)
        ps[i] = P(ps[i] + rng.choice([" else { }", "else{}", " elif (x == 1) { }", "elif(1){set_variable(a, 1);}", "\nelse {\n set_variable(x, 2);\n}\n"])); return ps
    if kind == "no condition":
        i = at("condition")
        if i is None: return None
        ps[i] = P(rng.choice([" ", "()", " ( ) ", ""])); return ps
    if kind == "two conditions":
        i = at("condition")
        if i is None: return None
        ps[i] = P(rng.choice([ps[i] + "(x)", "(x, " + ps[i][1:], ps[i] + " " + ps[i]])); return ps
    if kind == "relationship without tables":
        i = at("rel-tables")
        if i is None: return None
        a, b = ps[i].split(":")
        ps[i] = P(rng.choice([a + ":", ":" + b, a, a + " " + b, a + ":table", a + ":12", "", a + "::" + b])); return ps
    if kind == "occurrence without table":
        i = at("occ-table")
        if i is None: return None
        if rng.random() < 0.5: ps[i] = P(rng.choice([" ", "12", "table", '"t"']))
        else:                                        # the whole of "table: name,"
            j = next(k for k in range(i, -1, -1) if ps[k].role == "colon-occ") - 1
            k = next(k for k in range(i, len(ps)) if ps[k].role == "occ-end")
            ps[j:k + 1] = [P(" ")]
        return ps
    if kind == "unknown step":
        i = at("step")
        if i is None: return None
        ps[i] = P("no_such_step_" + ps[i]); return ps
    raise ValueError(kind)


CLASSES = ["no name", "no colon after relationship", "no colon after script", "no colon after script of a test", "no colon in occurrence", "no colon after name",
           "no end semicolon", "end of another kind", "no end", "stray token", "two scripts in a test", "no script in a test", "script never closed", "no [",
           "step without semicolon", "if without block", "loop without block", "else without block", "brace missing at the end", "brace of a block missing", "brace too many", "semicolon for a block", "no block", "other punctuation", "parenthesis missing", "parenthesis too many", "quote missing",
           "no script name", "keyword for a script name", "brace of a branch missing", "branch that continues none", "no condition", "two conditions",
           "relationship without tables", "occurrence without table", "unknown step"]
REFUSED = [k for k in CLASSES if k not in ("no colon after name", "unknown step")]      # the colon after a name is not insisted on
