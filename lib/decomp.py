"""Decompiles synthesized files with the real tool and compares models with what the files store."""
import json
from . import burn, common, fmp, gen, harness, progs, specs


class Calc(bytes):
    """Bytecode of a calculation with the tokens it stands for."""
    def __new__(cls, data, toks=None):
        o = super().__new__(cls, data)
        o.toks = toks
        return o


def squeeze(text):
    """Without the white space outside of quotes."""
    out, quoted = [], False
    for c in text:
        if c == '"': quoted = not quoted
        if quoted or not c.isspace(): out.append(c)
    return "".join(out)


class CalcGen:
    """Random calculations the format holds; vars: names by kind known to the reader."""
    def __init__(self, names=("x", "y", "total_1"), spacing=True):
        self.names, self.spacing = names, spacing

    def __call__(self, rng):
        long = rng.random() < 0.03
        while True:
            g = gen.Exprs(rng, self.names, self.names, self.names, functions=False, simple_text=False, division=True)
            g.small = True
            e = rng.choice([g.num, g.text, g.boolean])(rng.choice([0, 0, 1, 2, 3]))
            if rng.random() < 0.3: e = decorate(rng, e)
            if long:                                    # around the lengths at which the form of storage changes
                n = rng.choice([255, 256, 600, 1000, 1001, 2000, 3100, 5000]) + rng.randrange(-3, 40)
                while True:
                    c = calc_of(e, rng if self.spacing else None, True)
                    if c is None or len(c) >= n: break
                    e = ("cat", e, ("str", "%d-" % len(c) + "".join(rng.choice("abc xyz09é(") for _ in range(rng.randrange(1, min(230, n - len(c) + 2))))))
                if c is not None: return c
                continue
            c = calc_of(e, rng if self.spacing else None, True)
            if c is not None and len(c) < 250: return c


def decorate(rng, e):
    """Around an expression: calls of functions the format has opcodes for."""
    x = rng.random()
    if x < 0.3: return ("call", rng.choice(["Abs", "Acos", "Char"]), [e])
    if x < 0.6: return ("cat", e, ("call", "Get", [("var", rng.choice(list(fmp.CALC_GET)))]))
    if x < 0.8: return ("bin", "+", ("call", "Abs", [e]), ("call", "Char", [("num", "65")]))
    return ("cmp", "==", ("call", "Get", [("var", "CurrentTime")]), e)


def calc_of(e, rng=None, free=False):
    b = progs.calc_bytes(e, rng, free)
    return None if b is None else Calc(b, "".join(burn.tokens(e)))


def decompile(binary, img, name="synth.fmp12", extra=(), files=None, cpu=15):
    """(model or None, Result)"""
    with common.Scratch() as sc:
        sc.write(name, img)
        for n, d in (files or {}).items(): sc.write(n, d)
        r = common.run(binary, ["-d", name] + list(extra), sc, cpu=cpu)
        try: return json.loads(sc.read("inspect_output/test_decompile").decode("utf-8")), r
        except (OSError, ValueError): return None, r


def got_model(model):
    """project(), or a dictionary that says what is wrong with the shape of the model."""
    try: return fmp.project(model)
    except (KeyError, TypeError, AttributeError) as e: return {"unreadable model": repr(e)}


def without_steps(m):
    return dict(m, scripts={i: {"script_name": s.get("script_name")} for i, s in m.get("scripts", {}).items()}) if "scripts" in m else m


def step_diff(exp, got, path):
    """Compares the steps of one script; calculations up to white space."""
    if len(exp) != len(got):
        return "%s: %d steps expected, %d found" % (path, len(exp), len(got))
    for i, (a, b) in enumerate(zip(exp, got)):
        want = [("name", s) for s in a["switches"]]
        if a.get("_text") is not None: want.append(("name", a["_text"]))
        if a.get("_calc") is not None: want.append(("calc", a["_calc"].toks))
        if (a["opcode"], a["index"]) != (b["opcode"], b["index"]):
            return "%s/%d: expected %s at index %d, found %s at index %s" % (path, i, a["opcode"], a["index"], b["opcode"], b["index"])
        have = b["switches"]
        if len(want) != len(have):
            return "%s/%d (%s): expected options %r, found %r" % (path, i, a["opcode"], want, have)
        for (k, w), h in zip(want, have):
            if (squeeze(w) != squeeze(h)) if k == "calc" else (w != h):
                return "%s/%d (%s): expected option %r, found %r" % (path, i, a["opcode"], w, h)
    return None


def script_diff(exp, got):
    a, b = exp["scripts"], got.get("scripts", {})
    if set(a) != set(b): return "scripts %r expected, %r found" % (sorted(a), sorted(b))
    for s in a:
        if a[s]["script_name"] != b[s]["script_name"]:
            return "script %s: name %r expected, %r found" % (s, a[s]["script_name"], b[s]["script_name"])
        d = step_diff(a[s]["instructions"], b[s]["instructions"], "script %s" % s)
        if d: return d
    return None


def random_enc(rng):
    return fmp.Enc(rng, forms=rng.random() < 0.6, noops=rng.choice([0, 0, 0.2]), junk=rng.choice([0, 0, 0.15, 0.4]),
                   cut=rng.choice([0, 0, 0.02, 0.15]), shuffle=rng.random() < 0.5, pops=rng.random() < 0.7, gaps=rng.choice([0, 0, 1, 3]))


def size_of(sp):
    return tuple(min(len(x), 6) for x in (sp.tables, sp.occs, sp.rels, sp.layouts, sp.scripts, sp.sources)) + \
        (sum(len(t["fields"]) for t in sp.tables.values()),)


def file_note(img):
    return img.rstrip(b"\0").hex()[:400000]
