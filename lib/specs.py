"""Random file descriptions for the decompiler checks, and comparison of decompiled models with them."""
from . import fmp, gen

WORDS = ["customer", "invoice", "line item", "order", "product", "Address", "stock", "tax", "Région", "客户", "notes", "log",
         "x", "id", "PrimaryKey", "ForeignKey", "CreatedBy", "name_2", "Total (net)", "a,b", "\"quoted\"", "end table;", "::", "50%"]
USERS = ["u" * 127, "v" * 128, "w" * 250, "admin", "Jane Doe", "ops", "Müller", "", "root@host", "張"]


class Names:
    """Distinct names, some of them prefixes of each other or different only in case."""
    def __init__(self, rng): self.rng, self.used = rng, set()

    def new(self, plain=False, maxbytes=400):
        r = self.rng
        for _ in range(1000):
            x = r.random()
            if plain: n = r.choice("abcdefghkmpqs") + "".join(r.choice("abcdeghkmopst_") for _ in range(r.randrange(0, 9)))
            elif x < 0.5: n = r.choice(WORDS) + r.choice(["", "", " 2", "_b", str(r.randrange(100))])
            elif x < 0.8: n = "".join(r.choice("abcdefgXYZ 0123_") for _ in range(r.randrange(1, 14))).strip() or "q"
            elif x < 0.97: n = gen.literal_text(r, newline=False) or "z"
            else: n = (r.choice(["n", "n", "é", "表"]) * maxbytes).encode()[:r.choice([r.randrange(maxbytes // 3, maxbytes), 127, 128, 255, 256])].decode("utf-8", "ignore")
            if n in self.used or len(n.encode()) > maxbytes or not n: continue
            self.used.add(n)
            return n
        raise RuntimeError("names")


def ids(rng, n, lo, hi, dense=None):
    """n distinct ids, dense from lo or scattered."""
    if dense is None: dense = rng.random() < 0.5
    if dense: return list(range(lo, lo + n))
    return sorted(rng.sample(range(lo, hi + 1), n))


def random_spec(rng, big=False, scripts=True, calc=None):
    sp = fmp.Spec()
    nm = Names(rng)
    k = (lambda a, b: rng.randrange(a, b * (4 if big else 1) + 1))
    for t in ids(rng, k(0, 5), 1, rng.choice([120, 120, 120, 300, 1500, 31700])):
        d = {"name": nm.new(), "fields": {}}
        for f in ids(rng, min(k(0, 6), 60), 1, rng.choice([120, 120, 1000, 31800])):
            d["fields"][f] = {"name": nm.new(), "account": rng.choice(USERS), "user": rng.choice(USERS),
                              "type": rng.choice([None, bytes([0, rng.randrange(1, 7)]), bytes([rng.randrange(1, 7), 0, 0, rng.randrange(128)])]),
                              "desc": rng.choice([None, None, "what it is for", nm.new()]) if rng.random() < 0.97 else
                                      "".join(rng.choice(WORDS) + rng.choice([" ", ", ", "\n"]) for _ in range(rng.choice([30, 70, 110, 300])))}
        sp.tables[t] = d
    tids = list(sp.tables)
    if tids:
        for o in ids(rng, k(0, 6), 1, rng.choice([100, 4000, 65000])):
            sp.occs[o] = (nm.new(), rng.choice(tids))
    oids = list(sp.occs)
    if oids:
        for r_ in ids(rng, k(0, 6), 1, rng.choice([100, 500, 31800])):
            o1, o2 = rng.choice(oids), rng.choice(oids)
            f = lambda o: rng.choice(list(sp.tables[sp.occs[o][1]]["fields"]) or [rng.choice([rng.randrange(1, 2000), rng.randrange(1, 65279), 65279])])
            sp.rels[r_] = (o1, f(o1), o2, f(o2), rng.choice(fmp.CMPS))
        low = [o for o in oids if o < 16000]
        if low:
            for l in ids(rng, k(0, 5), 1, rng.choice([100, 400, 31800])):
                sp.layouts[l] = (nm.new(), rng.choice(low))
    for s in ids(rng, k(0, 3), 1, rng.choice([400, 400, 31800])):
        path = rng.choice(["", "../", "/", "../../"]) + "/".join(rng.choice(["home", "data", "inspect_output", "h", "x y", "C:", "c:h", "a:b:c"])
                                                                for _ in range(rng.randrange(0, 4 if rng.random() < 0.8 else 30)))
        sp.sources[s] = {"name": nm.new(), "path": path[:160], "file": nm.new(maxbytes=rng.choice([60, 60, 250])), "user": rng.choice(USERS),
                         "type": rng.choice(["file", "file", "filemac", "filewin", "filelinux", "fmnet", "a_type_of_a_remote_source"])}
    if scripts:
        for s in ids(rng, k(0, 5), 1, rng.choice([100, 250, 250, 1000, 31800])):
            sp.scripts[s] = (nm.new(), [], None)
        for s in list(sp.scripts):
            sp.scripts[s] = random_script(rng, sp, s, big, calc)
    return sp


SIMPLE = ["GoToLayout", "NewRecordRequest", "If", "Else", "ElseIf", "EndIf", "Loop", "EndLoop", "ExitLoopIf",
          "GoToRecordRequestPage", "EnterFindMode", "PerformFind", "ShowAllRecords", "ShowCustomDialog", "UnsortRecords",
          "BlankLineComment", "CommentedOut"]

OTHERS = [k for k in fmp.OPC if k not in SIMPLE and k not in ('SetVariable', 'ExitScript', 'PerformScript', 'SetField')]


def random_script(rng, sp, sid, big, calc):
    n = rng.choice([0, 1, 2, 3, 5, 8, 9, 10, 12, 20, 40])
    if big and rng.random() < 0.3: n = rng.randrange(40, 130) if rng.random() < 0.8 else rng.choice([146, 147, 256, 257, 400, 600])
    pool = ids(rng, n, 1, 1100 if rng.random() < 0.5 else 3000, dense=rng.random() < 0.3)
    if rng.random() < 0.3: rng.shuffle(pool)       # the index of a step is not its position
    steps = []
    small = list(sp.scripts)
    gone = [t for t in list(range(256)) + rng.sample(range(256, 31000), 20) if t not in sp.scripts]      # scripts that were deleted
    for i in pool:
        x = rng.random()
        if x < 0.2: steps.append(fmp.Step("SetVariable", i, name=rng.choice(gen.NAMES), calc=calc(rng) if calc else None))
        elif x < 0.27: steps.append(fmp.Step("ExitScript", i, calc=calc(rng) if calc and rng.random() < 0.7 else None))
        elif x < 0.35 and small: steps.append(fmp.Step("PerformScript", i, target=rng.choice(small if rng.random() < 0.9 else gone)))
        elif x < 0.6 and calc:
            steps.append(fmp.Step(rng.choice(["If", "ElseIf", "ExitLoopIf", "ShowCustomDialog", "GoToLayout", "GoToRecordRequestPage"]), i, calc=calc(rng)))
        elif x < 0.8: steps.append(fmp.Step(rng.choice(SIMPLE), i))
        elif x < 0.97: steps.append(fmp.Step(rng.choice(OTHERS), i))
        else: steps.append(fmp.Step(rng.choice(fmp.UNKNOWN), i, name="gone", calc=calc(rng) if calc and rng.random() < 0.5 else None))
    code = 28 * n
    if code and (code > 3900 or rng.random() < 0.5):
        m = rng.randrange(0, 6)
        how = [rng.randrange(1, code) for _ in range(m)]
        how += list(range(3000, code, 3000))
    else: how = "chunk"
    return (sp.scripts[sid][0], steps, how)


def diff(exp, got, path=""):
    """First difference between two JSON trees, or None."""
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in exp:
            if k not in got: return "%s/%s is missing" % (path, k)
        for k in got:
            if k not in exp: return "%s/%s is not stored: %r" % (path, k, str(got[k])[:200])
        for k in exp:
            d = diff(exp[k], got[k], path + "/" + k)
            if d: return d
        return None
    if isinstance(exp, list) and isinstance(got, list):
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, "%s/%d" % (path, i))
            if d: return d
        if len(exp) != len(got): return "%s: %d entries expected, %d found" % (path, len(exp), len(got))
        return None
    if exp != got: return "%s: expected %r, found %r" % (path, exp, got)
    return None
