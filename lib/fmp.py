"""Synthesizes .fmp12 files: components -> logical chunks -> sectors, in many equivalent encodings.

A file is described by a Spec; `items(rng)` lays its components out as logical items (in one of the orders
the format allows) and `write(items, enc)` encodes them.  Encoding choices (chunk forms, path pushes, padding,
unrelated chunks, cuts, physical order) are made by an Enc object and never change what is stored.
"""

from . import opcodes

S = 4096
CMPS = ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian"]
OPC = opcodes.ALL


def crypt(text):
    return bytes(b ^ 0x5A for b in (text.encode("utf-8") if isinstance(text, str) else text))


def two(n):
    """a path number >= 128 in two bytes"""
    n -= 128
    assert 0 <= n < 0x7C00
    return bytes([0x80 | (n >> 8), n & 255])


def path_bytes(n):
    return bytes([n]) if n < 128 else two(n)


# ---------------------------------------------------------------- calculations

def calc_text(s):
    b = crypt(s)
    assert len(b) < 256
    return bytes([0x13, len(b)]) + b


def calc_number(n):
    return bytes([0x10, 2, 0, 1, 0, 16, 0, 0, 0, n] + [0] * 10)


def calc_var(name):
    b = crypt(name)
    return bytes([0x1A, len(b)]) + b


CALC_OPS = {"(": 4, ")": 5, "+": 0x25, "-": 0x26, "*": 0x27, "/": 0x28, "<": 0x41, "<=": 0x43, "==": 0x44, "!=": 0x46,
            ">=": 0x47, ">": 0x49, "&": 0x50}
CALC_CALLS = {"Abs": b"\x2d", "Get": b"\x9b", "Acos": b"\x9d", "Char": b"\xfb\x03"}
CALC_GET = {"CurrentTime": b"\x9c\x1d", "AccountName": b"\x9c\x20", "DocumentsPath": b"\x9c\x49",
            "DocumentsPathListing": b"\x9c\x5d"}


def calc_space(s):
    b = crypt(s)
    return bytes([0x0C, 0x13, len(b)]) + b


# ---------------------------------------------------------------- items

class Item:
    """One chunk at a path. kind: 'ref' (key, data), 'seg' (key, data), 'plain' (data), 'long' (key bytes, data),
    'visit' (the push alone), 'raw' (bytes)."""
    __slots__ = ("path", "kind", "key", "data", "code")

    def __init__(self, path, kind, key=None, data=b"", code=None):
        self.path, self.kind, self.key, self.data, self.code = tuple(path), kind, key, data, code


def push(el):
    """Canonical push of one path element; ('L', n) is the three-byte form of occurrences."""
    if isinstance(el, tuple): return bytes([0x30, 208, el[1] >> 8, el[1] & 255])
    if el < 128: return bytes([0x20, el])
    return bytes([0x28]) + two(el)


USED_KEYS = {1, 2, 3, 4, 5, 16, 129, 130, 131}


class Enc:
    """Encoding choices. Without rng: one canonical encoding."""
    def __init__(self, rng=None, forms=False, noops=0.0, junk=0.0, cut=0.0, shuffle=False, pops=True, gaps=0):
        self.rng, self.forms, self.noops, self.junk = rng, forms, noops, junk
        self.cut, self.shuffle, self.pops, self.gaps = cut, shuffle, pops, gaps
        self.used = {}

    def hit(self, k): self.used[k] = self.used.get(k, 0) + 1

    def push(self, el):
        if isinstance(el, tuple) or not self.forms:
            b = push(el)
        elif el < 128: b = bytes([0x20, el])
        else:
            opts = [bytes([0x28]) + two(el), bytes([0x38, 2]) + two(el)]
            t = two(el)
            opts.append(bytes([0x28, t[0] & 0x7F, t[1]]))
            extra = self.rng.randrange(0, 4)
            opts.append(bytes([0x38, 2 + extra]) + t + bytes(self.rng.randrange(256) for _ in range(extra)))
            if el < 254: opts.append(bytes([0x20, el]))
            b = self.rng.choice(opts)
        self.hit("push-%02x" % b[0])
        return b

    def pop(self):
        b = bytes([0x40]) if not self.forms or self.rng.random() < 0.7 else bytes([0x3D])
        self.hit("pop-%02x" % b[0])
        return b

    def ref(self, key, data, code=None):
        n = len(data)
        fixed = {1: 1, 2: 2, 4: 3, 6: 4, 8: 5}
        opts = []
        if key < 256 and n < 256: opts.append(bytes([6, key, n]) + data)
        if key < 256 and n in fixed: opts.append(bytes([fixed[n], key]) + data)
        if key < 256 and n == 4: opts.append(bytes([0x1B, 0, key]) + data)
        if key >= 128 and n < 256 and (key - 128) >> 8 < 0x7C:
            t = two(key)
            opts.append(bytes([0x0E]) + t + bytes([n]) + data)
            if self.forms: opts.append(bytes([0x0E, t[0] & 0x7F, t[1], n]) + data)
            if n in fixed: opts.append(bytes([8 + fixed[n]]) + t + data)
        if code is not None: opts = [o for o in opts if o[0] in code]
        assert opts, (key, n, code)
        b = self.rng.choice(opts) if self.forms else opts[0]
        self.hit("ref-%02x" % b[0])
        return b

    def seg(self, idx, data):
        n = len(data)
        b = bytes([7, idx, n >> 8, n & 255]) + data
        if self.forms and self.rng.random() < 0.5: b = bytes([0x0F, 0x80, idx, n >> 8, n & 255]) + data
        self.hit("seg-%02x" % b[0])
        return b

    def junk_chunk(self, plain_ok=True):
        """A chunk that stores nothing of a component, under keys no component uses."""
        r = self.rng
        rb = lambda n: bytes(r.randrange(256) for _ in range(n))
        k = r.randrange(0, 16)
        n = r.randrange(0, 12) if r.random() < 0.9 else r.choice([64, 127, 128, 200, 255])
        if not plain_ok: k = r.choice([0, 1, 2, 12, 13])
        key = r.choice([216, 252, 240, 48, 200, 9, 33, 77] + [x for x in range(256) if x not in USED_KEYS])
        some = lambda: r.randrange(0, 8) if r.random() < 0.85 else r.choice([32, 63, 64, 127, 128, 129, 200, 255])
        wide = lambda: bytes([r.choice([1, 0x3F, 0x7C, 0x7F, 0x81, 0xC0, 0xFC, 0xFD, 0xFE, r.randrange(0x81, 0xFF)]), r.randrange(30, 256)])
        if k == 0: b = bytes([6, key, n]) + rb(n)
        elif k == 1:
            c = r.randrange(1, 6)
            b = bytes([c, key]) + rb(1 if c == 1 else 2 * (c - 1))
        elif k == 2:
            c = r.randrange(9, 14)
            b = bytes([c]) + (two(r.choice([300, 1000, 5000])) if r.random() < 0.3 else wide()) + rb(1 if c == 9 else 2 * (c - 9))
        elif k == 3: b = bytes([8]) + rb(2)
        elif k == 4: b = bytes([0x0E, 0xFF]) + rb(5)
        elif k == 5: b = bytes([0x10]) + rb(3)
        elif k == 6:
            c = r.randrange(0x11, 0x16)
            b = bytes([c]) + rb(3 + (c == 0x11) + 2 * (c - 0x11))
        elif k == 7: b = bytes([0x16]) + rb(3) + bytes([n]) + rb(n)
        elif k == 8:
            c = r.choice([0x19, 0x1A, 0x1C, 0x1D])
            b = bytes([c, n]) + rb(n + (c == 0x19) + 2 * (c - 0x19))
        elif k == 9: n = max(n, 1); b = bytes([0x1B, n]) + rb(n + 4)
        elif k == 10: m = some(); b = bytes([0x1E, m]) + rb(m) + bytes([n]) + rb(n)
        elif k == 11:
            m = some()
            if r.random() < 0.2: n = r.choice([255, 256, 257, 300, 511, 700, 1030])
            b = bytes([0x1F, m]) + rb(m) + bytes([n >> 8, n & 255]) + rb(n)
        elif k == 12: b = bytes([0x23, n]) + rb(n)
        elif k == 13: b = bytes([0x0E]) + wide() + bytes([n]) + rb(n)
        elif k == 14: n = r.choice([128, 200, 255, 256, 300, 383, 384, 600, 1000]); b = bytes([0x17]) + rb(3) + two(n) + rb(n)
        else: b = b"\0" + rb(1)
        self.hit("junk-%02x" % b[0])
        return b

    def popping(self, b):
        """The chunk with a pop behind it in one."""
        assert b[0] < 0x40
        self.hit("popping-%02x" % b[0])
        return bytes([b[0] | 0xC0]) + b[1:]

    def junk_tree(self):
        """A subtree of no component: pushes below an unused top-level path and back."""
        r = self.rng
        alike = [(2, 16, 5, 130), (100, 3, 5, 7), (18, 5, 3, 4), (18, 5, 3, 5, 2, 128), (33, 5, 4), (3, 18, 5, 0), (4, 2, 7, 3),
                 (17, 6, 2), (3, 250, 5, 2, 3), (16, 5, 129), (3, 5, 130), (5, 1, 7, 2), (17, 4, 1, 2)]
        top = (r.choice([2, 6, 9, 14, 20, 23, 25, 33, 64, 65]),) if r.random() < 0.6 else r.choice(alike)   # much like a component
        out, depth = b"".join(self.push(x) for x in top), len(top)
        keyed = lambda: bytes([6, r.choice([1, 2, 3, 4, 5, 16, 129, 130]), 9]) + crypt("unrelated")
        deep = r.random() < 0.1
        for _ in range(r.randrange(0, 6) if not deep else r.randrange(20, 50)):
            if len(out) > 1800: break
            x = r.random()
            if x < (0.7 if deep else 0.3) and depth < (20 if deep else 6):
                out += self.push(r.choice([1, 2, 3, 5, 7, 16, 17, 100, 128, 129, 300])); depth += 1
            elif x < (0.75 if deep else 0.4) and depth > 1:
                out += self.pop() if r.random() < 0.6 else self.popping(self.junk_chunk()); depth -= 1
            else: out += self.junk_chunk() if x < 0.7 else keyed()
        return out + b"".join(self.pop() if r.random() < 0.8 else self.popping(self.junk_chunk()) for _ in range(depth))


PLAIN_LISTS = ((32, 1, 1), (3, 16, 1, 1), (4, 1, 1), (17, 1, 1))


def chunks(items, enc):
    """[(path after it, bytes, kind)] : every push, pop and datum of the items in order."""
    out, path = [], ()
    r = enc.rng

    def leave(it):
        """One element up: a pop, or an unrelated chunk that pops when it is done."""
        nonlocal path
        was, path = path, path[:-1]
        if r and enc.forms and enc.junk and r.random() < enc.junk and junk_allowed(was) and (not path or junk_allowed(path)):
            out.append((path, enc.popping(enc.junk_chunk()), "pop"))
        else: out.append((path, enc.pop(), "pop"))

    for it in items:
        # go to the item's path
        common = 0
        while common < len(path) and common < len(it.path) and path[common] == it.path[common]: common += 1
        if it.kind == "visit" and common == len(it.path) and common == len(path) and path:
            common -= 1                             # push again
        while len(path) > common:
            leave(it)
        if r and enc.junk and r.random() < enc.junk and len(path) == 0:
            out.append((path, enc.junk_tree(), "junk"))
        while len(path) < len(it.path):
            path = path + (it.path[len(path)],)
            out.append((path, enc.push(path[-1]), "push"))
        if r and enc.noops:
            while r.random() < enc.noops:
                out.append((path, b"\x80", "noop")); enc.hit("noop")
        if r and enc.junk and r.random() < enc.junk and junk_allowed(path):
            out.append((path, enc.junk_chunk(), "junk"))
        if it.kind == "ref": out.append((path, enc.ref(it.key, it.data, it.code), "data"))
        elif it.kind == "seg": out.append((path, enc.seg(it.key, it.data), "data"))
        elif it.kind == "raw": out.append((path, it.data, "data"))
    while path: leave(None)
    return out


def junk_allowed(path):
    """Places where a chunk under an unused key belongs to no component."""
    p = tuple(x if not isinstance(x, tuple) else "L" for x in path)
    if not p: return False
    if p[:2] == (32, 1): return False
    return True


def sectors(chs, enc):
    """Cuts the chunk sequence into sector payloads; each starts with the pushes of its path."""
    CAP = S - 20
    res, cur, path = [], b"", ()
    r = enc.rng
    prev_path = ()
    for i, (after, data, kind) in enumerate(chs):
        pops = len(prev_path) if enc.pops else 0
        force = r and enc.cut and r.random() < enc.cut and cur
        if len(cur) + len(data) + (len(after) if enc.pops else 0) > CAP or force:
            if force: enc.hit("cut")
            res.append(pad(cur, prev_path, enc))
            pre = b"".join(enc.push(e) for e in prev_path)
            cur = pre
        cur += data
        prev_path = after
    if cur or not res: res.append(pad(cur, prev_path, enc))
    return res


def pad(cur, path, enc):
    CAP = S - 20
    if enc.pops: cur += b"".join(enc.pop() for _ in path)
    assert len(cur) <= CAP, len(cur)
    plain = enc.pops or tuple(path) not in PLAIN_LISTS
    return cur + (b"\x00" if plain else b"\x80") * (CAP - len(cur))


def write(items, enc=None):
    enc = enc or Enc()
    return layout(sectors(chunks(items, enc), enc), enc)


def layout(payloads, enc=None, n_blocks=None):
    """Places the payloads in sectors 2.. (in a shuffled physical order on request) and chains them."""
    r = enc.rng if enc else None
    n = len(payloads)
    gaps = enc.gaps if enc else 0
    slots = list(range(2, 2 + n + gaps))
    if enc and enc.shuffle and r:
        rest = slots[1:]
        r.shuffle(rest)
        slots = [2] + rest
        enc.hit("shuffled")
    slots = slots[:n] if not (enc and enc.shuffle) else slots[:n]
    top = max(slots + [2 + n + gaps - 1])
    img = bytearray(S * (top + 1))
    img[0:15] = b"\x00\x01\x00\x00\x00\x02\x00\x01\x00\x05\x00\x02\x00\x02\xc0"
    img[15:19] = b"HBAM"
    img[S + 8:S + 12] = (n_blocks if n_blocks is not None else top).to_bytes(4, "big")
    for i, p in enumerate(payloads):
        o = slots[i] * S
        nxt = slots[i + 1] if i + 1 < n else 0
        prv = slots[i - 1] if i else 0
        img[o + 4:o + 8] = prv.to_bytes(4, "big")
        img[o + 8:o + 12] = nxt.to_bytes(4, "big")
        img[o + 20:o + S] = p
    used = set(slots)
    if r:
        for s in range(2, top + 1):                 # sectors outside the chain hold anything
            if s not in used: img[s * S:(s + 1) * S] = bytes(r.randrange(256) for _ in range(64)) * 64
    return bytes(img)


# ---------------------------------------------------------------- specifications

class Step:
    """kind, index; name (set variable), calc (bytes; exit script / any step), target (script id), value (plain text
    that stands for the calculation of a set-variable step)"""
    def __init__(self, kind, index, name=None, calc=None, target=0, text=None):
        self.kind, self.index, self.name, self.calc, self.target, self.text = kind, index, name, calc, target, text


def step_bytes(st):
    idx = path_bytes(st.index)
    b = bytearray(28)
    b[0] = len(idx) + 1
    b[1] = len(idx)
    b[2:2 + len(idx)] = idx
    if st.kind == "PerformScript":
        t = path_bytes(st.target)
        b[6], b[7] = len(t) + 1, len(t)
        b[8:8 + len(t)] = t
    b[21] = int(st.kind[1:]) if st.kind[0] == "?" else OPC[st.kind]
    return bytes(b)


UNKNOWN = ["?%d" % x for x in range(256) if x not in OPC.values()]      # kinds of steps the tool does not know


class Spec:
    def __init__(self):
        self.tables = {}      # id -> {"name", "fields": {fid: {"name", "account", "user"}}}
        self.occs = {}        # id -> (name, table id)
        self.rels = {}        # id -> (occ1, field1, occ2, field2, comparison)
        self.layouts = {}     # id -> (name, occ id)
        self.scripts = {}     # id -> (name, [Step], layout: 'chunk' | list of cut positions for segments)
        self.sources = {}     # id -> {"name", "path", "file", "user"}

    def groups(self, rng=None):
        """Item lists per component kind; shuffled within the orders the format allows."""
        odd = rng if rng and rng.random() < 0.5 else None
        def extra(its, p, *a, at=0, used=None, **k):
            """Now and then unrelated data below and beside the component's own, in between or behind it."""
            if odd and used and odd.random() < 0.25:
                for x in beside(odd, p, used): its.insert(odd.randrange(at, len(its) + 1), x)
            if odd and odd.random() < 0.2:
                i = odd.randrange(at, len(its) + 1)
                its[i:i] = below(odd, p, *a, **k)
            return its
        sh = (lambda l: (rng.shuffle(l), l)[1]) if rng else (lambda l: l)
        out = {}
        g = []
        for t in sh(list(self.tables)):
            p = (3, 16, 5, 128 + t)
            its = [Item(p, "visit")]
            its += value_items(p, 16, crypt(self.tables[t]["name"]))
            g.append(extra(its, p, at=1, used=(16,)))
        out["tables"] = g
        g = []
        for t in sh(list(self.tables)):
            fs = self.tables[t]["fields"]
            for f in sh(list(fs)):
                p = (128 + t, 3, 5, f)
                d = fs[f]
                its = []
                if d.get("type") is not None: its.append(Item(p, "ref", 2, d["type"]))
                its += value_items(p, 16, crypt(d["name"]))
                if d.get("desc"): its += value_items(p, 3, crypt(d["desc"]))
                if d.get("account"): its.append(Item(p, "ref", 129, crypt(d["account"])))
                if d.get("user"): its.append(Item(p, "ref", 130, crypt(d["user"])))
                g.append(extra([Item(p, "visit")] + sh(its), p, (3,), at=1, used=(2, 3, 16, 129, 130)))
        out["fields"] = g
        g = []
        for o in sh(list(self.occs)):
            name, t = self.occs[o]
            p = (3, 17, 5, ("L", o))
            d = bytearray([2, 1, 0, 3, 2]) + two(128 + t) + bytearray([65] + [0] * 27)
            if rng:
                for i in list(range(0, 4)) + list(range(7, 35)): d[i] = rng.randrange(256)
            g.append(extra([Item(p, "visit")] + sh([Item(p, "ref", 2, bytes(d))] + value_items(p, 16, crypt(name))), p, at=1, used=(2, 16)))
        out["occs"] = g
        g = []
        for k in sh(list(self.rels)):
            o1, f1, o2, f2, c = self.rels[k]
            p = (3, 251, 5, k)
            d = bytes([4, 3, 208, o1 >> 8, o1 & 255, 4, 3, 208, o2 >> 8, o2 & 255]) + bytes(12)
            e = bytes([CMPS.index(c), 2]) + (f1 + 256).to_bytes(2, "big") + b"\x02" + (f2 + 256).to_bytes(2, "big")
            its = [Item(p, "ref", 2, d), Item(p + (3,), "ref", 1, e)]
            if odd and odd.random() < 0.3:
                for x in beside(odd, p + (3,), (1, 2)): its.insert(odd.randrange(len(its) + 1), x)
            g.append(extra(its, p, (3,), used=(2,)))
        out["rels"] = g
        g = []
        for l in sh(list(self.layouts)):
            name, o = self.layouts[l]
            p = (4, 1, 7, l)
            its = [Item(p, "ref", 2, bytes([16, 128 + (o & 127), 129 + (o >> 7), 65, 24, 0]))] + value_items(p, 16, crypt(name))
            g.append(extra([Item(p, "visit")] + sh(its), p, at=1, used=(2, 16)))
        out["layouts"] = g
        g = []
        for s in sh(list(self.scripts)):
            p = (17, 1, 7, s)
            g.append(extra(value_items(p, 16, crypt(self.scripts[s][0])), p, used=(16,)))
        out["script_names"] = g
        g = []
        for s in sh(list(self.scripts)):
            g.append(extra(script_items(s, self.scripts[s], sh, odd), (17, 5, s), (4, 5), used=(4,)))
        out["script_code"] = g
        g = []
        for k in sh(list(self.sources)):
            d = self.sources[k]
            p = (32, 5, k)
            blob = source_blob(d)
            its = value_items(p, 16, crypt(d["name"])) + [Item(p, "ref", 130, blob, code=(6,)) if len(blob) < 256 else Item(p, "seg", 130, blob)]
            if d.get("user"): its.append(Item(p, "ref", 130, crypt(d["user"]), code=(1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14)))
            g.append(extra([Item(p, "visit")] + sh(its), p, at=1, keys=(1, 2, 3, 4, 5, 16, 129, 131, 216), used=(2, 16, 129, 130, 131)))
        out["sources"] = g
        return out

    def items(self, rng=None):
        g = self.groups(rng)
        order = ["tables", "occs", "rels", "layouts", "script_names", "script_code", "fields", "sources"]
        if rng:
            rng.shuffle(order)
            a, b = order.index("script_names"), order.index("script_code")
            if a > b: order[a], order[b] = order[b], order[a]
        res = []
        for k in order:
            for its in g[k]: res += its
        return res

    def model(self):
        """What the decompiled model has to say."""
        return {
            "tables": {str(t): {"table_name": d["name"],
                                "fields": {str(f): {"field_name": x["name"], "created_by_account": x.get("account", ""),
                                                    "created_by_user": x.get("user", ""),
                                                    "field_description": x.get("desc") or "",
                                                    "field_type": crypt(x["type"]).decode() if x.get("type") else ""} for f, x in d["fields"].items()}}
                       for t, d in self.tables.items()},
            "table_occurrences": {str(o): {"table_occurence_name": n, "table_actual": t} for o, (n, t) in self.occs.items()},
            "relationships": {str(k): {"table1": a, "field1": b, "table2": c, "field2": d, "comparison": e}
                              for k, (a, b, c, d, e) in self.rels.items()},
            "layouts": {str(l): {"layout_name": n, "table_occurrence": o} for l, (n, o) in self.layouts.items()},
            "data_sources": {str(k): {"source_name": d["name"], "created_by_user": d.get("user", ""),
                                      "source_location": {"source_path": d["path"], "source_filename": d["file"],
                                                          "source_type": d.get("type", "file")}} for k, d in self.sources.items()},
            "scripts": {str(s): {"script_name": v[0], "instructions": [step_model(st, self) for st in v[1] if st.kind[0] != "?"]}
                        for s, v in self.scripts.items()},
        }


def source_blob(d):
    path = d["path"].replace("..", "\x01").replace("/", "\x02")
    code = {"\x01": [219], "\x02": [218]}
    # a colon may be followed by the rest of its marker, and has to be in front of an h
    colon = lambda i: [65, 50] if i % 2 or path[i + 1:i + 2] == "h" else [65]
    enc = bytes(b for i, c in enumerate(path) for b in (colon(i) if c == ":" else code.get(c, [ord(c) ^ 0x5A])))
    f = crypt(d["file"])
    kind = crypt(d.get("type", "file"))
    return bytes([0, 0, 0, 1, len(kind)]) + kind + bytes([len(enc), 65, 50]) + enc + bytes([len(f)]) + f


def value_items(p, key, data):
    """A value of any length, in the way FileMaker stores it: one chunk, one long chunk, or segments of 1000 bytes."""
    if len(data) < 256: return [Item(p, "ref", key, data)]
    if len(data) <= 1000: return [Item(p, "seg", key, data)]
    return [Item(p + (key,), "seg", i // 1000 + 1, data[i:i + 1000]) for i in range(0, len(data), 1000)]


def below(rng, p, avoid=(), keys=(1, 2, 3, 4, 5, 16, 129, 130, 131, 216, 252)):
    """Data in a subdirectory of a component, under the keys that mean something in the directory itself."""
    q = p + (rng.choice([x for x in (1, 2, 3, 4, 5, 7, 9, 16, 17, 129, 130, 135, 251, 300) if x not in avoid]),)
    its = []
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < 0.4: q += tuple(rng.choice([1, 3, 5, 16, 128, 129, 300]) for _ in range(1 if rng.random() < 0.93 else rng.randrange(4, 16)))
        n = rng.choice([1, 2, 5, 12, 28, 56, 100])
        d = bytes(rng.randrange(256) for _ in range(n)) if rng.random() < 0.5 else crypt("unrelated" * 12)[:n]
        if n == 28 and rng.random() < 0.5: d = step_bytes(Step("Beep", rng.randrange(1, 200)))
        its.append(Item(q, "ref" if rng.random() < 0.7 else "seg", rng.choice(keys), d))
    return its


def beside(rng, p, used):
    """Further data of a component in its own directory, under keys without a meaning to the model."""
    its = []
    for _ in range(rng.randrange(1, 4)):
        n = rng.choice([1, 2, 3, 6, 7, 8, 10, 12, 22, 28, 35, 56])
        d = bytes(rng.randrange(256) for _ in range(n)) if rng.random() < 0.6 else crypt("beside" * 12)[:n]
        if rng.random() < 0.3: d = bytes([rng.randrange(7), 2, 1, rng.randrange(256), 2, 1, rng.randrange(256)])[:max(n, 7)]
        its.append(Item(p, "ref" if rng.random() < 0.8 else "seg", rng.choice([k for k in (1, 2, 3, 4, 5, 6, 7, 9, 16, 17, 128, 129, 130, 131, 135, 216, 252) if k not in used]), d))
    return its


def step_noise(rng, q, st):
    """Options of a step that the model does not speak about, as FileMaker stores them."""
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    its = []
    if rng.random() < 0.4: its.append(Item(q, "ref", 216, rb(16)))
    for o in rng.sample([128, 129, 130, 131, 133, 134], rng.randrange(0, 4)):
        for k in rng.sample([4, 6, 1, 3, 16], rng.randrange(1, 4)):
            its.append(Item(q + (o, 5), "ref", k, rng.choice([b"\1\0", rb(5), rb(28), rb(60), crypt("some text")])))
        if o > 129 and rng.random() < 0.5: its.append(Item(q + (o, 5), "ref", 5, calc_text("an option")))
        if rng.random() < 0.3: its.append(Item(q + (o, 5), "seg", 4, rb(rng.choice([28, 56, 300]))))
        if rng.random() < 0.3: its.append(Item(q + (o,), "ref", rng.choice([3, 16, 4] + [1] * (o != 128 or st.kind != "SetVariable")), crypt("other text")))
    if rng.random() < 0.2: its += below(rng, q, (128, 129))
    return its


def script_items(sid, v, sh=lambda l: l, rng=None):
    name, steps, how = v
    p = (17, 5, sid)
    code = b"".join(step_bytes(s) for s in steps)
    its = []
    if how == "chunk":
        # one chunk, whose length takes one or two bytes
        if 0 < len(code) < 256: its.append(Item(p, "ref", 4, code, code=(6,)))
        elif code: its.append(Item(p, "seg", 4, code))
        if not code: its.append(Item(p, "visit"))
    else:
        cuts = [0] + sorted(c for c in how if 0 < c < len(code)) + [len(code)]
        parts = [code[a:b] for a, b in zip(cuts, cuts[1:])]
        its.append(Item(p + (4,), "visit"))
        for i, part in sh(list(enumerate(parts))):
            its.append(Item(p + (4,), "seg", i, part))
    data = []
    for st in steps:
        q = p + (5, st.index)
        one = []
        if st.kind == "SetVariable":
            one.append(Item(q + (128,), "ref", 1, crypt(st.name)))
            if st.calc is not None: one += value_items(q + (129, 5), 5, st.calc)
            elif st.text is not None: one.append(Item(q + (128, 5), "ref", 5, crypt(st.text)))
        elif st.kind == "ExitScript":
            if st.calc is not None: one += value_items(q + (128, 5), 5, st.calc)
        elif st.calc is not None: one += value_items(q + (129, 5), 5, st.calc)
        if rng and rng.random() < 0.3:
            for x in step_noise(rng, q, st): one.insert(rng.randrange(len(one) + 1), x)
        if one: data.append(one)
    for one in sh(data): its += one
    return its


def step_model(st, spec):
    sw = []
    if st.kind == "PerformScript" and st.target in spec.scripts: sw.append('"%s"' % spec.scripts[st.target][0])
    if st.kind == "SetVariable": sw.append(st.name)
    return {"opcode": st.kind, "index": st.index, "switches": sw, "_calc": st.calc, "_text": st.text}


def project(model):
    """The part of a decompiled model that Spec.model() speaks about."""
    g = lambda d, *ks: {k: d[k] for k in ks}
    return {
        "tables": {i: {"table_name": t["table_name"], "fields": {f: g(x, "field_name", "created_by_account", "created_by_user", "field_description", "field_type")
                                                                 for f, x in t["fields"].items()}} for i, t in model["tables"].items()},
        "table_occurrences": {i: g(t, "table_occurence_name", "table_actual") for i, t in model["table_occurrences"].items()},
        "relationships": {i: g(t, "table1", "field1", "table2", "field2", "comparison") for i, t in model["relationships"].items()},
        "layouts": {i: g(t, "layout_name", "table_occurrence") for i, t in model["layouts"].items()},
        "data_sources": {i: dict(g(t, "source_name", "created_by_user"), source_location=g(t["source_location"],
                         "source_path", "source_filename", "source_type")) for i, t in model["data_sources"].items()},
        "scripts": {i: {"script_name": t["script_name"],
                        "instructions": [g(s, "opcode", "index", "switches") for s in t["instructions"]]}
                    for i, t in model["scripts"].items()},
    }
