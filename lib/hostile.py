"""Damaged and hostile .fmp12 images and .burn sources."""
from . import decomp, fmp, progs, sources, specs

S = 4096
EDGE = [0, 1, 2, 5, 7, 8, 0x0E, 0x0F, 0x10, 0x16, 0x17, 0x1B, 0x1E, 0x1F, 0x20, 0x28, 0x30, 0x38, 0x3D, 0x40, 0x5A, 0x7F, 0x80, 0x81, 0xC0, 0xFC, 0xFE, 0xFF]
PATHS = [(3, 16, 5), (3, 16, 5, 128), (3, 16, 5, 129), (3, 16, 5, 5), (3, 17, 5, 0), (3, 17, 5, 0, 251), (3, 17, 5), (3, 251, 5, 0), (3, 251, 5, 1, 3),
         (3, 251, 5, 1), (4, 5), (4, 1, 7, 128), (4, 1, 7, 129), (4, 1, 7, 1, 2), (4, 1, 7), (129, 3, 5, 1), (128, 3, 5, 0), (127, 3, 5, 1), (129, 3, 5), (17, 5, 1),
         (17, 5, 0), (17, 1), (17, 1, 1), (17, 1, 3), (17, 5, 1, 4), (17, 5, 1, 5, 1), (17, 5, 1, 4, 1), (17, 5, 7, 5, 300), (32, 5), (33, 5), (5, 129), (31, 251, 5, 1), (2,), (2, 3), (251,)]


def _known_paths():
    """Paths that occur in synthesized files, too."""
    import random
    sp = specs.random_spec(random.Random(7), big=True, scripts=True, calc=decomp.CalcGen())
    return sorted({tuple(i.path) for i in sp.items(random.Random(7))})


def base_image(rng, sample=None):
    """A valid image."""
    if sample and rng.random() < 0.15: return sample
    sp = specs.random_spec(rng, big=rng.random() < 0.2, scripts=rng.random() < 0.8, calc=decomp.CalcGen())
    return fmp.write(sp.items(rng), decomp.random_enc(rng))


def hostile_items(rng):
    """Valid items whose contents, keys, paths and order were changed, and made-up ones at meaningful paths."""
    sp = specs.random_spec(rng, big=False, scripts=True, calc=decomp.CalcGen())
    items = list(sp.items(rng))
    paths = PATHS + [tuple(i.path) for i in items]
    out = []
    for it in items:
        x = rng.random()
        if x < 0.05: continue
        if x < 0.10: out.append(it)
        if x < 0.25 and it.kind != "visit":
            d = bytearray(it.data)
            for _ in range(rng.choice([1, 1, 3])):
                y = rng.random()
                if y < 0.3: d = d[:rng.randrange(len(d) + 1)]
                elif y < 0.5: d += bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 28, 100])))
                elif d: d[rng.randrange(len(d))] = rng.choice(EDGE + [rng.randrange(256)])
            it = fmp.Item(it.path, it.kind, it.key, bytes(d[:200] if it.kind == "ref" else d))
        elif x < 0.33: it = fmp.Item(rng.choice(paths), it.kind, it.key, it.data)
        elif x < 0.38 and it.kind == "ref": it = fmp.Item(it.path, it.kind, rng.choice([0, 1, 2, 3, 4, 5, 7, 16, 129, 131, 200, 252]), it.data)
        out.append(it)
    for _ in range(rng.choice([0, 2, 10, 40])):
        kind = rng.choice(["visit", "ref", "ref", "data", "seg"])
        data = bytes(rng.choice(EDGE + [rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 4, 7, 11, 12, 28, 56, 200])))
        key = None if kind in ("visit", "data") else rng.choice([0, 1, 2, 3, 4, 5, 7, 16, 128, 129, 131])
        out.insert(rng.randrange(len(out) + 1), fmp.Item(rng.choice(paths), kind, key, data if kind != "visit" else b""))
    if rng.random() < 0.3: rng.shuffle(out)
    return out


def payload(rng):
    """A sector payload of random but mostly decodable chunks."""
    r = bytearray()
    x = rng.random()
    if x < 0.15: return bytes([rng.choice(EDGE)]) * (S - 20)
    if x < 0.3: return bytes(rng.choice([0x20, 0x20, 0x20, 0x40, 3, 17, 5, rng.choice(EDGE)]) for _ in range(S - 20))
    if x < 0.4: return bytes(rng.randrange(256) for _ in range(S - 20))
    goal = rng.choice([50, 500, S - 25])
    while len(r) < goal:
        y = rng.random()
        if y < 0.3:
            for e in rng.choice(PATHS): r += b"\x20" + bytes([e]) if e < 128 else b"\x28" + fmp.path_bytes(e)
        elif y < 0.5: r += b"\x40" * rng.choice([1, 2, 3, 5])
        elif y < 0.9:
            n = rng.choice([0, 1, 2, 3, 7, 12, 28, 60])
            d = bytes(rng.choice(EDGE + [rng.randrange(256)]) for _ in range(n))
            r += rng.choice([bytes([6, rng.choice([0, 1, 2, 3, 4, 5, 16, 252]), n]) + d, bytes([7, rng.randrange(8), 0, n]) + d, bytes([0x0F, 0x80, rng.randrange(8), 0, n]) + d,
                             bytes([0x1E, n]) + d + bytes([n]) + d, bytes([0x0E, 0x80, 3, n]) + d, bytes([0x1F, n]) + d + bytes([0, n]) + d,
                             bytes([0x38, n]) + d, bytes([0x23, n]) + d, bytes([7, 0, 0xFF, 0xFF]), bytes([0x1F, 1, 0, 0xFF, 0xFF])])
        else: r.append(rng.choice(EDGE + [rng.randrange(256)]))
    return bytes(r[:S - 20]).ljust(S - 20, rng.choice([b"\0", b"\x80"]))


def damage(rng, img):
    """(name, damaged image)"""
    b = bytearray(img)
    n = max(1, len(b) // S)
    kind = rng.choice(["flip", "flip", "edge", "truncate", "extend", "swap", "copy", "zero", "link", "blocks", "shift", "payload", "length", "several"])
    def sector(): return rng.randrange(2, n) if n > 2 else 0
    def used():                                            # an offset in the part of a sector that is in use
        o = sector() * S
        end = S
        while end > 21 and b[o + end - 1:o + end] == b"\0": end -= 1
        return o + rng.randrange(20, max(21, end))
    if kind == "flip":
        for _ in range(rng.choice([1, 1, 2, 5, 30])): p = used() if rng.random() < 0.9 else rng.randrange(len(b)); b[min(p, len(b) - 1)] ^= 1 << rng.randrange(8)
    elif kind == "edge":
        for _ in range(rng.choice([1, 1, 2, 5, 30])): b[min(used(), len(b) - 1)] = rng.choice(EDGE)
    elif kind == "truncate":
        b = b[:rng.choice([0, 1, 19, 20, S - 1, S, S + 1, S + 11, S + 12, S + 20, 2 * S - 1, 2 * S, 2 * S + 1, 2 * S + 19, rng.randrange(len(b) + 1), rng.randrange(n + 1) * S, len(b) - 1, rng.randrange(n + 1) * S + 20])]
    elif kind == "extend": b += bytes(rng.choice([0, 0xFF, 0x20, rng.randrange(256)]) for _ in range(rng.choice([1, 20, S, 3 * S])))
    elif kind == "swap":
        x, y = sector() * S, sector() * S
        b[x:x + S], b[y:y + S] = b[y:y + S], b[x:x + S]
    elif kind == "copy":
        x, y = sector() * S, sector() * S
        h = rng.choice([0, 20])
        b[x + h:x + S] = b[y + h:y + S]
    elif kind == "zero": x = sector() * S; b[x + rng.choice([0, 20]):x + S] = bytes(S)[:S - (20 if b[x] else 0)]
    elif kind == "link":
        x = sector() * S
        b[x + 8:x + 12] = rng.choice([0, 1, 2, x // S, sector(), n, n + 1, n - 1, 0x7FFFFFFF, 0xFFFFFFFF, 0x100000, rng.randrange(2 ** 32)]).to_bytes(4, "big")
    elif kind == "blocks": b[S + 8:S + 12] = rng.choice([0, 1, 2, n - 2, n - 1, n, n + 1, 2 * n, 0x10000, 0x7FFFFFFF, 0xFFFFFFFF, 0x2000000]).to_bytes(4, "big") if len(b) > S + 12 else b""
    elif kind == "shift":
        x = sector() * S; p = rng.randrange(20, S)
        k = rng.choice([1, 2, 3, 4])
        if rng.random() < 0.5: b[x + p:x + S] = (bytes(rng.choice(EDGE) for _ in range(k)) + b[x + p:x + S])[:S - p]
        else: b[x + p:x + S] = b[x + p + k:x + S].ljust(S - p, b"\0")
    elif kind == "payload": x = sector() * S; b[x + 20:x + S] = payload(rng)
    elif kind == "length":                                 # a byte that may be a length becomes a large one
        for _ in range(rng.choice([1, 3, 10])): b[min(used(), len(b) - 1)] = rng.choice([0xFF, 0x7F, 0x80, 0xF0, 200])
    else:
        for _ in range(rng.choice([2, 3, 6])):
            k, b2 = damage(rng, bytes(b))
            b = bytearray(b2)
            if len(b) < 2 * S + 20: break
    return kind, bytes(b)


def image(rng, sample=None):
    """(name, image): any kind of hostile image."""
    x = rng.random()
    if x < 0.55: return damage(rng, base_image(rng, sample))
    if x < 0.8:
        img = fmp.write(hostile_items(rng), decomp.random_enc(rng))
        return ("items", img) if rng.random() < 0.8 else ("items+" + damage(rng, img)[0], damage(rng, img)[1])
    if x < 0.95:
        return "payloads", fmp.layout([payload(rng) for _ in range(rng.choice([1, 1, 2, 4]))], fmp.Enc(rng, shuffle=True))
    if x < 0.97: return "text", "".join(rng.choice("table script test :;[](){}\"\n") for _ in range(rng.choice([0, 1, 100, 5000, 20000]))).encode()
    return "noise", bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 4095, 4096, 4097, 8192, 8211, 12288, 20000])))


READING = [(3, 16, 5, 129), (17, 5, 1, 4), (17, 1, 7, 1), (32, 5, 1), (4, 1, 7, 1), (129, 3, 5, 1), (3, 251, 5, 1), (17, 5, 1), (17, 5, 1, 5, 1, 128), (17, 5, 1, 5, 1, 129, 5), ()]


def overruns():
    """[(name, image)] : files that end inside a chunk, of every kind, with every number of its bytes left."""
    out = []
    codes = list(range(0x40)) + [0x40, 0x80, 0xC1, 0xC6, 0xC7, 0xCE, 0xDE, 0xDF, 0xE0, 0xE8, 0xF0, 0xF8]
    tails = [b"\xf0" * 60, b"\x80" + b"\xf0" * 59, b"\x10" + b"\xff" * 59, b"\x01\x00\x64" + b"\x32" * 57, b"\xfe" * 60]
    for c in codes:
        for left in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30):
            path = READING[(c + left) % len(READING)]
            start = b"".join(fmp.push(e) for e in path)
            tail = tails[(c * 5 + left) % len(tails)] if left < 30 else None
            for t in ([tail] if tail else tails):
                img = bytearray(2 * S)
                img[S + 8:S + 12] = (2).to_bytes(4, "big")
                out.append(("overrun-%02x" % c, bytes(img + bytes(20) + start + bytes([c]) + t[:left])))
    return out


def shortened():
    """[(name, image)] : one component of every kind, the data of one of its chunks cut to every length."""
    import random
    sp = specs.random_spec(random.Random(11), big=False, scripts=True, calc=decomp.CalcGen())
    items, out, kinds = list(sp.items()), [], {}
    for i, it in enumerate(items):
        if it.kind == "visit": continue
        k = (it.kind, it.key, tuple(x for x in it.path if isinstance(x, int) and (x in (3, 4, 5, 16, 17, 251, 32, 128, 129)))[:4], len(it.path))
        if kinds.setdefault(k, 0) >= 1: continue
        kinds[k] += 1
        for n in list(range(0, min(len(it.data), 40))):
            for fill in (None, 0xFF):
                d = it.data[:n]
                if fill is not None and n: d = bytes([fill]) + it.data[1:] if n == 1 else it.data[:n - 1] + bytes([fill]) + it.data[n:]
                elif fill is not None: continue
                cut = items[:i] + [fmp.Item(it.path, it.kind, it.key, d)] + items[i + 1:]
                out.append(("short-%s-%s" % (it.kind, it.key), fmp.write(cut, fmp.Enc())))
    return out


VALID = {0, *range(1, 0x0F), *range(0x10, 0x18), *range(0x19, 0x21), 0x23, 0x28, 0x30, 0x38, 0x3D, 0x40, 0x80}


def certain(rng):
    """(name, image) of files that have to be reported as errors."""
    img = bytearray(base_image(rng))
    chain, i = [], 2
    while i: chain.append(i); i = int.from_bytes(img[i * S + 8:i * S + 12], "big")
    kind = rng.choice(["cycle", "claim", "link", "invalid"])
    at = rng.choice(chain) * S
    if kind == "cycle":
        k = rng.randrange(len(chain))
        img[chain[k] * S + 8:chain[k] * S + 12] = rng.choice(chain[:k + 1]).to_bytes(4, "big")
    elif kind == "claim": img[S + 8:S + 12] = (len(img) // S + rng.choice([3, 4, 100, 1 << 16, 1 << 24, 0x7FFFFFFF, 0xFFF00000])).to_bytes(4, "big")
    elif kind == "link": img[at + 8:at + 12] = (len(img) // S + rng.choice([1, 2, 100, 1 << 16, 1 << 20, 0x7FFFFFF0, 0xFFF00000])).to_bytes(4, "big")
    else:
        c = rng.choice([x for x in range(256) if not (x in VALID or (x & 0xC0 == 0xC0 and x & 0x3F in VALID) or x in (0x0F, 0xCF))])
        img[at + 20] = c
    return kind, bytes(img)


# ---------------------------------------------------------------- sources

def source(rng):
    """(name, text): well-formed sources that were damaged, and token soup."""
    x = rng.random()
    if x < 0.25:
        words = ["table", "table_occurence", "relationship", "value_list", "script", "test", "end", "define", "let", "loop", "if", "elif", "else", ":", ";", ",", "[", "]",
                 "{", "}", "(", ")", "\"", "x", "::", "==", "set_variable", "assert", "perform_script", "12", "é", "\n", " ", "exit_loop_if", "get", "!", "%", "\0"]
        return "soup", rng.choice(["", " "]).join(rng.choice(words) for _ in range(rng.choice([1, 3, 10, 60, 400])))
    s = sources.random_source(rng).text(sources.Format(rng, rng.choice(["plain", "tight", "wild"])))
    for _ in range(rng.choice([1, 1, 2, 6])):
        if not s: break
        i = rng.randrange(len(s)); j = min(len(s), i + rng.choice([1, 1, 3, 10, 100]))
        y = rng.random()
        if y < 0.35: s = s[:i] + s[j:]
        elif y < 0.5: s = s[:i]
        elif y < 0.65: s = s[:j] + s[i:j] + s[j:]
        else: s = s[:i] + rng.choice(["(", ")", "[", "]", "{", "}", "\"", ",", ";", ":", "\0", "é", "end", "漢", "\n", "-", "1e999", "0x", "💥"]) + s[i:]
    return "damaged", s
