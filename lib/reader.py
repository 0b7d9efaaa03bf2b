"""A reader of .fmp12 files that is independent of the tool: sectors, chunks and paths, checked strictly."""
S = 4096

# the two-byte character code, as FileMaker files use it for names in their catalogs
CODE = {'a': '120f', 'b': '1225', 'c': '123d', 'd': '1250', 'e': '126b', 'f': '12a3', 'g': '12b0', 'h': '12d3', 'i': '12ec',
        'j': '1305', 'k': '131e', 'l': '1330', 'm': '135f', 'n': '136d', 'o': '138e', 'p': '13b3', 'q': '13c8', 'r': '13da',
        's': '1410', 't': '1433', 'u': '1453', 'v': '147b', 'w': '148d', 'x': '1497', 'y': '149c', 'z': '14ad', ' ': '020a',
        '_': '021d'}
CODE = {k: bytes.fromhex(v) for k, v in CODE.items()}


def code(text): return b"".join(CODE[c] for c in text.lower())


class Malformed(Exception): pass


def number(b): return int.from_bytes(b, "big")


def path_number(b):
    if len(b) == 1: return b[0]
    h = b[0]
    if h & 0x7C == 0x7C: h &= 0x83                       # the marker this tool writes
    return 128 + ((h & 0x7F) << 8) + b[1]


def read(data, first=2):
    """[(path, kind, key, data)] of all chunks; raises Malformed."""
    out, path, seen, idx = [], [], set(), first
    while idx:
        if idx in seen: raise Malformed("the sector chain comes back to sector %d" % idx)
        seen.add(idx)
        st = idx * S
        if st + 20 > len(data): raise Malformed("sector %d is beyond the end of the file (%d bytes)" % (idx, len(data)))
        sec = data[st:st + S].ljust(S, b"\0")
        if not sec[20:].strip(b"\0"): o = S               # nothing in this sector
        else: o = 20
        while o < S:
            if not sec[o:].strip(b"\0"): break
            c = sec[o]
            def take(n, at):
                if at + n > S: raise Malformed("chunk %#x at %d:%d runs over the end of its sector" % (c, idx, o))
                return sec[at:at + n]
            if 1 <= c <= 5:
                n = (c == 1) + 2 * (c - 1)
                out.append((tuple(path), "ref", number(take(1, o + 1)), take(n, o + 2))); o += 2 + n
            elif c == 6:
                n = take(1, o + 2)[0]
                out.append((tuple(path), "ref", sec[o + 1], take(n, o + 3))); o += 3 + n
            elif 9 <= c <= 0x0D:
                n = (c == 9) + 2 * (c - 9)
                out.append((tuple(path), "ref", path_number(take(2, o + 1)), take(n, o + 3))); o += 3 + n
            elif c == 0x0E:
                n = take(1, o + 3)[0]
                out.append((tuple(path), "ref", path_number(sec[o + 1:o + 3]), take(n, o + 4))); o += 4 + n
            elif 0x19 <= c <= 0x1D and not (c == 0x1B and sec[o + 1] == 0):
                n = take(1, o + 1)[0]
                out.append((tuple(path), "data", None, take(n, o + 2))); o += 2 + n + (c == 0x19) + 2 * (c - 0x19)
            elif c == 0x1E:
                k = take(1, o + 1)[0]; key = take(k, o + 2); n = take(1, o + 2 + k)[0]
                out.append((tuple(path), "long", key, take(n, o + 3 + k))); o += 3 + k + n
            elif c == 0x20: path.append(take(1, o + 1)[0]); out.append((tuple(path), "push", None, b"")); o += 2
            elif c == 0x28: path.append(path_number(take(2, o + 1))); out.append((tuple(path), "push", None, b"")); o += 3
            elif c == 0x40:
                if not path: raise Malformed("a pop without a push at %d:%d" % (idx, o))
                path.pop(); o += 1
            elif c == 0x80: o += 1
            else: raise Malformed("byte %#x at %d:%d is no chunk this file should have" % (c, idx, o))
            if o > S: raise Malformed("chunk %#x runs over the end of sector %d" % (c, idx))
        idx = number(data[st + 8:st + 12])
        if idx and idx * S >= len(data): raise Malformed("sector link to %d, the file has %d bytes" % (idx, len(data)))
    if path: raise Malformed("the path %s is never left" % path)
    return out, seen
