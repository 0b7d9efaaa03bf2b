from lib import common, endtoend, fmp, gen, harness

ALPHA = "abcdefghijklmnopqrstuvwxyz _"


def run(check):
    check.rule = ("values put through each encoder and back through its decoder in the real tool: all path numbers "
                  "0-1151, path numbers as the original software stores them, powers of two +-1 and random integers "
                  "below 2^32, every allowed letter and random texts under the two-byte code, random unicode texts under "
                  "the string cipher; a case is one value, distinct by itself")
    binary, hooked = common.build()
    if "codec" not in hooked: return endtoend.codecs(check, binary)
    rng = check.rng()
    texts = ["", "a", "z", " ", "_", "é", "\u0000x", "Z", "漢字", "😀", "\n", "~" * 300] + [gen.literal_text(rng, maxlen=60) for _ in range(common.quick(1500, 30000))]
    codes = list(ALPHA) + [ALPHA, ALPHA[::-1], ALPHA.upper()] + [a + b for a in ALPHA for b in ALPHA] + \
        ["".join(rng.choice(ALPHA + ALPHA.upper()) for _ in range(rng.randrange(1, 40))) for _ in range(common.quick(500, 10000))]
    ints = [0, 1, 255, 256, 65535, 65536, 2 ** 32 - 1] + [2 ** k + d for k in range(1, 32) for d in (-1, 0, 1)] + \
        [rng.randrange(2 ** rng.randrange(1, 33)) for _ in range(common.quick(1500, 30000))]
    paths = list(range(1152))
    enc = [("encrypt", t) for t in texts] + [("encode_text", t) for t in codes] + [("put_int", n) for n in ints] + [("put_path_int", n) for n in paths]
    chunks = [enc[i::8] for i in range(8)]
    first = common.parallel(lambda c: harness.drive(binary, [{"op": o, "arg": a} for o, a in c])[0], chunks)
    back = {"encrypt": "decrypt", "encode_text": "decode_bytes", "put_int": "get_int", "put_path_int": "get_path_int"}
    def second(z):
        c, vals = z
        cmds = []
        for (o, a), v in zip(c, vals):
            data = v[1] if v[0] == "value" else []
            if o == "encode_text": data = list(data) + [0, 0]      # texts are stored with a terminator
            cmds.append({"op": back[o], "arg": data})
        return harness.drive(binary, cmds)[0]
    for c, v1, v2 in zip(chunks, first, common.parallel(second, list(zip(chunks, first)))):
        for (o, a), e, d in zip(c, v1, v2):
            check.case((o, a)); check.count(o)
            want = a.lower() if o == "encode_text" else a
            if e[0] != "value": check.violation("%s(%r) ended abnormally" % (o, a), {"op": o, "arg": a}); continue
            if d[0] != "value" or d[1] != want:
                check.violation("%s(%r) = %r decodes to %r" % (o, a, e[1], d), {"op": o, "arg": a, "encoded": e[1], "decoded": d})
            if o == "put_int" and list(e[1]) != list(a.to_bytes(4, "big")):
                check.violation("%s(%r) = %r is not the four-byte form" % (o, a, e[1]), {"op": o, "arg": a})
    # two-byte path numbers of the original software
    raw = [[h, l] for h in range(256) for l in (0, 1, 127, 128, 255, rng.randrange(256)) if (h & 0x7C) != 0x7C]
    vals, _ = harness.drive(binary, [{"op": "get_path_int", "arg": x} for x in raw])
    for (h, l), v in zip(raw, vals):
        check.case(("stored", h, l)); check.count("stored_path_numbers")
        want = 128 + ((h & 0x7F) << 8) + l
        if v != ("value", want): check.violation("path number stored as %d,%d decodes to %r, it is %d" % (h, l, v, want), {"bytes": [h, l]})
    one, _ = harness.drive(binary, [{"op": "get_path_int", "arg": [x]} for x in range(128)])
    for x, v in enumerate(one):
        check.case(("one", x))
        if v != ("value", x): check.violation("path number stored as %d decodes to %r" % (x, v), {"bytes": [x]})
    return check.finish(1000)
