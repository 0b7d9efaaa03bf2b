"""What P15, P16 and P24 compare on a tree on which their observation points do not build."""
from . import common, decomp, fmp, reader, sources, specs


def relationships(check, binary, spec_of):
    """The relationships that lookups follow, as the tool reports them from the file. spec_of(rng) -> Spec"""
    check.assumptions.append("the observation points do not build on this tree: only the relationships the tool reads were compared, not lookups")
    def one(b):
        rng = check.rng("relationships", b)
        sp = spec_of(rng)
        img = fmp.write(sp.items(rng))
        m, r = decomp.decompile(binary, img)
        if m is None or r.rc: return sp, img, "decompiling ended with status %d: %s" % (r.rc, r.err.strip()[-300:])
        return sp, img, specs.diff(decomp.without_steps(sp.model()), decomp.without_steps(decomp.got_model(m)))
    for sp, img, d in common.parallel(one, range(common.quick(150, 1500))):
        check.case(sorted(map(repr, sp.rels.values()))); check.count("relationships_compared", len(sp.rels))
        if d: check.violation(d, {"file": decomp.file_note(img)})
    return check.finish(50)


def codecs(check, binary):
    """Names and numbers through the compiler and assembler into files, and from files through the decompiler."""
    check.assumptions.append("the observation points do not build on this tree: the encodings were only observed in whole files")
    def one(b):
        rng = check.rng("codecs", b)
        names = ["".join(rng.choice("abcdefghijklmnopqrstuvwxyz_") for _ in range(rng.randrange(4, 30))) + "x" for _ in range(8)]
        names = sorted(set(names) - sources.KEYWORDS)
        bad = None
        with common.Scratch() as sc:
            sc.write("s.burn", sources.Source([("table", n, []) for n in names]).text(sources.Format(rng, "plain")))
            r = common.run(binary, ["-c", "s.burn", "--no-testing"], sc, cpu=10)
            try: data = sc.read("s.fmp12")
            except OSError: return names, "s.fmp12 was not written, status %d" % r.rc
        for i, n in enumerate(names):
            if reader.code(n) not in data: bad = "the code of %r is not in the assembled file" % n
        sp = specs.random_spec(rng, big=False, scripts=False)
        m, r = decomp.decompile(binary, fmp.write(sp.items(rng)))
        if m is None or r.rc: bad = "decompiling ended with status %d" % r.rc
        else: bad = specs.diff(decomp.without_steps(sp.model()), decomp.without_steps(decomp.got_model(m))) or bad
        return names, bad
    for names, bad in common.parallel(one, range(common.quick(60, 600))):
        check.case(names); check.count("names_stored", len(names))
        if bad: check.violation(bad, {"names": names})
    return check.finish(50)
