from lib import common, findings, progcheck, progs

W = {"probe": 5, "if": 5, "loop": 4, "exitif": 2, "set": 2, "call": 1, "assert_true": 0.3}


def run(check):
    check.rule = ("random tests of if/elif/else blocks, loops with one to several exits and sub-scripts, nested up to "
                  "five deep, or in chains of up to 33 blocks, in several layouts of the source; every dialog names the place it stands at, and the "
                  "sequence of dialogs is compared with the reference interpreter; a case is one test, distinct by the "
                  "sequence of lines it prints")
    binary, hooked = common.build()
    findings.run(check, binary)
    deep = lambda rng: rng.choice([2, 3, 3, 4, 5])
    def body(rng, bt):
        p = progs.Progs(rng, W, None, list(bt.scripts))
        if rng.random() < 0.06: return p.deep(rng.choice([7, 9, 12, 17, 20, 33]), {})
        return p.body(rng.randrange(2, 7), deep(rng), {})
    progcheck.run(check,
                  lambda rng, b: progcheck.source_batch(rng, binary, hooked, W, rng.randrange(0, 4), depth=3, size=(1, 6), block=rng.choice(["plain", "wild"])),
                  body,
                  common.quick(20, 1200), 16, block="any", min_lines=2)
    return check.finish(150)
