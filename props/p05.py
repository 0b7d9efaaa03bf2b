from lib import common, exprcheck, findings, gen


def run(check):
    check.rule = ("text literals over a hostile alphabet (separators, brackets of every language level, keywords, "
                  "operators, white space, line breaks, non-ASCII) and concatenations of texts, numbers and function "
                  "results in every grouping; a case is one expression, distinct by structure and value")
    def make(ex, rng):
        ex.functions = rng.random() < 0.3
        r = rng.random()
        if r < 0.3: return ("str", gen.literal_text(rng, maxlen=rng.choice([4, 10, 30])))
        if r < 0.8: return ex.text(rng.choice([1, 2, 2, 3]))
        if r < 0.9: return ("cat", ex.num(2), ex.num(2))
        return ("cmp", rng.choice(["==", "!=", "<"]), ex.text(2), ex.text(2))
    exprcheck.drive(check, make, common.quick(24, 400), 12, 14)
    findings.run(check, common.build()[0])
    return check.finish(200)
