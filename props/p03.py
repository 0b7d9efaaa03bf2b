from lib import common, exprcheck


def run(check):
    check.rule = ("random arithmetic expressions (flat chains and trees, literals in many written forms, variables, "
                  "redundant parentheses, three spacing styles) evaluated by the tool and by the reference evaluator; "
                  "a case is one expression, distinct by operator structure and value")
    def make(ex, rng):
        ex.functions = False
        while True:
            e = ex.num(rng.choice([1, 2, 2, 3, 3, 4]))
            if e[0] not in ("num", "var") or rng.random() < 0.05: return e
    exprcheck.drive(check, make, common.quick(24, 400), 12, 14)
    return check.finish(200)
