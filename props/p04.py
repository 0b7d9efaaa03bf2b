from lib import burn, common, exprcheck, findings

EDGE_N = ["0", "1", "2", "9", "10", "11", "99", "100", "1.0", "1.5", "01", "0.1", "0.10", "1e1", "5", "5.", ".5", "1000000", "3 - 5"]
EDGE_T = ["", "1", "10", "9", "a", "A", "b", "ab", "abc", "a b", " a", "a ", "Z", "true", "false", "é", "漢", "😀", "1.0", "inf", "<", "==", "a!", "a#", "a,", "a~", "(a"]


def run(check):
    check.rule = ("pairs of operands of every kind (numbers in several written forms, texts, comparison outcomes, "
                  "function results, nested expressions) under all six operators, in dialogs, variables, conditions "
                  "and nested comparisons; a case is one expression, distinct by structure and value")
    def operand(ex, rng, depth=1):
        r = rng.random()
        if r < 0.3:
            t = rng.choice(EDGE_N)
            if t == "3 - 5": return ("bin", "-", ("num", "3"), ("num", str(rng.randrange(3, 9))))
            return ("num", t)
        if r < 0.6: return ("str", rng.choice(EDGE_T))
        if r < 0.7: return ("call", "Char", [("num", str(rng.choice([34, 49, 65, 97, 233])))])
        if r < 0.8: return ex.num(1)
        if r < 0.9: return ex.text(1)
        return ex.boolean(1)
    def make(ex, rng):
        r = rng.random()
        if r < 0.06: return ex.num(1)
        if r < 0.12: return ex.text(1)
        op = rng.choice(["==", "!=", "<", "<=", ">", ">="])
        if r < 0.6:
            a = operand(ex, rng)
            b = operand(ex, rng) if rng.random() < 0.8 else a
            e = ("cmp", op, a, b)
            if rng.random() < 0.1: e = ("cmp", rng.choice(["==", "!="]), e, operand(ex, rng))
            return e
        return ex.boolean(2)
    exprcheck.drive(check, make, common.quick(24, 400), 12, 18)
    findings.run(check, common.build()[0])
    return check.finish(200)
