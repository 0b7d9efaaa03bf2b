from lib import burn, common, exprcheck, findings, gen


def run(check):
    check.rule = ("calls of Abs, Acos, Asin, Char and Min with literal, variable and nested arguments, inside "
                  "every operator, in three spacing styles; every code point class for Char; a case is one "
                  "expression, distinct by structure and value")
    def number(ex, rng, d):
        return ex.num(d) if rng.random() < 0.7 else ("bin", "-", ex.num(0), ex.num(0))
    def call(ex, rng, d):
        r = rng.random()
        if r < 0.2: return ("call", "Abs", [number(ex, rng, d)])
        if r < 0.3:
            x = rng.randrange(0, 1001)
            a = ("num", str(x / 1000.0))
            if rng.random() < 0.4: a = ("bin", "-", ("num", "0"), a)
            return ("call", rng.choice(["Acos", "Asin"]), [a])
        if r < 0.5:
            cp = rng.choice([rng.randrange(32, 127), rng.randrange(160, 0xD7FF), rng.randrange(0xE000, 0x10FFFF), 34, 40, 41, 44, 59])
            if cp in (0x2028, 0x2029, 0x85): cp = 65
            a = ("num", str(cp))
            if rng.random() < 0.3: a = ("bin", "+", ("num", str(cp - 7)), ("num", "7"))
            return ("call", "Char", [a])
        if r < 0.75:
            n = rng.choice([1, 2, 2, 3, 4, 5, 8])
            return ("call", "Min", [call_num(ex, rng, d) for _ in range(n)])
        if r < 0.9:
            return ("call", "Min", [ex.text(rng.choice([0, 0, 1])) for _ in range(rng.choice([1, 2, 3, 4]))])
        return ("call", "Char", [("num", str(rng.randrange(32, 0x3000)))])
    def call_num(ex, rng, d):
        if d > 0 and rng.random() < 0.3: return ("call", rng.choice(["Abs", "Min"]), [number(ex, rng, d - 1)])
        return number(ex, rng, d - 1)
    def make(ex, rng):
        e = call(ex, rng, rng.choice([0, 1, 1, 2]))
        r = rng.random()
        if r < 0.4: return e
        numeric = e[1] in ("Abs", "Acos", "Asin") or (e[1] == "Min" and e[2][0][0] in ("num", "bin", "call", "var", "par"))
        if r < 0.6 and numeric:
            o = ex.num(1)
            return ("bin", rng.choice("+-*"), e, o) if rng.random() < 0.5 else ("bin", rng.choice("+-*"), o, e)
        if r < 0.8:
            o = ex.operand(1)
            return ("cat", e, o) if rng.random() < 0.5 else ("cat", o, e)
        o = ex.operand(1)
        return ("cmp", rng.choice(["==", "!=", "<", "<=", ">", ">="]), e, o)
    exprcheck.drive(check, make, common.quick(24, 400), 12, 14)
    findings.run(check, common.build()[0])
    return check.finish(200)
