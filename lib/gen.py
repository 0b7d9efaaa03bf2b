"""Generators of expressions and programs of the burn language."""
from . import burn

PUNCT = ",()[]{};:&+-*/=!<>._#$%'\\|~^?@`"
WORDS = ["end test;", "true", "false", "10", "x", "define f() {", "loop {", "a::b", " ", "  ", ", ", "set_field(a, b);",
         "] }", "elif", "test", "script: [", "1e5", "inf", "//", "/* */", "!", "==", "<=", "end", "table", "}}"]
UNI = "éüßñçøåλжя漢字仮名😀🎉—“”…°²"
RARE = ["\u00a0", "\u2028", "\u0085", "\u3000", "\u2009", "\u200b", "\ufeff", "e\u0301", "\u202e", "\u200d", "\ud7ff", "\ue000", "\ufffd",
        "\U0010ffff", "\u00ad", "\u0130", "\u01c5", "\ufb01", "\u0660", "\u00bd", "\u05d0", "\u0e33"]       # spaces, marks, ends of ranges, odd letters


def number_literal(rng):
    r = rng.random()
    if r < 0.35: return str(rng.randrange(0, 13))
    if r < 0.55: return str(rng.randrange(0, 100000))
    if r < 0.7: return "%d.%d" % (rng.randrange(0, 50), rng.randrange(0, 1000))
    if r < 0.8: return rng.choice(["0.1", "0.2", "0.3", "0.5", "0.25", "1.5", "2.75", "3.14159", "0.001", "100", "1000000"])
    if r < 0.86: return rng.choice(["1.0", "01", "007", "2.50", "10.00", "0.10", ".5", "5.", "00.75"])
    if r < 0.93: return str(rng.randrange(10 ** 9, 10 ** 16))
    return "%de%d" % (rng.randrange(1, 100), rng.randrange(0, 12))


def literal_text(rng, maxlen=14, newline=True, simple=False):
    if simple or rng.random() < 0.15:
        return "".join(rng.choice("abcdefghijkxyzABC") for _ in range(rng.randrange(0, 6)))
    out = []
    for _ in range(rng.randrange(0, maxlen)):
        r = rng.random()
        if r < 0.4: out.append(rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))
        elif r < 0.65: out.append(rng.choice(PUNCT))
        elif r < 0.75: out.append(" ")
        elif r < 0.85: out.append(rng.choice(WORDS))
        elif r < 0.93: out.append(rng.choice(UNI))
        elif r < 0.955: out.append(rng.choice(RARE))
        else: out.append(rng.choice("\t\n\r\x0b\x01\x7f") if newline else " ")
    return "".join(out)


class Exprs:
    """Typed expressions over the variables and fields it is told about."""
    def __init__(self, rng, nums=(), texts=(), bools=(), fields=(), functions=True, division=True, simple_text=False,
                 now=None):
        self.rng = rng
        self.nums, self.texts, self.bools, self.fields = list(nums), list(texts), list(bools), list(fields)
        self.functions, self.division, self.simple_text = functions, division, simple_text
        self.small = False

    def literal(self):
        if self.small: return ("num", str(self.rng.randrange(0, 10)))
        return ("num", number_literal(self.rng))

    def num(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.2:
            if self.nums and r.random() < 0.45: return ("var", r.choice(self.nums))
            return self.literal()
        x = r.random()
        if x < 0.1: return ("par", self.num(depth - 1))
        if self.functions and x < 0.25: return self.num_call(depth - 1)
        ops = "++--**/" if self.division else "++--*"
        # long flat chains matter as much as deep trees
        if x < 0.5:
            e = self.num(0)
            for _ in range(r.randrange(2, 6)):
                e2 = self.num(r.choice([0, 0, 0, 1]))
                e = ("bin", r.choice(ops), e, e2)
                if r.random() < 0.25: e = ("bin", r.choice(ops), self.num(0), e)
            return e
        return ("bin", r.choice(ops), self.num(depth - 1 if r.random() < 0.7 else 0), self.num(depth - 1 if r.random() < 0.7 else 0))

    def num_call(self, depth):
        r = self.rng
        x = r.random()
        if x < 0.4: return ("call", "Abs", [self.num(depth)])
        if x < 0.8: return ("call", "Min", [self.num(depth if i == 0 else min(depth, 1)) for i in range(r.choice([1, 2, 2, 2, 3, 4, 6]))])
        return ("call", r.choice(["Acos", "Asin"]), [("num", r.choice(["0", "1", "0.5", "0.25", "0.999", "0.1"]))])

    def lit_text(self):
        return ("str", literal_text(self.rng, simple=self.simple_text))

    def text(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.25:
            if self.texts and r.random() < 0.45: return ("var", r.choice(self.texts))
            return self.lit_text()
        x = r.random()
        if x < 0.08: return ("par", self.text(depth - 1))
        if self.functions and x < 0.25:
            y = r.random()
            if y < 0.45: return ("call", "Char", [("num", str(r.choice([34, 34, 65, 97, 48, 32, 44, 40, 41, 93, 233, 0x6f22, 0x1F600, r.randrange(33, 127)])))])
            if y < 0.75: return ("call", "Min", [self.text(min(depth - 1, 1)) for _ in range(r.choice([1, 2, 2, 3, 4]))])
            return ("call", "Get", [("var", "AccountName")])
        parts = [self.operand(depth - 1) for _ in range(r.choice([2, 2, 2, 3, 4, 5]))]
        e = parts[0]
        for q in parts[1:]:
            e = ("cat", e, q) if r.random() < 0.8 else ("cat", q, e)
        return e

    def operand(self, depth):
        r = self.rng
        x = r.random()
        if x < 0.55: return self.text(depth)
        if x < 0.9: return self.num(depth)
        if self.bools and x < 0.95: return ("var", r.choice(self.bools))
        return self.boolean(min(depth, 1))

    def boolean(self, depth):
        r = self.rng
        if self.bools and r.random() < 0.15: return ("var", r.choice(self.bools))
        x = r.random()
        op = r.choice(["==", "!=", "<", "<=", ">", ">="])
        if depth > 0 and x < 0.1:
            return ("cmp", r.choice(["==", "!="]), self.boolean(depth - 1), self.boolean(depth - 1))
        if depth > 0 and x < 0.16: return ("par", self.boolean(depth - 1))
        if x < 0.6:
            a = self.num(depth)
            b = a if r.random() < 0.2 else self.num(depth)
            return ("cmp", op, a, b)
        if x < 0.9:
            a = self.text(depth)
            b = a if r.random() < 0.25 else self.text(depth)
            return ("cmp", op, a, b)
        return ("cmp", op, self.operand(depth), self.operand(depth))


NAMES = ["x", "y", "z", "i", "count", "total_1", "a1", "$v", "$$g", "name", "Result", "_tmp", "loopvar", "endx", "if_", "été",
         "the_running_total_of_all_line_items_of_the_current_invoice_before_tax", "the_running_total_of_all_line_items_of_the_current_invoice_before_taxes"]


def varname(rng, used):
    n = rng.choice(NAMES)
    return n
