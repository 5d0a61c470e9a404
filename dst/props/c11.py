"""C11: operands and callbacks are evaluated exactly once and in order."""

import json
import random
import re

from .. import model as M
from .. import session as S
from .. import util
from .. import wild as W
from ..mgen import MG
from ..runner import Prop
from ._sess import choose_step

# values by truthiness
TRUE = ["1", "2.5", '"a"', '"ab"', "[1]", "[0]", "[[];()]", "(1,3)", "`a`",
        "-1", '"0x"', "{a}", "{O\"~\";a}", "_"]
FALSE = ["0", "()", '""', "[]", "0.0", '"00"', "``"]
VALUES = ["0", "1", "2", "3", "-1", "2.5", '"abc"', '"a b"', '""', "()",
          "[]", "[1;2;3]", '["b";"a"]', "[[1;2];[3]]", "(,3)", "(1,4)",
          "`a`", "`(a)|b`", "{a}", "{O\"~\";a}", "_", "x", "l", "y", "$u",
          "12"]
SMALL = ["0", "1", "2", "3", "-1", "()", "[]", '""', '"ab"', "[1;2]",
         "(,2)", "`a`", "{a}", "x"]
LNAMES = ["x", "l", "y", "i", "$u"]
UN = [o for o in W.UN if o not in ("V", "O", "P", "YO", "YP")]
BIN = [o for o in W.BIN if o not in ("V", "|", "&", ":", "::")]
CHAINS = ["<", ">", "=", "<=", ">=", "!=", "LT", "GT", "Q", "LE", "GE", "NE",
          "#=", "#<", "#>", "~="]
META = ["+", "-", "*", ".", "AL", "AE", "PE", "<", "=", "J", "BA", "RM", "Z",
        "WV", "@", ">=", "Q", "AD", "|<", "%", "/", "^", "#=", "|", "&"]
COMPOUND = ["+", "-", "*", "/", "%", ".", "AE", "AL", "PE", "RM", "@", "^",
            "J", "X", "<", "//", "H", "S", "BA", "Z", "|<", "R", "@?", "=",
            "M", "FI", "SK", "PU", "PO", "DQ", "RV", "U", "#", "SN"]
TOKEN = re.compile(r"<\d+>|\{[^{}]*\}")

INIT = ('(x:"q");(y:[4;5]);(l:[1;[2;3];"s"]);(i:2);($u:7)')


class OpGen:
    """Expressions over all operators whose operands leave marks, and the
    marks to expect."""

    def __init__(self, rng):
        self.rng = rng
        self.k = 0
        self.w = 0

    def pick(self, seq):
        return seq[int(self.rng.random() * len(seq))]

    def leaf(self, values=None, truth=None):
        if truth is not None:
            values = TRUE if truth else FALSE
        self.k += 1
        r = self.rng.random()
        v = self.pick(values or VALUES)
        if r < .5:
            f = "if"
        elif r < .62 and v not in ("{a}", "_"):
            f = "call"
        elif r < .72:
            f = "read"
        elif r < .8:
            f = "draw"
        elif r < .9:
            f = "and"
        else:
            f = "or"
        return ["leaf", self.k, v, f, truth]

    def expr(self, d, truth=None):
        """truth: None = whatever, True/False: must be known to be so."""
        r = self.rng.random()
        if truth is not None:
            if d <= 0 or r < .5:
                return self.leaf(truth=truth)
            if r < .62:
                return ["not", "!",
                        self.expr(d - 1, not truth)]
            return self.lazy(d, truth)
        if d <= 0 or r < .12:
            return self.leaf()
        if r < .28:
            return self.lazy(d, None)
        if r < .38:
            return ["op1", self.pick(UN), self.expr(d - 1)]
        if r < .4:
            return ["op1", self.pick(W.UN_RISKY),
                    self.leaf(SMALL)]
        if r < .6:
            return ["op2", self.pick(BIN), self.expr(d - 1),
                    self.expr(d - 1)]
        if r < .63:
            return ["op2", self.pick(W.BIN_RISKY), self.leaf(SMALL),
                    self.leaf(SMALL)]
        if r < .7:
            return ["op3", self.pick(["\\?", "RA", "TR", "R", "MR", "MZ"]),
                    self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)]
        if r < .76:
            n = 2 + int(self.rng.random() * 3)
            return ["chain", [self.pick(CHAINS) for _ in range(n - 1)],
                    [self.expr(d - 1) for _ in range(n)]]
        if r < .82:
            return ["ls", [self.expr(d - 1) for _ in range(
                int(self.rng.random() * 4))]]
        if r < .87:
            return ["call", self.leaf(["{a}", "_", "{b}", "[1;2]", '"ab"',
                                       "l", "{[a;b;c]}", "x", "1"]),
                    [self.expr(d - 1) for _ in range(
                        1 + int(self.rng.random() * 3))]]
        if r < .91:
            return ["meta", self.pick(["$", "\\$"]), self.pick(META),
                    self.expr(d - 1)]
        if r < .93:
            return ["op1", self.pick([u for u in UN if u[-1].isalnum()
                                      and u not in ("PO", "DQ", "U", "D",
                                                    "Y", "!")]) + "*",
                    self.expr(d - 1)]
        if r < .97:
            return ["cas", self.pick(COMPOUND), self.lval(d),
                    self.expr(d - 1)]
        return self.target(d)

    def bare(self):
        """Special variables are read when an operator takes their value:
        after the other operands have been evaluated, so only with each
        other, and as a statement."""
        n = self.pick([1, 2, 2, 2, 2, 3])
        xs = [["bare", self.pick("qr")] for _ in range(n)]
        if self.rng.random() < .2:
            return ["ls", xs]
        if n == 1:
            return ["op1", self.pick(UN), xs[0]]
        if n == 2:
            if self.rng.random() < .15:
                return ["op2", "::", [xs[0][0], "q"], xs[1]]
            return ["op2", self.pick(BIN), *xs]
        if self.rng.random() < .5:
            return ["chain", [self.pick(CHAINS), self.pick(CHAINS)], xs]
        return ["op3", self.pick(["\\?", "RA", "TR", "R"]), *xs]

    def lval(self, d):
        v = ["name", self.pick(LNAMES)]
        if self.rng.random() < .3:
            v = ["leafv", self.mark(), self.pick(LNAMES)]
        for _ in range(self.pick([0, 1, 1, 2])):
            v = ["op2", "@", v, self.leaf(["0", "1", "-1", "2", "(0,2)",
                                           "9", "()", "[0;1]"])]
        return v

    def mark(self):
        self.k += 1
        return self.k

    def target(self, d):
        """Operators that take variables."""
        r = self.rng.random()
        if r < .3:
            return ["op2", self.pick([":", ":", "PU", "PB", "PK"]),
                    self.lval(d), self.expr(d - 1)]
        if r < .5:
            return ["op1", self.pick(["PO", "DQ", "U", "D", "++", "--"]),
                    self.lval(d)]
        if r < .6:
            return ["op2", "::", self.lval(d), self.lval(d)]
        if r < .7:
            return ["op2", ":", ["ls", [self.lval(d), self.lval(d)]],
                    self.expr(d - 1)]
        if r < .8:
            return ["op1", self.pick(["Y", "YO", "YP", "O", "P"]),
                    self.expr(d - 1)]
        if r < .9:
            return ["op2", self.pick(["@", "@<", "@>", "H", "S"]),
                    self.lval(d), self.expr(d - 1)]
        return ["cas", self.pick(["|", "&"]),
                ["leafv", self.mark(), "$" + self.pick(["t", "f"])],
                self.expr(d - 1)]

    def lazy(self, d, truth):
        r = self.rng.random()
        t = self.rng.random() < .5
        e = self.expr
        if r < .4:
            other = e(d - 1)
            c = e(d - 1, t)
            this = e(d - 1, truth)
            return ["if", t, c, this if t else other, other if t else this]
        if r < .7:
            if truth is None:
                return ["and", t, e(d - 1, t), e(d - 1)]
            if truth:
                return ["and", True, e(d - 1, True), e(d - 1, True)]
            return ["and", t, e(d - 1, t), e(d - 1, False) if t
                    else e(d - 1)]
        if truth is None:
            return ["or", t, e(d - 1, t), e(d - 1)]
        if not truth:
            return ["or", False, e(d - 1, False), e(d - 1, False)]
        return ["or", t, e(d - 1, t), e(d - 1, True) if not t else e(d - 1)]

    def stmts(self, d, n=None):
        return [self.stmt(d) for _ in range(
            1 + int(self.rng.random() * 2) if n is None else n)]

    def stmt(self, d):
        r = self.rng.random()
        if r < .05:
            return self.bare()
        if d <= 0 or r < .6:
            return self.expr(max(d, 1))
        self.w += 1
        if r < .72:
            t = self.rng.random() < .5
            return ["IF", t, self.expr(d - 1, t), self.stmts(d - 1),
                    self.stmts(d - 1) if self.rng.random() < .7 else None]
        if r < .79:
            n = self.pick([0, 1, 2, 3])
            v = self.pick({0: ["0", "()", "[]", '""'], 1: ["1", "[5]", "1.9"],
                           2: ["2", "[0;0]", "(,2)"], 3: ["3", "(1,4)"]}[n])
            return ["LOOP", n, self.leaf([v]), self.stmts(d - 1)]
        if r < .87:
            n = self.pick([0, 1, 2, 3])
            v = self.pick({0: ["[]", '""', "(,0)"], 1: ['"k"', "[[1]]"],
                           2: ['"kl"', "(3,5)", "[1;2]"],
                           3: ["(,3)", '"abc"', "[1;[];3]"]}[n])
            return ["FOR", n, self.pick(["$i", "[$i;$j]"]) if n == 0 else
                    "$i", self.leaf([v]), self.stmts(d - 1)]
        if r < .95:
            return [self.pick(["WHILE", "TILL"]), self.pick([0, 1, 2]),
                    self.w, self.mark(), self.stmts(d - 1),
                    self.pick(TRUE), self.pick(FALSE)]
        n, a, b = self.pick([(0, "`z`", '"ab"'), (1, "`b`", '"abc"'),
                             (2, '"a"', '"aba"'), (3, '"abc"', "`.`"),
                             (2, "`(a)|b`", '"ab"')])
        return ["LR", n, self.leaf([a]), self.leaf([b]), self.stmts(d - 1)]


def src(e):
    k = e[0]
    if k == "leaf":
        _, n, v, f, _ = e
        m = f'(O"<{n}>")'
        if f == "if":
            return f"({m}?({v})({v}))"
        if f == "call":
            return f'({{O"<{n}>";({v})}}0)'
        if f == "read":
            return f"(q?({v})({v}))"
        if f == "draw":
            return f"(r?({v})({v}))"
        if f == "and":
            return f"({m}&({v}))"
        return f"((0X{m})|({v}))"
    if k == "leafv":
        return f'((O"<{e[1]}>")?{e[2]} {e[2]})'
    if k == "name" or k == "bare":
        return e[1]
    if k == "op1" or k == "not":
        return f"({e[1]}({src(e[2])}))"
    if k == "op2":
        return f"(({src(e[2])}){e[1]}({src(e[3])}))"
    if k == "op3":
        return f"(({src(e[2])}){e[1]}({src(e[3])})({src(e[4])}))"
    if k == "chain":
        out = src(e[2][0])
        for op, x in zip(e[1], e[2][1:]):
            out += op + "(" + src(x) + ")"
        return f"(({src(e[2][0])})" + out[len(src(e[2][0])):] + ")"
    if k == "ls":
        return "[" + ";".join(src(x) for x in e[1]) + "]"
    if k == "call":
        return "((" + src(e[1]) + ")" + "".join(
            "(" + src(x) + ")" for x in e[2]) + ")"
    if k == "meta":
        return f"({e[1]}{e[2]}({src(e[3])}))"
    if k == "cas":
        if e[1] in ("PO", "DQ", "RV", "U", "#", "SN"):
            return f"({e[1]}:({src(e[2])}))"
        if e[1] == "R":
            return f"(({src(e[2])})R:({src(e[3])})0)"
        if e[1] in ("|", "&"):
            return (f"[({e[2][2]}:{int(e[2][2] == '$t')});"
                    f"(({src(e[2])}){e[1]}:({src(e[3])}))]")
        return f"(({src(e[2])}){e[1]}:({src(e[3])}))"
    if k == "if":
        return f"(({src(e[2])})?({src(e[3])})({src(e[4])}))"
    if k == "and":
        return f"(({src(e[2])})&({src(e[3])}))"
    if k == "or":
        return f"(({src(e[2])})|({src(e[3])}))"
    if k == "IF":
        return f"I({src(e[2])}){{{body(e[3])}}}" + (
            "" if e[4] is None else f"EL{{{body(e[4])}}}")
    if k == "LOOP":
        return f"L({src(e[2])}){{{body(e[3])}}}"
    if k == "FOR":
        return f"F {e[2]}({src(e[3])}){{{body(e[4])}}}"
    if k in ("WHILE", "TILL"):
        c = f"$c{e[2]}"
        a, b = e[5:7] if k == "WHILE" else (e[6], e[5])
        return (f'({c}:-1);{k[0]}((O"<{e[3]}>")?((({c}+:1)<{e[1]})?'
                f"({a})({b}))0){{{body(e[4])}}}")
    if k == "LR":
        return f"LR({src(e[2])})({src(e[3])}){{{body(e[4])}}}"
    raise ValueError(k)


def body(stmts):
    return ";".join(src(s) for s in stmts)


def marks(e, out):
    """Append the marks of e in the language's order."""
    k = e[0]
    if k == "leaf":
        out.append({"read": "r", "draw": "d"}.get(e[3], f"<{e[1]}>"))
    elif k == "leafv":
        out.append(f"<{e[1]}>")
    elif k == "name":
        pass
    elif k == "bare":
        out.append({"q": "r", "r": "d"}[e[1]])
    elif k in ("op1", "not"):
        marks(e[2], out)
    elif k in ("op2", "op3"):
        for x in e[2:]:
            marks(x, out)
    elif k == "chain":
        for x in e[2]:
            marks(x, out)
    elif k == "ls":
        for x in e[1]:
            marks(x, out)
    elif k == "call":
        marks(e[1], out)
        for x in e[2]:
            marks(x, out)
    elif k == "meta":
        marks(e[3], out)
    elif k == "cas":
        marks(e[2], out)
        if e[1] in ("|", "&"):
            if (e[2][2] == "$t") == (e[1] == "&"):
                marks(e[3], out)
        elif e[1] not in ("PO", "DQ", "RV", "U", "#", "SN"):
            marks(e[3], out)
    elif k == "if":
        marks(e[2], out)
        marks(e[3] if e[1] else e[4], out)
    elif k == "and":
        marks(e[2], out)
        if e[1]:
            marks(e[3], out)
    elif k == "or":
        marks(e[2], out)
        if not e[1]:
            marks(e[3], out)
    elif k == "IF":
        marks(e[2], out)
        for s in (e[3] if e[1] else e[4] or []):
            marks(s, out)
    elif k == "LOOP":
        marks(e[2], out)
        for _ in range(e[1]):
            for s in e[3]:
                marks(s, out)
    elif k == "FOR":
        marks(e[3], out)
        for _ in range(e[1]):
            for s in e[4]:
                marks(s, out)
    elif k in ("WHILE", "TILL"):
        out.append(f"<{e[3]}>")
        for _ in range(e[1]):
            for s in e[4]:
                marks(s, out)
            out.append(f"<{e[3]}>")
    elif k == "LR":
        marks(e[2], out)
        marks(e[3], out)
        for _ in range(e[1]):
            for s in e[4]:
                marks(s, out)
    return out


# ------------------------------------------------------------- callbacks

def rep(v):
    if isinstance(v, list):
        return "[" + ";".join(rep(x) for x in v) + "]"
    if v is None:
        return "()"
    if isinstance(v, int) or v.isdigit():
        return str(v)
    return '"' + v + '"'


def lit(v):
    return rep(v)


class CallGen:
    """Higher-order operators; the calls they must make, in order."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def pick(self, seq):
        return seq[int(self.rng.random() * len(seq))]

    def items(self, kinds=("list", "str", "range", "nested")):
        """(source, list of items)"""
        k = self.pick(kinds)
        if k == "str":
            s = self.pick(["", "a", "abc", "abab", "cab", "102"])
            return '"' + s + '"', list(s)
        if k == "range":
            lo = self.pick([0, 0, 1, 5])
            n = self.pick([0, 1, 2, 3, 5])
            if lo == 0 and self.rng.random() < .5:
                return f"(,{n})", list(range(n))
            return f"({lo},{lo + n})", list(range(lo, lo + n))
        n = self.pick([0, 1, 2, 3, 4])
        if k == "nested":
            v = [[self.atom() for _ in range(self.pick([0, 1, 2, 3]))]
                 for _ in range(n)]
        else:
            v = [self.atom() for _ in range(n)]
        return lit(v), v

    def atom(self):
        return self.pick([0, 1, 2, 3, 7, "a", "b", "ab", 1, "", "x"])

    def fn(self, results=None, plain=False):
        """(source, tag): a function that records its arguments."""
        self.n += 1
        t = f"{self.n}:"
        res = self.pick(results or ["a", "1", "0", "()", '"s"', "(#g)", "g",
                                    "b", "(a.b)", "[a;a]", "[]", "(0-#g)",
                                    "(($n+:1)%2)", "`p`", "{a}", "(,2)"])
        mk = f'O"{{{t}".(RP g)."}}"'
        x = self.rng.random()
        # the "}" of the marker must not end the text: build it from parts
        mk = f'O(C123).("{t}".(RP g)).(C125)'
        if x < .7:
            return f"{{{mk};{res}}}", t
        if x < .85 or plain:
            return f"{{({mk})?({res})({res})}}", t
        return f"({{{mk};{res}}}{self.pick(['=1', '.1', ' AE 1'])})", t

    def case(self):
        """(source, expected calls)"""
        x = self.rng.random()
        p = self.pick
        f, t = self.fn()

        def ev(args):
            return "{" + t + rep(args) + "}"

        def two(op, f, s):
            y = self.rng.random()
            if y < .25:
                return f"(({s}){op}({f}))"
            if y < .35:
                return p(["(${op}[{f};{s}])", "(\\${op}[{f};{s}])",
                          "(($m:({f}));($m{op}:({s})))",
                          "(($m:({s}));($m{op}:({f})))",
                          "({{({f}){op}b}}(0)({s}))",
                          "({{a{op}b}}({s})({f}))"]).format(
                              op=op, f=f, s=s)
            return f"(({f}){op}({s}))"

        if x < .3:
            op = p(["M", "MJ", "MF", "FI", "FN", "FJ", "SK", "DK", "MS"])
            if op == "MS":
                f, t = self.fn(["1", "a", "(#g)", '"s"', "[1;2]"])
            elif op in ("SK", "DK"):
                f, t = self.fn(["a", "1", "(0-#g)", "(-a)", "(#a)", "()",
                                "(($n+:1)%2)", "a", "{a}", "(,2)"])
            s, it = self.items()
            return two(op, f, s), [ev([i]) for i in it]
        if x < .38:
            op = p(["ME", "FE", "FX"])
            s, it = self.items()
            return two(op, f, s), [ev([k, i]) for k, i in enumerate(it)]
        if x < .44:
            s, it = self.items(("list", "str", "range"))
            return two("MP", f, s), [ev([a, b])
                                     for a, b in zip(it, it[1:])]
        if x < .52:
            op = p(["MU", "FU"])
            s, it = self.items(("nested", "list", "str"))
            return two(op, f, s), [ev(self.unpack(i)) for i in it]
        if x < .58:
            s, it = self.items(("nested", "list", "str"))
            return two("MM", f, s), [ev([j]) for i in it
                                     for j in self.unpack(i)]
        if x < .63:
            if self.rng.random() < .5:
                n = p([0, 1, 2, 3])
                s, r, c = str(n), n, n
            else:
                r, c = p([0, 1, 2]), p([1, 2, 3])
                s = f"[{r};{c}]"
            return f"(({f})MC({s}))", [ev([i, j]) for i in range(r)
                                       for j in range(c)]
        if x < .68:
            s1, i1 = self.items()
            s2, i2 = self.items()
            return f"(({f})MZ({s1})({s2}))", [ev([a, b])
                                              for a, b in zip(i1, i2)]
        if x < .78:
            pat = p(["a", "[ab]", "(a)(b)?", ".", r"\w", "b|(c)", "z",
                     "x*"])
            s = p(["", "abab", "cab", "abc", "bbb"])
            ps = p([f"`{pat}`", f'"{pat}"']) if pat not in (".", "x*") \
                and pat.isalnum() else f"`{pat}`"
            want = []
            for m in re.finditer(pat, s):
                want.append(ev([m.group()] + list(m.groups())))
            if self.rng.random() < .5:
                order = p([f"(({f})MR({ps})(\"{s}\"))",
                           f"((\"{s}\")MR({ps})({f}))",
                           f"(({ps})MR({f})(\"{s}\"))"])
                return order, want
            if self.rng.random() < .6:
                return f"((\"{s}\")R({ps})({f}))", want
            s2 = p(["", "abc", "b"])
            for m in re.finditer(pat, s2):
                want.append(ev([m.group()] + list(m.groups())))
            return f"([\"{s}\";\"{s2}\"]R({ps})({f}))", want
        if x < .83:
            f2, t2 = self.fn()
            s, it = self.items(("list", "str", "range"))
            return f"([{f};{f2}]M({s}))", [ev([i]) for i in it] + [
                "{" + t2 + rep([i]) + "}" for i in it]
        if x < .88:
            a = [self.atom() for _ in range(p([1, 2, 3]))]
            return p([f"(({f}){''.join('(' + lit(i) + ')' for i in a)})",
                      f"(({f})V({lit(a)}))", f"(({lit(a)})V({f}))"]), \
                [ev(a)]
        if x < .93:
            # two functions joined by an operator: both run, in order
            f2, t2 = self.fn()
            s, it = self.items(("list", "range"))
            op = p(["+", ".", "AE", "AL", "=", "J", "\\&", "\\|", "<", "Z"])
            if not (f.startswith("{O") and f2.startswith("{O")):
                return f"(({f})M({s}))", [ev([i]) for i in it]
            want = []
            for i in it:
                want += [ev([i]), "{" + t2 + rep([i]) + "}"]
            return f"((({f}){op}({f2}))M({s}))", want
        if x < .97:
            s, it = self.items(("list", "str", "range"))
            # function called for each item and again for each result
            f2, t2 = self.fn(["a", "1", "(#g)"])
            f, t = self.fn(["a"], True)
            want = [ev([i]) for i in it]
            want += ["{" + t2 + rep([i]) + "}" for i in it]
            return f"(({f2})M(({f})M({s})))", want
        n = p([0, 1, 3])
        return (f"V*[{';'.join([chr(34) + 'O(C123).9.(C125)' + chr(34)] * n)}]"
                if n else "V*[]"), ["{9}"] * n

    def unpack(self, i):
        return i if isinstance(i, list) else list(str(i))


class C11(Prop):
    id = "C11"
    level = "fault_enumeration"
    quick_cases = 4000
    rule = ("case = (a) expressions and commands over all operators whose "
            "operands leave marks (output, input, draws), with the marks in "
            "the language's order as oracle; (b) calls made by every "
            "higher-order operator with the arguments of each call as "
            "oracle; (c) programs of the modelled sub-language dense with "
            "effects against the model; each also cut short at random "
            "steps and with a bounded stack; nontrivial = distinct program "
            "whose marks were compared")
    assumptions = ("Ctrl-C and failed allocations strike at source-line "
                   "boundaries of the repository's functions",)
    max_steps = 30000

    def gen(self, rng, i):
        x = rng.random()
        case = {"entropy": rng.randrange(1000),
                "picks": [[rng.choice(["KeyboardInterrupt",
                                       "KeyboardInterrupt", "MemoryError"]),
                           rng.random()] for _ in range(2)],
                "depth": rng.choice([0, 0, 0, rng.randint(60, 400)])}
        if x < .5:
            g = OpGen(rng)
            d = rng.choice([1, 1, 2, 2, 3])
            case["mode"] = "operands"
            case["prog"] = g.stmts(d, rng.choice([1, 1, 2, 3]))
        elif x < .8:
            g = CallGen(rng)
            case["mode"] = "calls"
            case["prog"] = [list(g.case()) for _ in range(
                rng.choice([1, 2, 3]))]
        else:
            case["mode"] = "model"
            case["args"] = rng.choice([[], ["ab"], ["3", "x y"]])
            case["prog"] = self.model_program(rng, case["args"])
        return json.loads(json.dumps(case))

    def model_program(self, rng, args):
        mg = MG(rng, rng.choice(["mix", "calls"]), markers=.7, reads=.3)
        best = None
        for _ in range(6):
            st = [mg.stmt(3) for _ in range(rng.randint(2, 4))]
            st = json.loads(json.dumps(st))
            try:
                with M.with_stack():
                    ev, out = S.Predict(lines=self.lines()).program(st, args)
                s = S.source(st)
                if "\n" in s or len(s) > 3000 or out == "deep":
                    continue
                best = st
                if len(ev) > 3:
                    break
            except M.Unsupported:
                continue
        return best

    def lines(self):
        return [f"r{k}" for k in range(40)]

    def source(self, case):
        if case["mode"] == "operands":
            return (INIT + ';($t:1);($f:0);'
                    + body(case["prog"]) + ";()")
        if case["mode"] == "calls":
            return "($n:0);" + ";".join(c[0] for c in case["prog"]) + ";()"
        return S.source(case["prog"])

    def spec(self, case):
        return {"argv": ["-e", self.source(case), "--"]
                + case.get("args", []),
                "stdin": util.lines_to_items(self.lines()),
                "max_steps": self.max_steps, "depth": 950}

    def tokens(self, eff, mode):
        out = []
        for e in eff:
            if e[0] == "print":
                for t in TOKEN.findall(e[1]):
                    if (t[0] == "<") == (mode == "operands"):
                        out.append(t)
            elif mode == "operands":
                if e[0] == "read":
                    out.append("r")
                elif e[0] == "draw":
                    out.append("d")
        return out

    def want(self, case):
        if case["mode"] == "operands":
            out = []
            for s in case["prog"]:
                marks(s, out)
            return out
        return [t for c in case["prog"] for t in c[1]]

    def check(self, case, ctx):
        if case["prog"] is None:
            ctx.skipped += 1
            return None
        base = ctx.one(self.spec(case), case["entropy"], trace=True)
        if base.status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        eff = base.effects()
        info = {"src": self.source(case), "status": base.status,
                "err": base.errtext()[-300:]}
        if case["mode"] == "model":
            v = self.judge_model(case, base, info)
            if v == "skip":
                ctx.skipped += 1
                return None
        else:
            v = self.judge(case, base, eff, info)
        if v:
            v["frozen"] = dict(case, picks=[], depth=0)
            return v
        ctx.nontriv(self.source(case))
        ctx.probe("programs of kind " + case["mode"])
        steps = base.effect_steps()
        if len(steps) < 2 or steps[0] == steps[-1]:
            return None
        for kind, x in case["picks"]:
            at = x if isinstance(x, int) else \
                choose_step(base, steps[0], steps[-1], x)
            r = ctx.one(dict(self.spec(case), inject=[[at, kind]]),
                        case["entropy"])
            if not r.fired:
                continue
            why = util.effects_prefix(r.effects(), eff)
            if why or r.status == 0:
                return {"class": "cut:" + kind, "frozen": dict(
                    case, picks=[[kind, at]], depth=0), "detail": [
                        why, info, r.fired, r.summary()]}
        if case["depth"]:
            r = ctx.one(dict(self.spec(case), depth=case["depth"]),
                        case["entropy"])
            why = util.effects_prefix(r.effects(), eff)
            if why or (r.status == 0 and base.status == 0
                       and r.effects() != eff):
                return {"class": "cut:stack", "frozen": dict(case, picks=[]),
                        "detail": [why, info, r.summary()]}
        return None

    def judge(self, case, base, eff, info):
        got = self.tokens(eff, case["mode"])
        want = self.want(case)
        if got == want:
            return None
        if base.status != 0 and got == want[:len(got)]:
            return None         # it failed on the way
        k = 0
        while k < min(len(got), len(want)) and got[k] == want[k]:
            k += 1
        return {"class": case["mode"], "detail": [
            f"mark {k}: {got[k:k + 4]} instead of {want[k:k + 4]}", info]}

    def judge_model(self, case, base, info):
        try:
            with M.with_stack():
                ev, outcome = S.Predict(lines=self.lines()).program(
                    case["prog"], case["args"])
        except M.Unsupported:
            return "skip"
        if outcome == "deep":
            return "skip"
        want = []
        for e in ev:
            if e[0] == "out" and e[1]:
                if want and want[-1][0] == "print":
                    want[-1] = ("print", want[-1][1] + e[1])
                else:
                    want.append(("print", e[1]))
            elif e[0] == "read":
                want.append(("read", e[1]))
        got = [("read", e[1].rstrip("\n") if e[1] else None)
               if e[0] == "read" else tuple(e) for e in base.effects()]
        if got != want or (base.status == 0) != (outcome == "ok"):
            return {"class": "model", "detail": [
                util.short(got, 600), util.short(want, 600), outcome, info]}
        return None

    # -- shrinking
    def shrink(self, case):
        if case["picks"]:
            for p in case["picks"]:
                if len(case["picks"]) > 1:
                    yield dict(case, picks=[p])
            yield dict(case, picks=[])
        if case["depth"]:
            yield dict(case, depth=0)
        for p in util.shrink_list(case["prog"]):
            if p:
                yield dict(case, prog=p)
        if case["mode"] == "model":
            from ._sess import shrink_stmts
            for p in shrink_stmts(case["prog"]):
                yield dict(case, prog=p)
        elif case["mode"] == "operands":
            for i, s in enumerate(case["prog"]):
                for t in self.simpler(s):
                    yield dict(case, prog=case["prog"][:i] + [t]
                               + case["prog"][i + 1:])

    def simpler(self, e):
        """Variants of a node: a sub-node instead, or simplified parts.
        Parts whose truth matters are replaced by leaves of that truth."""
        for j, c in enumerate(e):
            if isinstance(c, list) and c and isinstance(c[0], str):
                if e[0].islower() and e[0] not in ("leaf",) \
                        and c[0].islower() and c[0] not in ("name", "leafv"):
                    yield c
                if c[0] in ("name", "leafv", "leaf"):
                    continue
                if not (e[0] in ("if", "and", "or", "not", "IF")):
                    for t in self.simpler(c):
                        yield e[:j] + [t] + e[j + 1:]
            elif isinstance(c, list) and c and isinstance(c[0], list):
                for k in range(len(c)):
                    if e[0] in ("ls", "IF", "LOOP", "FOR", "WHILE", "TILL",
                                "LR") and len(c) > 1:
                        yield e[:j] + [c[:k] + c[k + 1:]] + e[j + 1:]
                    for t in self.simpler(c[k]):
                        yield e[:j] + [c[:k] + [t] + c[k + 1:]] + e[j + 1:]


PROP = C11()
