"""Generator of Pip programs over all operators.

Emits fully parenthesised source so that neither operator precedence nor
token adjacency matters.  Operators whose result size or running time can
explode only get small literal operands.  Programs may still be long-running:
callers rely on the simulator's step budget.
"""

UN_SAFE = ["!", r"\!", "RP", "ST", "MX", "MN", "SN", "SS", "DN", "DS", "UQ",
           "EN", "FL", "FA", "PO", "DQ", "^", "<>", "CH", "J", "RV", "R",
           "RF", "PZ", "QR", "QP", "Z", "ZD", "ZJ", "H", "S", "WV", "UW",
           "TD", "FD", ".", "||", "|>", "<|", "TM", "LC", "UC", "SC", "TC",
           "IC", "BN", "SI", "CO", "AT", "RD", "DG", "BL", "|<", ">|", "RZ",
           "RN", "+", "-", "/", "%", "HV", "HU", "DB", "LN", "LB", "LD",
           "U", "D", "#", "A", "AB", "SG", "FB", "@", "@<", "@>", "++", "--",
           "RT", "SQ", "X", "K", "FI", "FN", "FU", "FX", "FJ", "N", "M",
           "TB", "SH"]
BIN_SAFE = ["==", "<", ">", "=", "<=", ">=", "!=", "LT", "GT", "Q", "LE",
            "GE", "NE", "#=", "#<", "#>", "~=", "N", "NI", "AE", "AL", "PE",
            "PU", "PB", "PK", "^", "^@", "@?", "@*", "<>", "CH", "J", "JW",
            "Z", "ZD", "ZJ", "H", "S", "WV", "UW", "FD", "WR", "~", ".",
            "RM", "DC", "||", "|>", "<|", "TM", "BA", "BO", "BX", "AT", "CM",
            "|<", ">|", "RZ", "RN", "+", "-", "AD", "*", "/", "%", "//", "@",
            "@<", "@>", "FB", "::"]
FOLDABLE = ["+", "-", "*", ".", "AL", "AE", "PE", "<", "=", "J", "BA", "BO",
            "CM", "~", "RM", "Z", "WV", "@", ">=", "Q", "AD", "|<"]
SORTS = ["SN", "SS", "DN", "DS"]
LOCALS = "abcde"
GLOBALS = ["h", "i", "k", "l", "m", "o", "p", "s", "t", "u", "v", "x", "y",
           "z", "$v", "$w1", "BB", "ZZ"]
STRS = ["", "a", "ab", "abc", "0", "1", "12", "-3", "cab", "x y", "b,a,b",
        "a1b22", "Zz", "3x", "%", "  pad ", "ABBA", "\u00e9\u03bb", "(", "[",
        "10 20", "0b", "a\\b"]
PATS = ["`a`", "`[ab]`", r"`\d+`", "`(a)(b)?`", "`.`", "`x*`", r"`(\w)\1`",
        "`^a`", "``", "`b|c`"]


class G:
    def __init__(self, rng, effects=0.25, depth=3, reads=True, draws=True,
                 assigns=True):
        self.rng = rng
        self.effects = effects
        self.maxdepth = depth
        self.reads = reads
        self.draws = draws
        self.assigns = assigns
        self.mark = 0

    # -- helpers
    def pick(self, seq):
        return seq[int(self.rng.random() * len(seq))]

    def chance(self, p):
        return self.rng.random() < p

    def num(self):
        return self.pick(["0", "1", "2", "3", "5", "7", "10", "12", "2.5"])

    def strlit(self):
        s = self.pick(STRS).replace("  ", " ")
        if self.chance(0.2) and len(s) == 1 and s not in "\n ":
            return "'" + s
        return '"' + s + '"'

    def marker(self):
        self.mark += 1
        return f"(O\"<{self.mark}>\")"

    # -- expressions
    def atom(self):
        r = self.rng.random()
        if r < 0.30:
            return self.num()
        if r < 0.50:
            return self.strlit()
        if r < 0.75:
            return self.pick(LOCALS if self.chance(0.4) else GLOBALS)
        if r < 0.80:
            return "()"
        if r < 0.86:
            return self.pick(PATS)
        if r < 0.90 and self.reads:
            return "q"
        if r < 0.93 and self.draws:
            return "r"
        if r < 0.97:
            return "(" + self.pick(["0", "1", "2"]) + "," \
                + self.pick(["3", "4", "5"]) + ")"
        return "(," + self.pick(["2", "3", "4", "6"]) + ")"

    def lval(self, d):
        v = self.pick(GLOBALS if self.chance(0.7) else LOCALS)
        r = self.rng.random()
        if r < 0.72:
            return v
        if r < 0.95:
            return f"({v}@{self.paren(self.atom_idx(d))})"
        return f"({v}@{self.pick(['0', '1', '2'])}@{self.pick(['0', '1'])})"

    def atom_idx(self, d):
        return self.pick(["0", "1", "2", "-1", "i"]) if self.chance(0.8) \
            else self.expr(d - 1)

    def paren(self, s):
        return s if s.startswith("(") and s.endswith(")") \
            and _balanced(s) else "(" + s + ")"

    def listexpr(self, d):
        n = int(self.rng.random() * 4)
        return "[" + ";".join(self.expr(d - 1) for _ in range(n)) + "]"

    def lam(self, d):
        r = self.rng.random()
        if r < 0.15:
            return self.pick(["_", "B", "G"])
        if r < 0.35:
            op = self.pick(["+", ".", "*", "<", "=", "AL", "-", "J", "#=",
                            r"\&", r"\|", "@"])
            c = self.pick(["1", "2", '"x"', "_", "B", "0"])
            return f"(_{op}({c}))" if op[0].isalpha() or True else ""
        if r < 0.42:
            return f"({self.pick(['#', 'RV', 'U', 'H', '!', 'ST'])}_)" \
                .replace("!_", r"\!_")
        stm = []
        if self.chance(0.5):
            stm.append(self.stmt(d - 2, nested=True))
        if self.chance(self.effects):
            stm.append(self.marker())
        stm.append(self.expr(d - 1))
        return "{" + ";".join(stm) + "}"

    def expr(self, d=None):
        if d is None:
            d = self.maxdepth
        if d <= 0 or self.chance(0.12):
            return self.atom()
        if self.chance(self.effects * 0.6):
            r = self.rng.random()
            if r < 0.55:
                return self.marker()
            op = self.pick(["O", "P", "O", "P", "Y", "YO", "YP"]
                           if self.assigns else ["O", "P"])
            return f"({op}({self.expr(d - 1)}))"
        r = self.rng.random()
        if r < 0.16:
            op = self.pick(UN_SAFE)
            meta = ""
            if self.chance(0.08) and op not in ("@", "^", "+", "-", "/",
                                                "%", "#", "<>", "N", "M",
                                                "."):
                meta = "*"
            e = self.expr(d - 1)
            if op in ("U", "D", "++", "--", "PO", "DQ"):
                e = self.lval(d) if self.chance(0.8) else e
            if not self.assigns and op in ("U", "D", "++", "--", "PO", "DQ"):
                op = "#"
            if meta and op in ("U", "D", "++", "--", "PO", "DQ"):
                meta = ""
            return f"({op}{meta}({e}))"
        if r < 0.44:
            op = self.pick(BIN_SAFE)
            a, b = self.expr(d - 1), self.expr(d - 1)
            if op in ("PU", "PB", "PK", "::"):
                if not self.assigns:
                    op = "."
                else:
                    a = self.lval(d)
                    if op == "::":
                        b = self.lval(d)
            if op == "@" and self.chance(0.6):
                b = self.num()
            return f"(({a}){op}({b}))"
        if r < 0.50:
            return self.small_op(d)
        if r < 0.56:
            c = self.expr(d - 1)
            if self.chance(0.2):
                return f"(({c})\\?({self.expr(d - 1)})({self.expr(d - 1)}))"
            return f"(({c})?({self.expr(d - 1)})({self.expr(d - 1)}))"
        if r < 0.61:
            return f"(({self.expr(d - 1)}){self.pick(['|', '&', '|', '&', chr(92) + '|', chr(92) + '&'])}" \
                   f"({self.expr(d - 1)}))"
        if r < 0.68:
            return self.listexpr(d)
        if r < 0.74 and self.assigns:
            return self.assignment(d)
        if r < 0.86:
            return self.hof(d)
        if r < 0.90:
            op = self.pick(FOLDABLE)
            m = self.pick(["$", "$", "\\$"])
            return f"({m}{op}({self.listexpr(d)}))"
        if r < 0.93:
            ops = [self.pick(["<", ">", "=", "<=", "!=", "#=", "Q", "LT"])
                   for _ in range(2)]
            return (f"(({self.expr(d - 1)}){ops[0]}({self.expr(d - 1)})"
                    f"{ops[1]}({self.expr(d - 1)}))")
        if r < 0.96:
            n = int(self.rng.random() * 3)
            args = "".join(f"({self.expr(d - 1)})" for _ in range(n + 1))
            return f"({self.lam(d)}{args})"
        if r < 0.98:
            return self.eval_(d)
        return self.rand(d) if self.draws else self.atom()

    def eval_(self, d):
        inner = self.expr(min(d - 1, 1))
        if '"' not in inner:
            if self.chance(0.5):
                return f'(V"{inner}")'
            return f'("{inner}"V[{self.atom()};{self.atom()}])'
        return f"({self.lam(d)}V[{self.expr(d - 1)}])"

    def rand(self, d):
        k = self.pick(["RR", "RRb", "RC", "SH", "r"])
        if k == "RR":
            return f"(RR{self.pick(['3', '10', '100'])})"
        if k == "RRb":
            return f"(2RR{self.pick(['5', '9', '50'])})"
        if k == "RC":
            return f"(RC({self.pick([chr(34) + 'abc' + chr(34), ',5', '[1;2;3]'])}))"
        if k == "SH":
            return f"(SH({self.pick([chr(34) + 'abc' + chr(34), ',4', '[1;2;3]'])}))"
        return "r"

    def small_op(self, d):
        k = int(self.rng.random() * 20)
        e = self.expr(d - 1)
        sm = self.pick(["0", "1", "2", "3"])
        sl = self.pick(['"ab"', "[1;2]", '[3;"x"]', ",2", '"c"', "[]"])
        lit = self.pick(['"ab"', '"x"', "3", "7", '""'])
        return [
            f"({lit}X{sm})", f"(({sm})E{sm})", f"({sm}**{sm})",
            f"({sm}EE{sm})", f"(EE{sm})", f"(E{sm})",
            f"(({sl})CB{sm})", f"(PM({sl}))", f"(({sl})CP({sl}))",
            f"(({e})RL{sm})", f"({sm}ZG{sm})", f"({sm}OG{sm})",
            f"({sm}CG{sm})", f"(EY{sm})", f"(C{self.pick(['65', '97', '48', '955'])})",
            f"(({sl})RA({sm})({e}))", f"(({e})TR({lit})({lit}))",
            f"(({sm}){self.pick([',', chr(92) + ','])}({self.pick(['2', '4', '5'])}))",
            f"({self.pick(['9', '255', '-7'])}TB{self.pick(['2', '3', '16'])})",
            f"({lit}R({self.pick(PATS)})({e}))",
        ][k]

    def assignment(self, d):
        r = self.rng.random()
        if r < 0.55:
            return f"({self.lval(d)}:({self.expr(d - 1)}))"
        if r < 0.85:
            op = self.pick(["+", "-", ".", "*", "AL", "AE", "PE", "RM", "J",
                            "|", "&", "^", "@", "<", "R"])
            if op == "R":
                return f"(RV:({self.lval(d)}))"
            return f"({self.lval(d)}{op}:({self.expr(d - 1)}))"
        if r < 0.93:
            a, b = self.pick(GLOBALS), self.pick(GLOBALS)
            return f"([{a};{b}]:({self.expr(d - 1)}))"
        return f"({self.lval(d)}::{self.lval(d)})"

    def hof(self, d):
        op = self.pick(["M", "MC", "ME", "MJ", "MM", "MP", "MS", "MU", "MF",
                        "FI", "FN", "FE", "FU", "FX", "FJ", "SK", "DK", "MZ",
                        "MR", "R", "V"])
        f = self.lam(d)
        le = self.listexpr(d) if self.chance(0.5) else self.pick(
            ['"abc"', ",3", "[1;2;3]", '[[1;2];[3;4]]', '["ab";"c"]',
             "(2,4)", '"b,a,b"', "[]", self.pick(GLOBALS)])
        if op == "MC":
            return f"({f}MC{self.pick(['1', '2', '[2;1]'])})"
        if op == "MZ":
            return f"({f}MZ({le})({self.pick(['[5;6;7]', ',3'])}))"
        if op == "MR":
            return f"({f}MR({self.pick(PATS)})({self.pick(['abab', 'a1b22', 'x']).join([chr(34)] * 2)}))"
        if op == "R":
            return f"(({self.strlit()})R({self.pick(PATS)})({f}))"
        if op == "V":
            return f"({f}V({le}))"
        if self.chance(0.2):
            return f"(({le}){op}({f}))"
        return f"(({f}){op}({le}))"

    # -- statements
    def stmt(self, d=None, nested=False):
        if d is None:
            d = self.maxdepth
        r = self.rng.random()
        if d <= 0 or r < 0.55:
            return self.expr(max(d, 1))
        if r < 0.66:
            v = self.pick(["i", "x", "[i;y]", "$v"])
            return f"F{v}({self.pick([',3', '[1;2]', chr(34) + 'ab' + chr(34), '[[1;2];[3]]', self.listexpr(d)])})" \
                   f"{self.block(d)}"
        if r < 0.78:
            e = f"I({self.expr(d - 1)}){self.block(d)}"
            if self.chance(0.6):
                e += f"EL{self.block(d)}"
            return e
        if r < 0.86:
            return f"L({self.pick(['1', '2', '3', '0', self.expr(d - 1) + '<5'])}){self.block(d)}"
        if r < 0.90:
            return f"LR({self.pick(PATS)})({self.pick(['abab', 'a1b22', 'xx']).join([chr(34)] * 2)}){self.block(d)}"
        if r < 0.94:
            self.mark += 1
            c = f"$c{self.mark}"
            return f"({c}:0);W(({c}<2)&({self.expr(d - 1)}|1)){{({c}:{c}+1);{self.stmt(d - 1, True)}}}"
        if r < 0.98:
            self.mark += 1
            c = f"$c{self.mark}"
            return f"({c}:0);T({c}>=2){{({c}:{c}+1);{self.stmt(d - 1, True)}}}"
        return "WG"

    def block(self, d):
        n = 1 + int(self.rng.random() * 2)
        return "{" + ";".join(self.stmt(d - 1, True) for _ in range(n)) + "}"

    def recursive(self):
        """Definition and call of a function that recurses some levels."""
        n = self.pick(["3", "8", "20", "45"])
        body = self.pick([
            "{(O a);(a>0)?((f(a-1)).a)\"e\"}",
            "{(a>0)?((O a).(f(a-1)))(O\"e\")}",
            "{(O a);(a>0)?(RE(a-1))\"z\"}",
            "{x:a;(O x);I(a>0){(f(a-1));(O x)};a}",
            "{(O\".\");(a>0)?({f(a)}M[a-1])\"m\"}".replace("{f(a)}",
                                                            "{(a)}"),
        ])
        return f"({body}{'(' + n + ')'})"

    def deep(self):
        """A global function that calls itself through a callback, so that
        the stack grows (or runs out) inside that operator's callback."""
        h = self.pick(["h", "k", "m", "$h"])
        rec = f"({h}(a-1))"
        lam = self.pick([f"{{{rec}}}", f"{{(O b);{rec}}}",
                         f"{{{rec}|a}}", f"{{[{rec};a]}}"])
        arg = self.pick(["[a]", "[a;a]", "[a;2]"]) if self.chance(.5) \
            else "[a]"
        # in the callbacks below `a` is the item: the outer a, or smaller
        alts = [f"({lam}{op}{arg})" for op in (
            "M", "MJ", "MS", "MM", "FI", "FN", "SK", "DK", "FJ", "FX", "FE",
            "ME", "MU", "MF", "MP")]
        alts[alts.index(f"({lam}FX{arg})")] = f"({rec}+1)"
        alts[alts.index(f"({lam}FE{arg})")] = \
            f"({{({h}(b-1))}}FE{arg})"
        alts[alts.index(f"({lam}ME{arg})")] = \
            f"({{({h}(b-1))}}ME{arg})"
        alts[alts.index(f"({lam}MU{arg})")] = f"({lam}MU[{arg}])"
        alts[alts.index(f"({lam}FJ{arg})")] = f"({lam}MJ{arg})"
        alts += [f"({lam}MC1)".replace("(a-1)", "(n-1)"),
                 f"({lam}MZ{arg}{arg})",
                 f"(({lam})MR`.`a)".replace("(a-1)", "(n-1)"),
                 f"(\"x\"R`.`({lam}))".replace("(a-1)", "(n-1)"),
                 f"(V\"{rec}\")", f"({{{rec}}}V[a])",
                 f"[{rec};a]", f"({rec}.a)", f"(a+{rec})", f"(O{rec})",
                 f"(($+)[a;{rec}])" if False else f"($+[a;{rec}])",
                 f"((a>{rec})?1 2)", f"({rec}|1)", f"({rec}&1)",
                 f"(y:{rec})", f"(P{rec})", f"(l@{rec})"]
        op = self.pick(alts)
        glob = "n-1" in op
        cmds = [f"I{rec}{{(O 1)}}", f"Fi[a]{{{rec}}}", f"L1{{{rec}}}",
                f"W({rec}&0){{1}}", f"LR`.`a{{{rec}}}",
                f"T({rec}|1){{1}}", f"F[x;y][[a;a]]{{{rec}}}"]
        stop = self.pick(['(O"e")', "a", "[]", '""', "()"])
        if self.chance(.3):
            body = f"{{(O a);I(a>0){{{self.pick(cmds)};(O 2)}};a}}"
            glob = False
        elif glob:
            body = f"{{(O n);n:n-1;(n>0)?{op}{stop}}}"
        else:
            body = f"{{(O a);(a>0)?{op}{stop}}}"
        if self.chance(.25):            # endless
            body = body.replace("(a>0)", "1").replace("(n>0)", "1") \
                .replace("I1{", "I1{")
        cnt = self.pick(["3", "8", "20", "45", "60"])
        if "[a;a]" in body or "[a;2]" in body:
            cnt = self.pick(["2", "4", "6"])
        pre = f"(n:{cnt});" if glob else ""
        return f"{pre}({h}:{body});({h}({cnt}));{self.marker()}"

    def program(self, n=None):
        n = n or 2 + int(self.rng.random() * 5)
        parts = []
        for _ in range(n):
            if self.chance(0.5):
                parts.append(self.marker())
            if self.chance(0.08):
                parts.append(self.recursive())
            parts.append(self.stmt())
        return parts


def _balanced(s):
    """True if the first '(' matches the last ')'."""
    depth = 0
    for i, c in enumerate(s):
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0 and i < len(s) - 1:
                return False
    return depth == 0 and '"' not in s and "'" not in s
