"""Every operator with operands of every type, sensible or not.

Complements gen.G, which mostly gives operators what they expect.  Operators
whose result can explode get only small atoms as operands."""

UN = ["O", "P", "Y", "YO", "YP", "!", "V", "FI", "FN", "FU", "FX", "FJ",
      "\\!", "RP", "ST", "MX", "M", "MN", "N", "SN", "SS", "DN", "DS", "UQ",
      "EN", "FL", "FA", "PO", "DQ", "^", "<>", "CH", "J", "RV", "R", "RF",
      "PZ", "QR", "QP", "Z", "ZD", "ZJ", "H", "S", "WV", "UW", "TD", "FD",
      "X", ".", "K", "||", "|>", "<|", "TM", "LC", "UC", "SC", "TC", "IC",
      "TB", "BN", "SI", "CO", "TA", "SE", "CS", "CT", "AT", "RD", "DG", "BL",
      "|<", ">|", "RZ", "RN", "+", "-", "/", "%", "HV", "HU", "DB", "SQ",
      "RT", "EX", "LN", "LB", "LD", "U", "D", "#", "A", "C", "AB", "SG",
      "FB", "@", "@<", "@>", "++", "--", ",", "\\,"]
UN_RISKY = ["PM", "CP", "CG", "ZG", "OG", "EY", "**", "E", "EE"]
UN_RANDOM = ["RC", "SH", "RR"]
BIN = ["==", "M", "MC", "ME", "MJ", "MM", "MP", "MS", "MU", "MF", "FI", "FN",
       "FE", "FU", "FX", "FJ", "SK", "DK", "V", "\\|", "\\&", "<", ">", "=",
       "<=", ">=", "!=", "LT", "GT", "Q", "LE", "GE", "NE", "#=", "#<", "#>",
       "~=", "N", "NI", "AE", "AL", "PE", "PU", "PB", "PK", "^", "^@", "@?",
       "@*", "<>", "CH", "J", "JW", "Z", "ZD", "ZJ", "H", "S", "WV", "UW",
       "TD", "FD", "WR", "~", ".", "RM", "DC", "||", "|>", "<|", "TM", "BA",
       "BO", "BX", "AT", "CM", "|<", ">|", "RZ", "RN", "+", "-", "AD", "*",
       "/", "%", "//", "FB", "@", "@<", "@>", "|", "&", ":", "::"]
BIN_RISKY = ["CB", "RL", "CP", "CG", "ZG", "OG", "X", ",", "\\,", "TB", "**",
             "E", "EE", "RT"]
BIN_RANDOM = ["RR"]
TER = ["?", "MR", "MZ", "\\?", "RA", "TR", "R"]
NUMS = ["0", "1", "2", "3", "-1", "2.5", "-0.5", "12"]
ATOMS = ["()", "[]", '""', '"abc"', '"a b"', '"-3x"', "[1;2;3]",
         '[1;"a";()]', "[[1;2];[3]]", '["ab";"c"]', "(,3)", "(1,4)", "(3,1)",
         "`a+`", "`(x)|b`", "{a}", "{a+b}", "{O1;a}", "_", "x", "y", "l", "i",
         "(2,())", "[(2,());1]", "[{a};`b`]", "$u1", "a", "b", "g", "f",
         "[[]]", "(,0)", "[3;[4;[5]]]", '"1e3"', "z", "w", "[`a`;1]"]
SMALL = ["0", "1", "2", "3", "-1", "2.5", "()", "[]", '""', '"ab"', "[1;2]",
         '["a";2]', "(,2)", "(1,3)", "`a`", "{a}", "[[1];[2]]", "x", "(,0)"]
LVALS = ["x", "y", "l", "i", "$u1", "a", "(x@0)", "(l@1)", "(l@(0,2))",
         "[x;y]", "[x;[y;l]]", "(y@-1)", "(l@5)", "(x@\"k\")", "(l@0@1)",
         "(z@0)", "(x@())", "(l@[0;1])", "(q@0)", "(r@1)", "(q@(0,1))", "q",
         "[q;x]", "($1@0)", "($zz@0)", "(BB@1)", "_", "(_@0)", "[x;5]",
         "(x@{a})", "(x@`a`)", "(\\a@0)", "(l@(0,()))", "(i@0)", "$_",
         "($_@0)", "((1,())@0)", "(w@2@1)", "(g@0)", "[(x@0);(q@0)]"]
CMDS = ["I({0}){{(O1)}}EL{{(O2)}}", "Fi({0}){{(O i)}}", "F[x;y]({0}){{(O x)}}",
        "L({1}){{(O3)}}", "LR({0})({2}){{(O4)}}", "T({1}){{($t1:1);(O5)}}"]


# Rare operand combinations (each reaches a diagnostic that random operands
# seldom reach).
RARE = ["($u9:(0,0));(O RP(DQ $u9))", "($u9:(0,0));(O RP(PO $u9))",
        "($u9:(1,()));(O RP(DQ $u9))", "($u9:(1,()));(O RP(PO $u9))",
        "($u9:(1,()));(O RP($u9 PK 5))", "($u9:(1,()));(O RP($u9 PK(-1)))",
        "($u9:(0,0));(O RP($u9 PK 1))", "($u9:[]);(O RP($u9 PK 1))",
        "($u9:\"\");(O RP(DQ $u9))", "($u9:\"\");(O RP(PO $u9))",
        "($u9:(1,5));(O RP(PO $u9))", "($u9:(1,5));(O RP(DQ $u9))",
        "($u9:(1,5));(O RP($u9 PK 2))", "($u9:(1,5));(O RP($u9 PU 2))",
        "($u9:(1,5));(O RP($u9 PB 2))", "($u9:`ab`);(O RP(PO $u9))",
        "($u9:`ab`);(O RP(DQ $u9))", "($u9:\"abc\");(O RP($u9 PK 1))",
        "($u9:{a});(O RP(PO $u9))", "($u9:{a});(O RP($u9 PK 1))",
        "(O RP(SN[3;\"a\";[1]]))", "(O RP(SN[[2;1];[1];[]]))",
        "(O RP({(a,())}DK[3;1]))", "(O RP({(a,())}SK[3;1]))",
        "(O RP({`x`}DK[3;1]))", "(O RP({[a;`x`]}SK[3;1]))",
        "(O RP(DN[(2,());1;[3;`q`]]))", "(O RP(SN[(2,());1;[3;()]]))",
        "(O RP({a+b}MU[(2,());[1;2]]))", "(O RP({a}MU[5;{a};[1]]))",
        "(O RP({a}FU[(2,());[1;2];{b}]))", "(O RP({a}FU[5;`x`;[1]]))",
        "(O RP(MX[1;{a}]))", "(O RP(MN[1;`x`]))", "(O RP(MX[1;[2]]))",
        "(O RP(MN[[1];2]))", "(O RP(MX*[1;[2;()]]))", "(O RP({a}PE`x`))",
        "(O RP({a}AE 5))", "(O RP(`x`AL{a}))", "(O RP(,{a}))", "(O RP(,`x`))",
        "(O RP(\\,{a}))", "(O RP(\"ab\"|>{a}))", "(O RP(\"ab\"<|{a}))",
        "(O RP(\"ab\"||{a}))", "(O RP([\"ab\"]||[1;{a}]))",
        "(O RP(V\"(\"))", "(O RP(V\"'\"))", "(O RP(V\"{{;\"))",
        "(O RP((-8)RT 3))", "(O RP(0RT(-2)))", "(O RP((-2)**0.5))",
        "(O RP(0**(-1)))", "(O RP(A\"\"))", "(O RP(C{a}))",
        "(O RP(\"a\"@?(2,())))", "(O RP(\"a\"@*(2,())))",
        "(O RP((,5)@*(2,())))", "(O RP(#(2,())))", "(O RP(RV(2,())))",
        "(O RP(RF(2,())))", "(O RP(EN(2,())))", "(O RP(UW(2,())))",
        "(O RP(\"ab\"TR(1,())(2,())))",
        "(O RP(5TB(1,2)))", "(O RP(5TB{a}))", "(O RP((1,())RM{a}))",
        "(O RP(UC{a}))", "(O RP(LC(1,())))", "(O RP(WV{a}))", "(O RP(WV 5))",
        "(O RP(EX{a}))", "(O RP(CT{a}))", "(O RP(AT`x`))", "(O RP(2AT{a}))",
        "(O RP(DS{a}))", "(O RP(SS{a}))", "(O RP([[1;2];3]@1@2))",
        "([(x@9@1);y]:[1;2])", "(O RP(\"\"@3))", "([]@0:3)", "((q@0):5)",
        "((q@(0,1)):5)", "((r@0):5)", "(U(q@0))", "((q@0)+:1)",
        "((q@0)::x)", "([q;(q@1)]:[1;2])", "(q:5)", "(U q)", "(Y(q@0))",
        "((q@0)PU 1)", "(PO(q@0))", "(O RP((q@0)@5))", "(O RP(q@{a}))",
        "(O RP((r@9)))", "((x@0@0@0):1)", "((l@1@5@0):1)", "(O RP(l@1@5@0))",
        "(DQ l@1@1)", "(O RP(3RR 2))", "(O RP(RR`x`))", "(O RP(RC[]))",
        "(O RP(RC(2,())))", "(O RP(SH(2,())))", "(O RP(SG{a}))",
        "(O RP(HV{a}))", "(O RP(SC{a}))", "(O RP(BN{a}))", "(O RP(FB{a}))",
        "(O RP(\"zz\"FB 2))", "(O RP(\"1x\"FB 99))", "(O RP({a},{b}))",
        "(O RP(1,`x`))", "(O RP(1?{(z@0)}3))", "L(2,()){{(O1)}}"
        .replace("L(2,()){{(O1)}}", "(O RP(1EE{a}))"), "L{a}{(O1)}",
        "LR{a}{b}{(O1)}", "LR`(`(x){(O1)}", "F5(x){(O1)}", "Fi{a}{(O i)}",
        "Fq[1;2]{(O1)}", "Fr[1]{(O1)}", "F[q;x][[1;2]]{(O x)}",
        "(O RP(JW(2,())))", "(O RP(\"a\"X(-1)))",
        "(O RP(5WR{a}))", "(O RP({a}WR 5))", "(O RP([1]CB{a}))",
        "(O RP(PM{a}))", "(O RP(5CP{a}))", "(O RP($+{a}))",
        "(O RP(\\$+`x`))", "(O RP($+(2,())))", "(O RP(M{a}))",
        "(O RP({a}MZ 5 6))", "(O RP(5MR 5 6))", "(O RP({a}MC{b}))",
        "(O RP({a}MC(2,())))", "(O RP({a}V 5))", "(O RP(5V[1]))",
        "(O RP(5(1)))", "(O RP(()(1)))", "(O RP([{a};5]M 3))"]


class Wild:
    def __init__(self, rng, draws=False):
        self.rng = rng
        self.draws = draws

    def pick(self, seq):
        return seq[int(self.rng.random() * len(seq))]

    def atom(self):
        return self.pick(NUMS) if self.rng.random() < .3 else \
            self.pick(ATOMS)

    def operand(self, d):
        if d <= 0 or self.rng.random() < .6:
            if self.rng.random() < .05:
                return "q"
            return self.atom()
        return self.expr(d - 1)

    def expr(self, d=1):
        x = self.rng.random()
        p = self.pick
        if x < .3:
            if self.rng.random() < .1:
                if self.draws and self.rng.random() < .5:
                    return f"({p(UN_RANDOM)}({p(SMALL)}))"
                return f"({p(UN_RISKY)}({p(SMALL)}))"
            op = p(UN)
            if op in ("U", "D", "PO", "DQ", "++", "--", "Y") \
                    and self.rng.random() < .7:
                return f"({op}({p(LVALS)}))"
            meta = "*" if self.rng.random() < .1 and op not in (
                "O", "P", "Y", "YO", "YP", "!", "PO", "DQ", "U", "D",
                "++", "--") else ""
            return f"({op}{meta}({self.operand(d)}))"
        if x < .72:
            if self.rng.random() < .12:
                if self.draws and self.rng.random() < .3:
                    return f"(({p(SMALL)})RR({p(SMALL)}))"
                return f"(({p(SMALL)}){p(BIN_RISKY)}({p(SMALL)}))"
            op = p(BIN)
            a = self.operand(d)
            if op in ("PU", "PB", "PK", ":", "::") \
                    and self.rng.random() < .85:
                a = p(LVALS)
            b = p(LVALS) if op == "::" and self.rng.random() < .8 \
                else self.operand(d)
            return f"(({a}){op}({b}))"
        if x < .8:
            op = p(TER)
            return f"(({self.operand(d)}){op}({self.operand(d)})" \
                   f"({self.operand(d)}))"
        if x < .87:
            m = p(["$", "\\$"])
            op = p([o for o in BIN if o not in (
                ":", "::", "PU", "PB", "PK", "|", "&", "M", "V")
                and not o.startswith(("M", "F"))])
            return f"({m}{op}({self.operand(d)}))"
        if x < .93:
            op = p(["+", "-", "*", "/", "%", ".", "AE", "AL", "RM", "@", "^",
                    "J", "WV", "<", "|", "&", "//", "H", "S", "BA"])
            return f"({p(LVALS)}{op}:({self.operand(d)}))"
        if x < .97:
            args = "".join(f"({self.operand(d)})" for _ in range(
                1 + int(self.rng.random() * 2)))
            return f"(({self.operand(d)}){args})"
        return f"(({self.operand(d)})<({self.operand(d)})" \
               f">=({self.operand(d)}))"

    def stmt(self, d=1):
        if self.rng.random() < .07:
            return self.pick(RARE)
        if self.rng.random() < .12:
            return self.pick(CMDS).format(self.operand(d),
                                          self.pick(SMALL),
                                          self.pick(['"aab"', '"xb"', "5",
                                                     "[1]", "()"]))
        return self.expr(d)
