"""Generator of programs in the reference model's mini-language.

Every entry is tried on the model while it is generated, so that a case
consists of entries the model can describe (unless a fault sends the session
elsewhere)."""

import json

from . import model as M
from .session import Predict, out_text
from .model import Unsupported

GLOBS = ["x", "y", "i", "h", "s", "t", "l", "$v", "$w"]
LOCS = ["a", "b", "c", "d", "e"]
STRS = ["", "a", "ab", "abc", "1", "12", "0", "-3", "x y", "b,a", "cabba",
        "a1b22", "7"]
PATS = ["a", "[ab]", r"\d+", "(a)(b)?", ".", "x*", r"(\w)\1", "(b)|(c)",
        "^a", "q", "(a)|b", "(a)(b)(c)?(d)?(e)?()", "(.)(.)(.)(.)?(.)?",
        "(((a))(b)?)|((b)a)|(((1))2)"]
FNS = ["$f", "$g", "$k"]
HOF1 = ["M", "MJ", "MS", "ME", "MP", "FI", "FN", "FJ", "FE", "FX", "SK",
        "MM", "MU", "FU"]

PROFILES = {
    # weights of statement kinds
    "mix": {"expr": 3, "assign": 5, "item": 3, "inplace": 4, "call": 3,
            "hof": 3, "loop": 3, "match": 2, "if": 1, "wg": .3, "fnval": 1},
    "values": {"expr": 1, "assign": 6, "item": 6, "inplace": 7, "call": 5,
               "hof": 3, "loop": 4, "match": .5, "if": 1, "wg": .2,
               "fnval": 3},
    "calls": {"expr": 2, "assign": 3, "item": 1, "inplace": 2, "call": 9,
              "hof": 8, "loop": 2, "match": 2, "if": 1, "wg": 0,
              "fnval": 2},
    "match": {"expr": 1, "assign": 1, "item": 1, "inplace": 1, "call": 3,
              "hof": 2, "loop": 1, "match": 12, "if": 1, "wg": .2,
              "fnval": 1},
    "wipe": {"expr": 1, "assign": 6, "item": 5, "inplace": 6, "call": 3,
             "hof": 2, "loop": 2, "match": 3, "if": 1, "wg": 3, "fnval": 1},
}


class MG:
    def __init__(self, rng, profile="mix", globs=GLOBS, markers=0.3,
                 reads=0.0, strs=STRS):
        self.rng = rng
        self.w = PROFILES[profile]
        self.profile = profile
        self.globs = list(globs)
        self.markers = markers
        self.reads = reads
        self.strs = strs
        self.mark = 0
        self.infn = 0
        self.fns = []           # function variables that exist
        self.inv = 0            # inside a V"..." source: no quotes
        self.allow_die = False

    def pick(self, seq):
        return seq[int(self.rng.random() * len(seq))]

    def chance(self, p):
        return self.rng.random() < p

    # -- atoms
    def marker(self):
        self.mark += 1
        if self.inv:
            return ["out", "O", ["n", str(self.mark)]]
        return ["out", "O", ["s", f"<{self.mark}>"]]

    def num(self):
        return ["n", self.pick(["0", "1", "2", "3", "5", "-1", "7", "12"])]

    def string(self):
        if self.inv:
            return self.num()
        return ["s", self.pick(self.strs)]

    def name(self):
        if self.chance(0.45 if self.infn else 0.22):
            return self.pick(LOCS)
        if self.chance(0.05):
            return "g" if self.infn else self.pick(["\\g", "\\a", "\\b",
                                                    "g"])
        return self.pick(self.globs)

    def var(self):
        return ["v", self.name()]

    def idx(self):
        r = self.rng.random()
        if r < .75:
            return ["n", self.pick(["0", "1", "2", "-1", "0", "1"])]
        if r < .85:
            return ["v", self.pick(["i", "a"])]
        return ["n", "3"]

    def lval(self):
        r = self.rng.random()
        v = self.var()
        if r < .6:
            return v
        if r < .9:
            return ["at", v, self.idx()]
        if r < .97:
            return ["at", ["at", v, self.idx()], self.idx()]
        return ["at", v, ["rng", ["n", self.pick("01")],
                          ["n", self.pick("12")]]]

    # -- values
    def scalar(self, d):
        r = self.rng.random()
        if d <= 0 or r < .3:
            if self.chance(.55):
                return self.num() if self.chance(.6) else self.string()
            if self.reads and self.chance(self.reads):
                return ["q"]
            return self.var()
        if r < .42:
            return ["op2", self.pick(["+", "-", ".", "+"]),
                    self.scalar(d - 1), self.scalar(d - 1)]
        if r < .5:
            return ["op1", self.pick(["#", "!", "J", "RP", "ST", "RV"]),
                    self.any(d - 1)]
        if r < .62:
            return ["at", self.any(d - 1), self.idx()]
        if r < .68:
            return ["fold", self.pick(["+", "."]), self.list(d - 1)]
        if r < .76:
            return ["op2", self.pick(["<", ">", "=", "=="]),
                    self.any(d - 1), self.any(d - 1)]
        if r < .82:
            return self.cond(d)
        if r < .9:
            return self.call(d)
        if r < .95:
            return ["out", self.pick("OP"), self.scalar(d - 1)]
        return self.inplace(d)

    def cond(self, d):
        k = self.pick(["if", "and", "or", "rif", "rand", "ror"])
        if k in ("if", "rif"):
            return [k, self.any(d - 1), self.any(d - 1), self.any(d - 1)]
        return [k, self.any(d - 1), self.any(d - 1)]

    def list(self, d):
        r = self.rng.random()
        if d <= 0 or r < .25:
            if self.chance(.4):
                return self.var()
            n = int(self.rng.random() * 4)
            if self.chance(.06):
                n += 6 + int(self.rng.random() * 8)
            return ["ls", [self.num() if self.chance(.5) else self.string()
                           for _ in range(n)]]
        if r < .45:
            n = 1 + int(self.rng.random() * 3)
            return ["ls", [self.any(d - 1) for _ in range(n)]]
        if r < .52:
            return ["rto", ["n", self.pick("2345")]]
        if r < .56:
            return ["rng", ["n", self.pick("012")], ["n", self.pick("345")]]
        if r < .72:
            return ["op2", self.pick(["AL", "AE", "PE", "AE", "RM"]),
                    self.any(d - 1), self.any(d - 1)]
        if r < .77:
            return ["op1", "RV", self.list(d - 1)]
        if r < .81:
            return ["mapop", self.pick(["#", "RV", "-", "!"]),
                    self.list(d - 1)]
        if r < .85:
            return ["scan", self.pick(["+", ".", "AE"]), self.list(d - 1)]
        if r < .95:
            return self.hof(d)
        return self.assign(d)

    def any(self, d):
        r = self.rng.random()
        if r < .45:
            return self.scalar(d)
        if r < .85:
            return self.list(d)
        if r < .9:
            return self.var()
        if r < .93:
            return ["nil"]
        if d > 0 and self.chance(.5):
            return self.match(d)
        return self.call(d) if d > 0 else self.var()

    # -- effects
    def assign(self, d):
        r = self.rng.random()
        if r < .72:
            return ["as", self.lval() if self.chance(.35) else self.var(),
                    self.any(d - 1)]
        if r < .8:
            return ["as", ["ls", [["v", self.pick(self.globs)],
                                  ["v", self.pick(self.globs)]]],
                    self.list(d - 1)]
        if r < .9:
            return ["swap", self.lval(), self.lval()]
        return ["y", self.pick(["Y", "YO", "YP"]), self.any(d - 1)]

    def item(self, d):
        v = self.var()
        lv = ["at", v, self.idx()]
        r = self.rng.random()
        if r < .25:
            lv = ["at", lv, self.idx()]
        elif r < .35:
            lv = ["at", v, ["rng", ["n", self.pick("01")],
                            ["n", self.pick("12")]]]
        if self.chance(.6):
            return ["as", lv, self.any(d - 1)]
        if self.allow_die and self.chance(.15):
            return self.baditem()
        return ["cas", self.pick(["+", ".", "AL", "AE", "-"]), lv,
                self.any(d - 1)]

    def inplace(self, d):
        r = self.rng.random()
        if r < .3:
            return ["cas", self.pick(["+", "-", ".", "AL", "AE", "PE", "|",
                                      "&", "AE", "RM"]), self.lval(),
                    self.any(d - 1)]
        if r < .5:
            return ["inc", self.pick(["U", "D", "++", "--"]), self.lval()]
        if r < .75:
            return ["push", self.pick(["PU", "PB", "PK", "PB"]), self.lval(),
                    self.any(d - 1) if self.chance(.7) else self.idx()]
        return ["pop", self.pick(["PO", "DQ"]), self.lval()]

    def args(self, d, n=None):
        if n is None:
            n = 1 + int(self.rng.random() * 2.4)
            if self.chance(.06):
                n += 3 + int(self.rng.random() * 3)
        return [self.var() if self.chance(.4) else self.any(d - 1)
                for _ in range(n)]

    def fn(self, d):
        r = self.rng.random()
        if self.fns and r < .4:
            return ["v", self.pick(self.fns)]
        if r < .47:
            return ["v", self.pick(["_", "B"])]
        if r < .55 and d > 0:
            return self.joined(d - 1)
        return self.lam(d)

    def joined(self, d):
        """Functions combined by an operator."""
        r = self.rng.random()
        if r < .2:
            return ["op1", self.pick(["#", "RV", "-", "J"]), self.fn(d)]
        if r < .3:
            return [self.pick(["fold", "scan"]),
                    self.pick(["+", ".", "AL"]), self.fn(d)]
        a, b = self.fn(d), self.fn(d) if self.chance(.6) else self.any(0)
        if self.chance(.3):
            a, b = b, a
        return ["op2", self.pick(["AE", "AL", "PE", "+", ".", "RL"]), a, b]

    def lam(self, d):
        self.infn += 1
        body = []
        n = int(self.rng.random() * 2.6)
        for _ in range(n):
            body.append(self.stmt(d - 1))
        if self.chance(self.markers):
            body.append(self.marker())
        body.append(self.any(d - 1) if self.chance(.8) else
                    ["ls", [["v", n] for n in "ab"]])
        self.infn -= 1
        return ["lam", body]

    def call(self, d):
        r = self.rng.random()
        if self.profile != "match" and r < .08 and not self.inv:
            self.inv += 1
            e = [self.stmt(d - 1), self.scalar(d - 1)]
            self.inv -= 1
            if r < .04:
                return ["evs", e]
            return ["evf", e, ["ls", self.args(
                d, int(self.rng.random() * 4))]]
        if r < .13:
            return ["hof", "V", self.fn(d),
                    [["ls", self.args(d, int(self.rng.random() * 4))]]]
        if r < .2:
            return self.recursion(d)
        f = self.fn(d)
        return ["call", f, self.args(d)]

    def recursion(self, d):
        """Function that calls itself a few levels deep."""
        n = self.pick(["1", "2", "3", "5"])
        self.infn += 1
        pre = [self.stmt(0), self.marker()] if self.chance(.6) else []
        again = ["op2", "-", ["v", "a"], ["n", "1"]]
        rec = (["rec", again] if self.chance(.3) else
               ["call", ["v", "f"], [again] + self.args(0, 1)])
        if self.chance(.15):
            # without arguments: ends at the first level below
            rec = ["hof", "V", ["v", "f"], [["ls", []]]]
        if self.chance(.3):
            rec = ["hof", "M", ["lam", [self.marker(), ["v", "a"]]],
                   [["ls", [rec]]]]
        if self.chance(.3):
            rec = ["as", ["v", self.pick("bcd")], rec]
        post = [self.stmt(0)] if self.chance(.5) else []
        body = pre + [["IF", ["op2", ">", ["v", "a"], ["n", "0"]],
                       [rec] + post + [self.show()], None]]
        body.append(self.pick([["v", "a"], ["v", "b"],
                               ["ls", [["v", "a"], ["v", "c"]]],
                               ["v", "g"]]))
        self.infn -= 1
        return ["call", ["lam", body], [["n", n]] + self.args(0, 1)]

    def show(self):
        """Print some variables."""
        if self.infn:
            ns = [self.pick(LOCS + ["g", "$_", "$__"]) for _ in range(2)]
        else:
            ns = [self.pick(self.globs) for _ in range(2)]
        return ["out", "O", ["op1", "RP", ["ls", [["v", n] for n in ns]]]]

    def hof(self, d):
        r = self.rng.random()
        if r < .1:
            return ["hof", "MR", self.fn(d),
                    [["p", self.pick(PATS)], ["s", self.pick(self.strs)]]] \
                if not self.inv else self.num()
        if r < .16:
            return ["hof", "MZ", self.fn(d),
                    [self.list(d - 1), self.list(d - 1)]]
        if r < .2:
            return ["hof", "MC", self.fn(d), [["n", self.pick("12")]]]
        op = self.pick(HOF1)
        if self.chance(.25):
            op = "~" + op
        return ["hof", op, self.fn(d), [self.list(d - 1)]]

    def loop(self, d):
        r = self.rng.random()
        body = [self.stmt(d - 1) for _ in range(1 + (self.rng.random() < .5))]
        if self.chance(self.markers):
            body.append(self.marker())
        if r < .55:
            v = self.pick(["i", "x", "y", "h", "$v", "a", ["i", "x"],
                           ["b", "y"]])
            return ["FOR", v, self.list(d - 1), body]
        if r < .75:
            return ["LOOP", ["n", self.pick("123")], body]
        c = f"$c{self.mark}"
        self.mark += 1
        inc = ["as", ["v", c], ["op2", "+", ["v", c], ["n", "1"]]]
        n = ["n", self.pick("123")]
        if r < .9:
            return ["WHILE", ["op2", "<", ["v", c], n], [inc] + body]
        return ["TILL", ["op2", "=", ["v", c], n], [inc] + body]

    def match(self, d):
        if self.inv:
            return self.num()
        s = ["s", self.pick(self.strs)] if self.chance(.7) else self.var()
        p = ["p", self.pick(PATS)]
        r = self.rng.random()
        if r < .2:
            return ["op2", "~", s, p]
        if r < .32:
            return ["op2", self.pick(["@?", "@*", "~="]), s, p]
        if r < .42:
            return ["at", s, p]
        if r < .5:
            if self.chance(.3):
                p = ["ls", [p, ["p", self.pick(PATS)]]]
            return ["op2", "N", p, s]
        if r < .72:
            if self.chance(.2):
                s = ["ls", [s, ["s", self.pick(self.strs)]]]
            if self.chance(.2):
                p = ["ls", [p, ["p", self.pick(PATS)]]]
            return ["repl", s, p, self.matchfn(d)]
        return ["hof", "MR", self.matchfn(d), [p, s]]

    def matchshow(self):
        ns = [self.pick(["$0", "$1", "$2", "$3", "$5", "$9", "$$", "$(", "$)", "$`", "$'",
                         "$[", "$]", "a", "b"]) for _ in range(2)]
        return ["out", "O", ["op1", "RP", ["ls", [["v", n] for n in ns]]]]

    def matchfn(self, d):
        self.infn += 1
        body = []
        if self.chance(.35):
            body.append(self.matchshow())
        if self.chance(.4):
            body.append(self.match(d - 1) if d > 0 else
                        ["op2", "~", ["s", self.pick(self.strs)],
                         ["p", self.pick(PATS)]])
        if self.chance(.2):
            body.append(self.stmt(d - 1))
        if self.chance(.5):
            body.append(self.matchshow())
        body.append(self.pick([["v", "a"], ["v", "$0"], ["v", "b"],
                               ["s", "z"], ["nil"]]))
        self.infn -= 1
        return ["lam", body]

    def baditem(self):
        """A function assigned to a slice: an error for lists."""
        return ["as", ["at", self.var(), ["rng", ["n", self.pick("01")],
                                          ["n", self.pick("123")]]],
                self.pick([["v", "_"], ["lam", [["v", "a"]]]])]

    def die(self):
        if self.chance(.2):
            return self.baditem()
        ks = ["zero", "chr"] if self.inv else ["scan", "zero", "chr", "rc",
                                               "re"]
        return ["die", self.pick(ks)]

    # -- statements
    def stmt(self, d=2):
        if self.allow_die and self.chance(.06):
            return self.die()
        if d <= 0:
            r = self.rng.random()
            if r < .3:
                return ["as", self.var(), self.scalar(0)]
            if r < .5:
                return self.inplace(0)
            if r < .65:
                return self.item(0)
            if r < .8:
                return self.show()
            return self.marker()
        ks = list(self.w)
        tot = sum(self.w.values())
        x = self.rng.random() * tot
        for k in ks:
            x -= self.w[k]
            if x < 0:
                break
        if k == "wg":
            return ["WG"] if not self.inv else self.marker()
        if k == "fnval":
            return self.fnval(d)
        if k == "loop":
            return self.loop(d)
        if k == "if":
            return ["IF", self.any(d - 1), [self.stmt(d - 1)],
                    [self.stmt(d - 1)] if self.chance(.5) else None]
        if k == "match" and not self.inv:
            if self.chance(.35):
                body = [self.matchshow()]
                if self.chance(.5):
                    body.insert(0, self.match(d - 1))
                if self.chance(.4):
                    body.append(self.stmt(d - 1))
                return ["LR", ["p", self.pick(PATS)],
                        ["s", self.pick(self.strs)], body]
            return self.match(d)
        if k == "match":
            return self.marker()
        return {"expr": self.any, "assign": self.assign, "item": self.item,
                "inplace": self.inplace, "call": self.call,
                "hof": self.hof}[k](d)

    def fnval(self, d):
        """Shapes that share a value in more than one place."""
        a, b = self.var(), self.var()
        k = int(self.rng.random() * 15)
        upd = lambda v: self.pick([
            ["as", ["at", v, self.idx()], self.scalar(0)],
            ["push", self.pick(["PU", "PB"]), v, self.scalar(0)],
            ["pop", self.pick(["PO", "DQ"]), v],
            ["cas", self.pick(["AE", "AL"]), v, self.list(0)],
            ["inc", "U", ["at", v, self.idx()]],
            ["push", "PB", ["at", v, self.idx()], self.scalar(0)],
            ["as", ["at", ["at", v, self.idx()], self.idx()],
             self.scalar(0)]])
        if k == 0:       # literal inside of a function, changed through a var
            return ["hof", "M", ["lam", [["as", a, self.list(0)], upd(a),
                                         a]], [["rto", ["n", "2"]]]]
        if k == 1:
            return ["ls", [["as", a, ["ls", [b, b]]], upd(a), b]]
        if k == 2:
            return ["call", ["lam", [upd(["v", "a"]), upd(["v", "b"]),
                                     ["v", "g"]]], [a, a]]
        if k == 3:
            return ["FOR", self.pick(["i", "x", "$v"]), a,
                    [upd(a), upd(["v", self.pick(["i", "x", "$v"])])]]
        if k == 4:
            return ["as", ["ls", [["v", self.pick(self.globs)],
                                  ["v", self.pick(self.globs)]]],
                    ["ls", [a, a]]]
        if k == 5:
            return ["ls", [["as", a, b], upd(a), ["rval", b], upd(b), a]]
        if k == 6:
            return ["hof", self.pick(["M", "FI", "ME", "MU", "SK"]),
                    ["lam", [upd(a), upd(["v", "a"]), ["n", "1"]]], [a]]
        if k == 7:
            return ["as", ["at", a, self.idx()], ["rval", a]]
        if k >= 12:
            # an item that is a list itself, read and then changed in place
            nest = ["ls", [["ls", [self.num(), ["ls", [self.num()]]]],
                           self.list(0), ["ls", [self.string()]]]]
            it = ["at", a, ["n", self.pick(["0", "0", "1", "2"])]]
            pre = ["as", a, nest]
            u1, u2 = upd(it), upd(a)
            r = self.rng.random()
            if r < .3:
                return ["ls", [pre, ["op2", self.pick(["AE", "AL", "PE"]),
                                     it, self.pick([u1, u2])], a]]
            if r < .6:
                return ["ls", [pre, ["as", b, it], upd(b), u1, a, b]]
            if r < .8:
                return ["ls", [pre, it, u1, self.pick([it, a])]]
            return ["ls", [pre, ["call", ["lam", [
                u1, self.pick([["v", "a"], ["v", "g"]])]], [it, a]], a]]
        if k >= 9:
            # an argument (or an item of g) changed inside a callback whose
            # operator goes on to use the argument
            arg = self.pick([["v", "a"], ["at", ["v", "g"], ["n", "0"]],
                             ["at", ["v", "g"], ["n", "0"]],
                             ["at", ["v", "g"], ["n", "1"]], ["v", "b"],
                             ["at", ["v", "a"], ["n", "0"]]])
            op = self.pick(["FI", "FN", "FE", "FX", "FU", "SK", "M", "ME",
                            "MU", "MJ", "MP", "MF", "FJ", "MZ", "call"])
            inner = lambda: ["ls", [self.num(), self.num()]]
            src = self.pick([a, ["ls", [inner(), inner()]],
                             ["ls", [["ls", [inner(), a]], inner()]],
                             ["ls", [a, b]], ["ls", [inner(), a]]])
            lam = ["lam", [upd(arg), self.pick([["n", "1"], ["v", "a"],
                                                ["v", "g"], ["n", "0"]])]]
            if op == "call":
                return ["ls", [["call", lam, [src, a]], a]]
            if op == "MZ":
                return ["ls", [["hof", op, lam, [src, src]], a]]
            return ["ls", [["hof", op, lam, [src]], a]]
        return ["ls", [["swap", a, ["at", b, self.idx()]], upd(a)]]

    def flat(self):
        """A statement that cannot double a value at every repetition."""
        r = self.rng.random()
        if r < .5:
            return ["as", self.var(), self.num()]
        if r < .7:
            return ["inc", self.pick(["U", "D"]), self.var()]
        return self.show() if r < .85 else self.marker()

    def deep(self):
        """Recursion that no stack survives."""
        self.infn += 1
        body = [["out", "O", ["s", "."]]] if self.chance(.5) else []
        if self.chance(.7):
            body.append(self.flat())
        k = self.rng.random()
        again = ["call", ["v", "f"], [["op2", "+", ["v", "a"], ["n", "1"]]]]
        if k < .3:
            again = ["rec", ["v", "a"]]
        elif k < .5:
            again = ["hof", self.pick(["M", "FI", "SK"]),
                     ["v", "f"], [["ls", [["v", "a"]]]]]
        body.append(["as", ["v", self.pick(["b", "x", "$v"])], again]
                    if self.chance(.4) else again)
        if self.chance(.3):
            body.append(self.flat())
            body.append(["v", "a"])
        self.infn -= 1
        return ["call", ["lam", body], [self.scalar(0)]]

    def deep_in(self):
        """Recursion that no stack survives, in loops and callbacks."""
        e = self.deep()
        for _ in range(int(self.rng.random() * 2.5)):
            e = self.pick([
                lambda: ["FOR", self.pick(["i", "x", "$v", "a", ["i", "x"]]),
                         self.list(0), [e] + [self.flat()]],
                lambda: ["LOOP", ["n", "2"], [self.flat(), e]],
                lambda: ["IF", ["n", "1"], [self.flat(), e], None],
                lambda: ["call", ["lam", [self.flat(), e, ["v", "a"]]],
                         [self.scalar(0)]],
                lambda: ["hof", self.pick(["M", "FI", "SK", "MU", "FE"]),
                         ["lam", [self.flat(), e, ["v", "a"]]],
                         [self.list(0)]],
                lambda: ["LR", ["p", self.pick(PATS)],
                         ["s", self.pick(self.strs)], [e]]])()
        return e

    def function_defs(self):
        """Setup entry: function variables, defined without any display."""
        n = int(self.rng.random() * 3)
        if not n:
            return None
        body = []
        for name in FNS[:n]:
            body.append(["as", ["v", name], self.lam(2)])
        self.fns = FNS[:n]
        if n > 1 and n < len(FNS) and self.chance(.5):
            # one made of the others
            body.append(["as", ["v", FNS[n]], ["op2", self.pick(
                ["AE", "AL", "+", "."]), ["v", FNS[0]], ["v", FNS[1]]]])
            self.fns = FNS[:n + 1]
        return ["LOOP", ["n", "1"], body]


class SessionGen:
    """Builds a session entry by entry, keeping only entries that the model
    describes."""

    def __init__(self, rng, mg, names, args=(), lines=()):
        self.rng = rng
        self.mg = mg
        self.names = names
        self.entries = []
        self.probes = {}
        self.pred = Predict(args, lines)
        self.rejected = 0

    def try_entry(self, stmts):
        """True if the model can run it; its effect stays."""
        stmts = json.loads(json.dumps(stmts))
        m = self.pred.model
        snap = m.snapshot()
        lines = list(m.lines)
        try:
            src = ";".join(M.render(s) for s in stmts)
            if len(src) > 1500 or "\n" in src:
                raise Unsupported("long entry")
            with M.with_stack():
                ev, outcome = self.pred.entry(stmts)
            if len(ev) > 1500 or len(out_text(ev)) > 6000:
                raise Unsupported("big")
        except Unsupported as e:
            self.why = str(e)
            m.restore(snap)
            m.lines = lines
            self.rejected += 1
            return None
        self.entries.append(stmts)
        return outcome

    def probe(self):
        k = len(self.entries)
        e = [["ls", [["v", n] for n in self.names]]]
        if self.try_entry(e) is None:
            # a value the model cannot display: the entry before goes
            return False
        self.probes[k] = list(self.names)
        return True

    def setup(self):
        for _ in range(5):
            s = self.mg.function_defs()
            if s is None:
                return
            if self.try_entry([s]) is not None:
                return
            self.mg.fns = []

    def work(self, make, tries=12):
        """Add [marker; statements; marker] and a probe."""
        for _ in range(tries):
            m = self.pred.model
            snap = m.snapshot()
            lines = list(m.lines)
            stmts = [self.mg.marker()] + make() + [self.mg.marker()]
            if self.try_entry(stmts) is None:
                continue
            if self.probe():
                return True
            self.entries.pop()
            m.restore(snap)
            m.lines = lines
        return False
