"""C15: WG restores the initial globals whatever happened before."""

from ._sess import SessionProp, TOP, MATCH
from .. import model as M

PRE = [n for n in M.Model().defaults()
       if n not in ("_", "B", "G", "n")]


class C15(SessionProp):
    id = "C15"
    profile = "wipe"
    quick_cases = 1500
    fault_rate = 0.6
    schedules = 2
    deep_rate = 0.05
    program_rate = 0.3
    globs = ["x", "y", "i", "h", "s", "t", "l", "$v", "z", "k", "o", "m",
             "u", "v", "AZ", "VW", "$w", "ZQ", "$abc", "$v_1", "\\a",
             "\\g", "\\g", "\\b"]

    def pick_names(self, rng):
        ns = [n for n in self.globs]
        ns += [n for n in TOP if n not in ns]
        extra = [n for n in PRE + MATCH if n not in ns]
        rng.shuffle(extra)
        return ns + extra[:12]

    def update(self, rng, mg, name):
        """A change of one global, in place where possible."""
        v = ["v", name]
        it = ["at", v, mg.idx()]
        return rng.choice([
            ["as", it, mg.scalar(0)], ["as", it, mg.scalar(0)],
            ["as", ["at", it, mg.idx()], mg.num()],
            ["push", rng.choice(["PU", "PB"]), v, mg.scalar(0)],
            ["push", "PB", it, mg.scalar(0)],
            ["pop", rng.choice(["PO", "DQ"]), v],
            ["pop", rng.choice(["PO", "DQ"]), it],
            ["inc", "U", it], ["inc", "D", v],
            ["cas", rng.choice(["AE", "AL", ".", "+"]), it, mg.num()],
            ["cas", rng.choice(["AE", "AL", "."]), v, mg.num()],
            ["swap", it, ["v", rng.choice("xyl")]],
            ["call", ["lam", [["push", "PB", ["v", "a"], mg.num()], it]],
             [v]], ["as", v, mg.any(1)]])

    def spice(self, rng, mg, stmts, names):
        gs = [n for n in names if n not in "abcdefg" and "_" not in n]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            stmts.insert(rng.randint(0, len(stmts)), self.update(
                rng, mg, rng.choice(gs + ["\\a", "\\g", "\\b"] * 3)))
        if rng.random() < .7:
            stmts.append(["WG"] if rng.random() < .6
                         else self.nested(rng, mg))

    def nested(self, rng, mg):
        """WG some calls, callbacks and loops deep."""
        e = ["WG"]
        for _ in range(rng.randint(1, 4)):
            pre = [self.update(rng, mg, rng.choice(self.globs))] \
                if rng.random() < .5 else []
            post = [mg.show()] if rng.random() < .5 else []
            post.append(["v", rng.choice("abg")])
            lam = ["lam", pre + [e] + post]
            e = rng.choice([
                ["call", lam, mg.args(1)], ["call", lam, mg.args(1)],
                ["hof", rng.choice(["M", "FI", "SK", "MU", "ME"]), lam,
                 [mg.list(0)]],
                ["LOOP", ["n", "2"], pre + [e]],
                ["FOR", rng.choice(["i", "x", "a"]), mg.list(0), pre + [e]],
                ["LR", ["p", rng.choice(["a", "[ab]", "."])],
                 ["s", rng.choice(["ab", "cabba", "a1b22"])], pre + [e]]])
        return e

    def add_work(self, rng, sg, mg):
        """WG comes late in an entry, alone, or in a function."""
        def make():
            ss = [mg.stmt(self.depth) for _ in range(rng.randint(1, 3))]
            if rng.random() < .3:
                ss.insert(0, self.update(rng, mg, rng.choice(
                    self.globs + PRE)))
            x = rng.random()
            if x < .3:
                ss.append(["WG"])
            elif x < .45:
                ss.append(["IF", ["n", "1"], [mg.stmt(1), ["WG"],
                                              mg.marker()], None])
            elif x < .6:
                ss.append(["call", ["lam", [mg.stmt(1), ["WG"], mg.show(),
                                            mg.stmt(1), ["v", "a"]]],
                           mg.args(1)])
            elif x < .7:
                ss.insert(0, ["WG"])
            elif x < .85:
                ss.append(self.nested(rng, mg))
            return ss
        return sg.work(make)


PROP = C15()
