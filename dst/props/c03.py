"""C03: a failed REPL statement keeps the session state intact."""

from ._sess import SessionProp, choose_step, fault_window
from .. import session as S
from .. import util
from ..wild import Wild, LVALS, BIN, UN, NUMS, ATOMS, SMALL

VARS = ["x", "y", "l", "i", "z", "$u1", "a", "w"]
VALS = ['"abc"', '""', "[]", "[1;2;3;4]", '[1;"a";()]', "[[1;2];[3;[4;5]]]",
        '["ab";"c"]', "12", "-3", "2.5", "[{a};1]", "[(1,3);[2]]", "()",
        "`a+`", "{a+b}", "[[]]", '["a1";[2;"b"];3]',
        "(2,6)", ",5", "(2,6)", "[,3;9]"]
IDX = ["0", "1", "-1", "5", "2", "()", '"k"', "[0;1]", "(1,2)", "(0,9)",
       "(2,())", "{a}", "`a`", "[]", "(1,1)", "2.5"]
VALUES = ATOMS + VALS + NUMS + ["(1,())", "[9;8;7]", '"zz"', "[[7]]"]
OPS = [o for o in BIN if o not in (":", "::", "PU", "PB", "PK", "FI", "FN",
                                   "FE", "FU", "FX", "FJ", "SK", "DK", "V")
       and not o.startswith("M")] + ["AE", "AL", "PE", "RM", "@", "^", "+"]


class C03(SessionProp):
    id = "C03"
    quick_cases = 2000
    fault_rate = 0.95
    schedules = 4
    deep_rate = 0.06
    rule = SessionProp.rule + (
        "; and sessions whose statement is one update of a variable with "
        "arbitrary operands (any operator, index and value), failing on its "
        "own or cut short by a fault: every variable keeps its old value, or "
        "(only when cut short) has the value of the complete update")

    def gen(self, rng, i):
        if rng.random() < .4:
            return self.gen_atomic(rng)
        return super().gen(rng, i)

    def gen_atomic(self, rng):
        p = rng.choice
        setup = [f"({v}:{p(VALS)})" for v in VARS]
        stms = []
        for _ in range(rng.randint(3, 9)):
            v = p(VARS)
            if rng.random() < .6:
                v = f"({v}@({p(IDX)}))"
                if rng.random() < .3:
                    v = f"({v[1:-1]}@({p(IDX)}))"
            x = rng.random()
            if x < .35:
                s = f"({v}:({p(VALUES)}))"
            elif x < .6:
                s = f"({v}{p(OPS)}:({p(SMALL)}))"
            elif x < .75:
                s = f"({v}{p(['PU', 'PB', 'PK'])}({p(VALUES)}))"
            else:       # not :: and [x;y]:, which are several updates
                s = f"({p(['PO', 'DQ', 'U', 'D', '++', '--'])}({v}))"
            stms.append(s)
        return {"setup": setup, "stms": stms,
                "kind": p(["KeyboardInterrupt", "MemoryError"]),
                "cuts": [[rng.randrange(len(stms)), rng.random()]
                         for _ in range(4)]}

    # one statement is cut or fails by itself; the state before and after it
    PROBE = "[" + ";".join(VARS) + "]"

    def aspec(self, case):
        lines = list(case["setup"]) + [self.PROBE]
        for s in case["stms"]:
            lines += [f'(O"<");{s};(O">")', self.PROBE]
        return {"argv": ["-R"], "stdin": util.lines_to_items(lines),
                "max_steps": self.max_steps}

    def states(self, case, r):
        """(probe text, statement's text and stderr) for each statement."""
        if r.status != 0:
            return None
        segs = S.segments(r)[1:]
        n0 = len(case["setup"])
        n = len(case["stms"])
        if len(segs) != n0 + 2 + 2 * n:
            return None
        return segs[n0:-1]

    def check(self, case, ctx):
        if "stms" not in case:
            return super().check(case, ctx)
        if not case["stms"]:
            return None
        base = ctx.one(self.aspec(case), 0, trace=True)
        segs = self.states(case, base)
        if segs is None:
            ctx.skipped += 1
            return None
        for j, s in enumerate(case["stms"]):
            st, old, new = segs[2 * j + 1], segs[2 * j], segs[2 * j + 2]
            if ">" in st["text"].replace(">> ", ""):
                continue
            # failed by itself
            ctx.nontriv(("atomic", s, old["text"]))
            ctx.probe("updates that failed")
            if old["text"] != new["text"]:
                return {"class": "half-modified", "frozen":
                        dict(case, cuts=[]), "detail": [
                            s, old["text"], new["text"], st["err"]]}
        for j, x in case["cuts"]:
            if j >= len(case["stms"]):
                continue
            if isinstance(x, int):
                step = x
            else:
                win = fault_window(base, segs[2 * j + 1])
                if win is None or win[1] <= win[0]:
                    continue
                step = choose_step(base, win[0], win[1], x)
            r = ctx.one(dict(self.aspec(case),
                             inject=[[step, case["kind"]]]), 0)
            cut = self.states(case, r)
            if cut is None or not r.fired:
                continue
            new = self.values(segs[2 * j + 2]["text"])
            old = self.values(segs[2 * j]["text"])
            got = self.values(cut[2 * j + 2]["text"])
            if None in (new, old, got):
                ctx.skipped += 1
                continue
            ctx.nontriv(("atomic", case["stms"][j], step, old))
            ctx.probe("updates cut short")
            for k, v in enumerate(VARS):
                if got[k] not in (old[k], new[k]):
                    return {"class": "half-modified:cut", "frozen":
                            dict(case, cuts=[[j, step]]), "detail": [
                                case["stms"][j], v, old[k], got[k], new[k],
                                r.fired]}
        return None

    def values(self, text):
        """Items of a displayed list, or None if it was not displayed."""
        t = text.partition("\n>> ")[0]
        if not (t.startswith("[") and t.endswith("]")):
            return None
        out, depth, cur, q, k = [], 0, "", "", 1
        while k < len(t) - 1:
            c = t[k]
            if q:
                if c == q:
                    q = ""
            elif c in "\"`":
                q = c
            elif c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            if c == ";" and depth == 0 and not q:
                out.append(cur)
                cur = ""
            else:
                cur += c
            k += 1
        out.append(cur)
        return out if len(out) == len(VARS) else None

    def shrink(self, case):
        if "stms" not in case:
            yield from super().shrink(case)
            return
        if not any(isinstance(x, int) for _, x in case["cuts"]):
            for s in util.shrink_list(case["stms"]):
                yield dict(case, stms=s)
            for s in util.shrink_list(case["setup"]):
                yield dict(case, setup=s)
        elif case["cuts"]:
            j = case["cuts"][0][0]
            if len(case["stms"]) > 1:
                s = case["stms"][j]
                yield dict(case, stms=[s],
                           cuts=[[0, (k + .5) / 20] for k in range(20)])
                yield dict(case, stms=case["stms"][:j + 1],
                           cuts=[[j, (k + .5) / 20] for k in range(20)])


PROP = C03()
