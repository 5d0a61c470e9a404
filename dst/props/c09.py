"""C09: random results are legal for every outcome of the generator."""

import itertools
import random

from .. import util
from .. import session as S
from ..core import HarnessError
from ..runner import Prop

# Operands: ["n", int] | ["s", text] | ["l", [..]] | ["r", lo, hi] | ["nil"]


def src(v):
    if v[0] == "n":
        return str(v[1]) if v[1] >= 0 else "(" + str(v[1]) + ")"
    if v[0] == "s":
        return '"' + v[1] + '"'
    if v[0] == "l":
        return "[" + ";".join(src(x) for x in v[1]) + "]"
    if v[0] == "r":
        return f"({src(['n', v[1]])},{src(['n', v[2]])})"
    return "()"


def plain(v):
    """Python value: text for scalars, list for lists, None for nil."""
    if v[0] == "n":
        return str(v[1])
    if v[0] == "s":
        return v[1]
    if v[0] == "l":
        return [plain(x) for x in v[1]]
    if v[0] == "r":
        return ("range", str(v[1]), str(v[2]))
    return None


class Bad(Exception):
    pass


def parse(t):
    """Value of an RP text: scalars as text, lists, ranges, None for ()."""
    v, i = _parse(t, 0)
    if i != len(t):
        raise Bad(t)
    return v


def _parse(t, i):
    if i >= len(t):
        raise Bad(t)
    if t[i] == "[":
        out = []
        i += 1
        while True:
            if i < len(t) and t[i] == "]":
                return out, i + 1
            v, i = _parse(t, i)
            out.append(v)
            if i < len(t) and t[i] == ";":
                i += 1
            elif i >= len(t) or t[i] != "]":
                raise Bad(t)
    if t[i] == '"':
        j = t.index('"', i + 1)
        return t[i + 1:j], j + 1
    if t[i] == "(":
        if t[i:i + 2] == "()":
            return None, i + 2
        a, i = _parse(t, i + 1)
        if t[i] != ",":
            raise Bad(t)
        b, i = _parse(t, i + 1)
        if t[i] != ")":
            raise Bad(t)
        return ("range", a, b), i + 1
    j = i
    while j < len(t) and t[j] not in ";]),":
        j += 1
    return t[i:j], j


def elems(v):
    if isinstance(v, tuple):
        return [str(x) for x in range(int(v[1]), int(v[2]))]
    if isinstance(v, str):
        return list(v)
    return v


def is_int(t):
    return isinstance(t, str) and t.lstrip("-").isdigit()


def legal_rr(lo, hi, got):
    """lo, hi: plain bounds (lo may be the default '0')."""
    if isinstance(lo, tuple):
        lo = elems(lo)
    if isinstance(hi, tuple):
        hi = elems(hi)
    if isinstance(lo, list) or isinstance(hi, list):
        if isinstance(lo, list) and isinstance(hi, list):
            if not isinstance(got, list) or \
                    len(got) != max(len(lo), len(hi)):
                return False
            for k, g in enumerate(got):
                if k >= len(lo):
                    ok = norm(hi[k]) == norm(g)
                elif k >= len(hi):
                    ok = norm(lo[k]) == norm(g)
                else:
                    ok = legal_rr(lo[k], hi[k], g)
                if not ok:
                    return False
            return True
        big = hi if isinstance(hi, list) else lo
        if not isinstance(got, list) or len(got) != len(big):
            return False
        return all(legal_rr(lo[k] if isinstance(lo, list) else lo,
                            hi[k] if isinstance(hi, list) else hi, g)
                   for k, g in enumerate(got))
    return is_int(got) and int(lo) <= int(got) < int(hi)


def norm(v):
    return elems(v) if isinstance(v, tuple) else v


def canon(v):
    return repr(norm(v))


def legal(op, got):
    kind = op[0]
    if kind == "RR":
        return legal_rr("0", plain(op[1]), got)
    if kind == "RR2":
        return legal_rr(plain(op[1]), plain(op[2]), got)
    if kind == "RC":
        return canon(got) in map(canon, elems(plain(op[1])))
    if kind == "SH":
        want = plain(op[1])
        if isinstance(want, str):
            return isinstance(got, str) and sorted(got) == sorted(want)
        return isinstance(got, list) and \
            sorted(map(canon, got)) == sorted(map(canon, elems(want)))
    if kind == "r":
        try:
            return 0 <= float(got) < 1
        except (TypeError, ValueError):
            return False
    if kind == "rcmp":
        return got == ["1", "0", "1"]
    if kind == "many":
        return isinstance(got, list) and len(got) == op[2] and \
            all(legal(op[1], g) for g in got)
    raise HarnessError(kind)


def expr(op, names):
    kind = op[0]
    if kind == "RR":
        return f"(RR({names[0]}))"
    if kind == "RR2":
        return f"(({names[0]})RR({names[1]}))"
    if kind in ("RC", "SH"):
        return f"({kind}({names[0]}))"
    if kind == "r":
        return "r"
    if kind == "rcmp":
        return "[(r<1);(r<0);(0<=r)]"
    if kind == "many":
        inner = expr(op[1], names)
        return [f"({{{inner}}}M(,{op[2]}))",
                "[" + ";".join([inner] * op[2]) + "]",
                f"({{({inner})}}M[" + ";".join("1" * op[2]) + "])",
                f"(({inner})RL1)AL({{{inner}}}M(,{op[2] - 1}))",
                ][op[3]]


def operands(op):
    if op[0] == "many":
        return operands(op[1])
    return list(op[1:])


class C09(Prop):
    id = "C09"
    level = "exploration"
    quick_cases = 2000
    rule = ("case = random operations with operands of every shape x "
            "scripted raw outcomes of the generator (lowest, highest, "
            "middle, arbitrary fractions; rejected outcomes included), or "
            "one operation with few legal results x all raw outcomes (each "
            "result must be attained), or interrupted operations; "
            "nontrivial = distinct (operations, outcomes)")
    assumptions = ("integer bounds; operands without quote characters; "
                   "attainability is judged for operations with at most 24 "
                   "legal results",)
    max_steps = 60000

    # -- generation
    def bound(self, rng, lo):
        """An upper bound above `lo`."""
        return lo + rng.choice([1, 1, 2, 3, 5, 8, 10, 100, 2 ** 31,
                                10 ** 20, 10 ** 40, 2 ** 60 + 1, 10 ** 330])

    def hi(self, rng, d=2, lo=0):
        x = rng.random()
        if x < .55 or d == 0:
            n = self.bound(rng, lo)
            return ["n", n] if rng.random() < .8 else ["s", str(n)]
        if x < .65 and lo < 4:
            a = rng.randint(max(lo, 0) + 1, max(lo, 0) + 9)
            return ["r", a, a + rng.randint(1, 4)]
        return ["l", [self.hi(rng, d - 1, lo)
                      for _ in range(rng.randint(0, 4))]]

    def value(self, rng, d=2):
        x = rng.random()
        if x < .3 or d == 0:
            return ["n", rng.choice([0, 1, 7, 12345, 90, 100])]
        if x < .6:
            return ["s", rng.choice(["a", "ab", "abc", "aab", "x y", "abcdefgh",
                                     "\u00e9\u03bb", "zzz", "12 3", "[;]"])]
        if x < .7:
            a = rng.randint(-3, 3)
            return ["r", a, a + rng.choice([1, 2, 3, 5, 12, 33, 50, 70])]
        if x < .71:
            return ["s", "abcdefghij" * rng.randint(4, 7)]
        if x < .72:
            return ["l", [["n", k * 7] for k in range(rng.randint(30, 60))]]
        if x < .75:
            return ["nil"]
        return ["l", [self.value(rng, d - 1)
                      for _ in range(rng.randint(0, 5))]]

    def op(self, rng, d=1):
        x = rng.random()
        if x < .16:
            return ["RR", self.hi(rng)]
        if x < .40:
            y = rng.random()
            lo = rng.choice([0, 1, -5, 3, -1, 10, -10 ** 20, 2 ** 40])
            if y < .5:
                return ["RR2", ["n", lo], ["n", self.bound(rng, lo)]]
            if y < .65:
                return ["RR2", ["n", lo], self.hi(rng, 2, lo)]
            if y < .75:
                return ["RR2", ["r", 0, rng.randint(1, 5)],
                        ["n", rng.randint(5, 50)]]
            los = [rng.randint(-9, 9) for _ in range(rng.randint(0, 4))]
            lov = ["l", [["n", v] for v in los]]
            if y < .85:
                return ["RR2", lov, ["n", rng.randint(10, 99)]]
            his = [["n", self.bound(rng, v)] for v in los]
            z = rng.random()
            if z < .25 and his:
                his.pop()
            elif z < .5:
                his.append(["n", 77])
            return ["RR2", lov, ["l", his]]
        if x < .62:
            while True:
                v = self.value(rng)
                if v[0] != "nil" and elems(plain(v)):
                    return ["RC", v]
        if x < .84:
            while True:
                v = self.value(rng)
                if v[0] != "nil":
                    return ["SH", v]
        if x < .88:
            return ["r"]
        if x < .9 or d == 0:
            return ["rcmp"]
        return ["many", self.op(rng, 0), rng.randint(1, 5), rng.randrange(3)]

    def small(self, rng):
        """An operation with few legal results."""
        x = rng.random()
        if x < .2:
            return ["RR", ["n", rng.randint(1, 9)]]
        if x < .45:
            lo = rng.randint(-5, 12)
            return ["RR2", ["n", lo], ["n", lo + rng.randint(1, 9)]]
        if x < .7:
            return ["RC", rng.choice([
                ["s", "abcdefg"[:rng.randint(1, 7)]],
                ["r", -2, rng.randint(-1, 5)], ["n", 9812],
                ["l", [["n", 5], ["s", "x"], ["l", []], ["nil"]]
                 [:rng.randint(1, 4)]]])]
        return ["SH", rng.choice([
            ["s", "abc"[:rng.randint(1, 3)]],
            ["s", "wxyz"[:rng.choice([2, 3, 3, 4])]],
            ["r", 4, rng.randint(5, 7)], ["n", 123],
            ["l", [["n", 1], ["s", "a"], ["l", [["n", 2]]]]
             [:rng.randint(0, 3)]]])]

    def evenop(self, rng):
        """An operation whose results fall into few equally likely kinds."""
        if rng.random() < .7:
            while True:
                op = self.small(rng)
                if 2 <= self.count(op) <= 10:
                    return op
        lo = rng.choice([0, 0, 1, -5, -10 ** 20])
        return ["RR2", ["n", lo], ["n", lo + 8 * rng.choice(
            [2 ** 28 + 3, 2 ** 61 - 1, 10 ** 20, 10 ** 40, 10 ** 330])]]

    def adv(self, rng):
        x = rng.random()
        n = rng.choice([3, 10, 60])
        if x < .15:
            return ["hi"] * n
        if x < .3:
            return ["lo"] * n
        if x < .4:
            return ["prng"]
        if x < .55:
            return [rng.choice(["lo", "hi", "mid", "tiny"])
                    for _ in range(n)]
        if x < .7:
            f = rng.random()
            return [f] * n
        return [rng.choice([rng.random(), rng.randrange(64) / 64., "hi",
                            "lo"]) for _ in range(n)]

    def gen(self, rng, i):
        mode = rng.choice(["legal"] * 16 + ["all"] * 6 + ["cut"] * 6
                          + ["even"])
        ops = [self.op(rng) for _ in range(rng.randint(1, 6))]
        if mode == "all":
            ops = [self.small(rng)]
        elif mode == "even":
            ops = [self.evenop(rng)]
        return {"mode": mode, "ops": ops, "entropy": rng.randrange(10 ** 6),
                "advs": [self.adv(rng) for _ in range(4)],
                "literal": rng.random() < .2, "seed": mode != "all" and rng.random() < .1,
                "where": rng.choice(["top", "top", "fun", "loop"]),
                "cuts": [[rng.random(), rng.choice(["KeyboardInterrupt",
                                                    "MemoryError"])]
                         for _ in range(3)]}

    # -- programs
    def stmts(self, case, k, op):
        names, setup = [], []
        ops = operands(op)
        for j, v in enumerate(ops):
            if case["literal"]:
                names.append(src(v))
            else:
                names.append(f"$v{j}")
                setup.append(f"($v{j}:{src(v)});($w{j}:$v{j})")
        e = expr(op, names)
        after = "[" + ";".join(names + [f"$w{j}" for j in range(len(ops))
                                        if not case["literal"]]) + "]"
        return setup, f'(O"<<");(O RP({e}))', f'(O"||");(P RP({after}));' \
            '(O">>")'

    def program(self, case):
        out = ["(r:7)"] if case["seed"] else []
        for k, op in enumerate(case["ops"]):
            setup, a, b = self.stmts(case, k, op)
            out += setup
            body = a + ";" + b
            if case["where"] == "fun" and setup:
                out.append("({" + body + ";()}1)")
            elif case["where"] == "loop" and setup:
                out.append("Fi,1{" + body + "}")
            else:
                out.append(body)
        return ";".join(out) + ";()"

    def judge(self, op, part, case):
        res, sep, after = part.partition("||")
        if not sep:
            return "no result: " + part[:100]
        try:
            got = parse(res)
            aft = parse(after.rstrip("\n"))
        except (Bad, ValueError, IndexError):
            return "unreadable: " + part[:200]
        if not legal(op, got):
            return "illegal result " + res[:200]
        want = [plain(v) for v in operands(op)]
        if not case["literal"]:
            want = want * 2
        if aft != want:
            return f"operand changed: {after[:200]}"
        return None

    def check(self, case, ctx):
        if case["mode"] == "cut":
            return self.check_cut(case, ctx)
        if case["mode"] == "even":
            return self.check_even(case, ctx)
        prog = self.program(case)
        spec = {"argv": ["-e", prog], "max_steps": self.max_steps}
        advs = case["advs"]
        if case["mode"] == "all":
            op = case["ops"][0]
            n = 1 if op[0] != "SH" else \
                max(1, len(elems(plain(op[1]))) - 1)
            fr = [(2 * j + 1) / 32. for j in range(16)] if n == 1 else \
                [(2 * j + 1) / 16. for j in range(8)]
            advs = [list(t) for t in itertools.product(fr, repeat=n)]
        seen = set()
        for j, adv in enumerate(advs):
            # (outcomes after the scripted ones vary as well)
            r = ctx.one(spec, case["entropy"] + j, adv)
            if r.status == "steplimit":
                ctx.skipped += 1
                return None
            parts = r.text().split("<<")[1:]
            info = {"prog": prog, "adv": adv[:6], "status": r.status,
                    "err": r.errtext()[-200:], "out": r.text()[-200:]}
            if r.status != 0 or len(parts) != len(case["ops"]):
                return {"class": "failed", "detail": info,
                        "frozen": self.freeze(case, adv, j)}
            ctx.nontriv((prog, str(adv)))
            for op, part in zip(case["ops"], parts):
                part = part.split(">>")[0]
                why = self.judge(op, part, case)
                if why:
                    return {"class": why.split(":")[0].split(" ")[0],
                            "detail": [why, op, info],
                            "frozen": self.freeze(case, adv, j)}
                seen.add(part.partition("||")[0])
        if case["mode"] == "all":
            want = self.count(case["ops"][0])
            ctx.probe("operations with all results attained")
            if len(seen) != want:
                return {"class": "not-attainable", "detail": {
                    "prog": prog, "attained": sorted(seen),
                    "legal": want}}
        return None

    def freeze(self, case, adv, j):
        return dict(case, mode="legal", advs=[adv],
                    entropy=case["entropy"] + j)

    def count(self, op):
        """Number of distinct legal results."""
        if op[0] == "RR":
            return op[1][1]
        if op[0] == "RR2":
            return op[2][1] - op[1][1]
        els = [canon(x) for x in elems(plain(op[1]))]
        if op[0] == "RC":
            return len(set(els))
        return len(set(itertools.permutations(els)))

    def check_even(self, case, ctx):
        """No legal result is favoured: many draws from the plain generator,
        judged by chi-square with a bound that chance does not reach."""
        op = case["ops"][0]
        e = expr(op, [src(v) for v in operands(op)])
        per = 150
        wide = op[0] == "RR2" and op[2][1] - op[1][1] > 1000
        k = 8 if wide else self.count(op)
        n = per * k
        if op[0] == "RC" and len(elems(plain(op[1]))) != k:
            return None
        counts = {}
        prog = f"L{n}{{(O\"<\");(O RP({e}))}}"
        r = ctx.one({"argv": ["-e", prog], "max_steps": 10 * self.max_steps},
                    case["entropy"])
        if r.status == "steplimit":
            ctx.skipped += 1
            return None
        got = r.text().split("<")[1:]
        info = {"prog": prog, "status": r.status, "err": r.errtext()[-200:]}
        if r.status != 0 or len(got) != n:
            return {"class": "failed", "detail": info}
        ctx.nontriv(("even", prog, case["entropy"]))
        for g in got:
            g = g.strip()
            if wide:
                v = int(g) - op[1][1]
                # its lowest digits and its highest ones
                for key in (("low", v % 8),
                            ("high", v * 8 // (op[2][1] - op[1][1]))):
                    counts[key] = counts.get(key, 0) + 1
            else:
                counts[g] = counts.get(g, 0) + 1
        groups = [[c for key, c in counts.items() if key[0] == w]
                  for w in ("low", "high")] if wide else \
            [list(counts.values())]
        for cs in groups:
            chi = sum((c - per) ** 2 for c in cs) / per \
                + per * (k - len(cs))
            # (mean k - 1, deviation about sqrt(2k))
            if chi > k + 80:
                return {"class": "not-even", "detail": [chi, counts and {
                    str(a): b for a, b in counts.items()}, info]}
        return None

    def check_cut(self, case, ctx):
        """An interrupted operation leaves its operands unchanged."""
        case = dict(case, literal=False)
        ents = []
        marks = []
        for k, op in enumerate(case["ops"]):
            setup, a, b = self.stmts(case, k, op)
            if setup:
                ents.append(";".join(setup))
            marks.append(len(ents))
            ents.append(a + ";(O\"||\")")
            ents.append(b)
        spec = {"argv": ["-R"], "max_steps": self.max_steps,
                "stdin": util.lines_to_items(ents)}
        adv = case["advs"][0]
        base = ctx.one(spec, case["entropy"], adv)
        segs = S.segments(base)[1:]
        if base.status != 0 or len(segs) != len(ents) + 1:
            if base.status == "steplimit":
                ctx.skipped += 1
                return None
            return {"class": "failed", "detail": [ents, base.errtext()[-300:]]}
        for x, kind in case["cuts"]:
            rng = random.Random(f"cut{x}")
            if isinstance(x, int):
                at = x
            else:
                k = rng.choice(marks)
                # after the first output of the entry, up to its last
                pr = [s for s, d in segs[k]["prints"]
                      if d != "\n" and not d.endswith(S.PROMPT)]
                if len(pr) < 2 or pr[-1] <= pr[0]:
                    continue
                at = rng.randint(pr[0] + 1, pr[-1])
            r = ctx.one(dict(spec, inject=[[at, kind]]), case["entropy"], adv)
            if not r.fired:
                continue
            ctx.nontriv((str(ents), at, kind))
            s2 = S.segments(r)[1:]
            info = {"ents": ents, "fired": r.fired, "status": r.status,
                    "out": r.text()[-300:]}
            fz = dict(case, cuts=[[at, kind]])
            if r.status != 0 or len(s2) != len(segs):
                return {"class": "session-ended", "detail": info,
                        "frozen": fz}
            for op, k in zip(case["ops"], marks):
                if not operands(op):
                    continue
                aft = s2[k + 1]["text"].split("||", 1)[-1] \
                    .split("\n")
                # the display of the O statement repeats its value
                txt = [t for t in aft if t.startswith("[")]
                want = [plain(v) for v in operands(op)] * 2
                try:
                    ok = txt and parse(txt[0]) == want
                except (Bad, ValueError, IndexError):
                    ok = "[;]" in str(txt)
                if not ok:
                    return {"class": "operand-changed-by-cut",
                            "detail": [txt[:2], want, info], "frozen": fz}
        return None

    def shrink(self, case):
        for k in ("advs", "cuts"):
            if len(case[k]) > 1:
                for a in case[k]:
                    yield dict(case, **{k: [a]})
        for o in util.shrink_list(case["ops"]):
            if o:
                yield dict(case, ops=o)
        for k, v in (("literal", False), ("seed", False), ("where", "top")):
            if case[k] != v:
                yield dict(case, **{k: v})
        for j, o in enumerate(case["ops"]):
            if o[0] == "many":
                yield dict(case, ops=case["ops"][:j] + [o[1]]
                           + case["ops"][j + 1:])


PROP = C09()
