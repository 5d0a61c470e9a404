"""C08: a seeded program is exactly reproducible."""

import random
import re

from .. import session as S
from .. import util
from ..core import HarnessError
from ..gen import G
from ..runner import Prop

SEEDS = ["5", "0", "42", '"abc"', '"5"', "-1", "2.5", "(2,5)", "[1;2]", "()",
         '""', "123456789012345678901234567890", '"\u03bb"', "{a}", "`x`",
         "[[1];\"a\"]", "1000", "7", "(1=1)", '"  "', "{O1;r}", "[{b};`y`]"]
SAME = [["5", '"5"', "(2+3)", "($sd:5)", '(""."5")', "(#\"abcde\")"],
        ['"abc"', '("a"."bc")', '(LC"ABC")', '(RV"cba")'],
        ["12", '("1"."2")', "(3*4)", '(12."")']]
FORMS = ["(r:{s})", "(r:{s})", "(r:{s})", "($t:{s});(r::$t)",
         "($t:{s});($t::r)", "([r;$t]:[{s};1])", "Fr[{s}]{{()}}",
         "({{r:a}}({s}))", "({{r:a}}M[{s}])", "(r:1);(r:{s})",
         "(r:{s});(r:{s})", "(1?(r:{s})(2))", "L1{{(r:{s})}}",
         "I1{{(r:{s})}}", "($t:(r:{s}))", "[(r:{s})]", "(0|(r:{s}))",
         "(r:{s});WG", "(r:{s});(RR9);(r:{s})"]
DRAWS = ["(RR10)", "(RR1000000)", "(5RR99)", "((-5)RR5)", "r", "r", "(r*9)",
         '(RC"abcdefgh")', "(RC,99)", "(RC[4;5;6;7])", "(SH,9)",
         '(SH"abcdef")', "(SH[1;2;3;4])", "(RR[3;40;500])", "((,3)RR9)",
         "(3RR[40;90])", "(RR*[30;40])", "({r}M,3)", "({RR(a+5)}M,4)",
         "([r;RR9;RC,5])", "({RR9}SK,5)", "({r>.5}FI,9)", "(SH*[,4;,5])",
         "(RC*[,4;,5])", "(RC[,7;,3])", "({RR99}MC2)", "(\"aaa\"R`a`{RR9})",
         "(V\"RR99\")", "(RC({a}M,9))", "(RR(RR99+2))", "(SH(SH,5))",
         "((RR5)RR(RR5+9))", "(SH(1,99)@(,5))", "(RC({r}M,3))",
         "({(a>0)?(RR9).(f(a-1))r}3)", "($+({r}M,5))", "(SH[\"ab\";[1;2];()])",
         "({SK(RR9)}M,3)", "(RC(SH,20))", "(r<r)", "(SH 12345)", "(RC 9081)"]
NOISE = ["(O\"n\")", "($n:5)", "($n:[3;1;2])", "(SN[3;1;2])", "({a}SK[3;1;2])",
         "(\"b\"R`b`\"c\")", "L3{($m:2)}", "Fi,3{(O i)}", "({a.b}M,3)",
         "(UQ[1;1;2])", "(5PB3)", "(-5%3)", "(\"ab\"X3)", "(V\"1+1\")",
         "I(1){($m:3)}EL{($m:4)}", "(RV[1;2;3])", "(FX[0;1])", "({RE(a-1)}0)",
         "(PM[1;2;3])", "q", "($m:q)", "($n:(TB99))", "(2**9)", "(PI*2)",
         "(E5)", "(SI1)", "({a>1}FI,5)", "([1;2]CP[3;4])", "(UQ({a%3}M,9))",
         "(\"abc\"~`b`)", "({f}1)", "(ZG3)", "(1TR[2]3)", "(A\"b\")",
         "(CG3)", "(EY2)", "(MX[1;5])", "(FA\"ab\")"]


def token(expr):
    return '(O"<<");(O RP(' + expr + '));(O">>")'


def tokens_of(text):
    return re.findall("<<(.*?)>>", text, re.S)


class C08(Prop):
    id = "C08"
    level = "exploration"
    quick_cases = 2000
    rule = ("case = seed expression x way of assigning it x random "
            "operations, run after different programs, REPL entries (also "
            "failed and interrupted ones), earlier runs in the process, "
            "entropies, clocks and hash seeds, with draw-free statements in "
            "between; nontrivial = distinct (seeding, draws, variant)")
    assumptions = ("equal seeds means equal text of the value",)
    max_steps = 30000

    def gen(self, rng, i):
        mode = rng.choice(["seeded"] * 8 + ["repl"] * 4 + ["unseeded"] * 2)
        seeds = [rng.choice(SEEDS)]
        if rng.random() < .25:
            seeds = rng.sample(rng.choice(SAME), 2)
        return {
            "mode": mode, "seeds": seeds, "form": rng.choice(FORMS),
            "draws": [rng.choice(DRAWS) for _ in range(rng.randint(1, 6))],
            "variants": [self.variant(rng) for _ in range(4)],
            "entropy": rng.randrange(1000)}

    def variant(self, rng):
        g = G(rng, effects=.2, depth=2)
        return {"prefix": [rng.choice(["(r:3)", "(RR5)", "r", "(SH,5)",
                                       "(r:r)", "@same", "@same;(RR9)",
                                       "@same;(SH,5);r", g.stmt(), g.stmt(),
                                       rng.choice(NOISE)])
                           for _ in range(rng.randint(0, 4))],
                "noise": [[rng.random(), rng.choice(NOISE)]
                          for _ in range(rng.randint(0, 4))],
                "entropy": rng.randrange(10 ** 6),
                "earlier": [self.earlier(rng) for _ in range(
                    rng.choice([0, 0, 1, 2]))],
                "peer": rng.random() < .3,
                "entry": rng.choice(["e", "e", "f", "run", "pip"]),
                "cut": rng.random() if rng.random() < .6 else None,
                "kind": rng.choice(["KeyboardInterrupt", "MemoryError"])}

    def earlier(self, rng):
        return [rng.choice(["(r:3);(RR9)", "(RR9)", "r", "(SH,9);(C(-1))",
                            "(r:9);(C(-1))", "L99{(RR9)}", "(r:5)"]),
                rng.choice([None, None, rng.randrange(200)])]

    # -- specs
    def program(self, case, seed, var):
        rng = random.Random(str(var["noise"]))
        body = [token(d) for d in case["draws"]]
        for x, n in var["noise"]:
            body.insert(int(x * (len(body) + 1)), n)
        del rng
        return ";".join(self.prefix(case, seed, var)
                        + ['(O"@@")', case["form"].format(s=seed)]
                        + body + ["()"])

    def prefix(self, case, seed, var):
        """What ran before the seeding; @same stands for the same seeding."""
        return [p.replace("@same", case["form"].format(s=seed))
                for p in var["prefix"]]

    def spec(self, src, entry="e"):
        spec = {"max_steps": self.max_steps,
                "stdin": util.lines_to_items(["l1", "22"])}
        if entry in ("e", "f"):
            if entry == "f":
                spec["argv"] = ["-f", "p.pip"]
                spec["files"] = {"p.pip": {"data": util.b2s(src)}}
            else:
                spec["argv"] = ["-e", src]
        else:
            spec.update(entry=entry, code=src, args=[])
        return spec

    def specs(self, case, seed, var):
        out = []
        for src, at in var["earlier"]:
            s = self.spec(src, "run")
            if at is not None:
                s["inject"] = [[at, "KeyboardInterrupt"]]
            out.append(s)
        out.append(self.spec(self.program(case, seed, var), var["entry"]))
        return out

    def run_var(self, case, seed, var, ctx):
        """-> (printed text, status, err)"""
        specs = self.specs(case, seed, var)
        if var["peer"]:
            r = ctx.peer(specs, var["entropy"])[-1]
            text = "".join(e[1] for e in r["effects"] if e[0] == "print")
            return text, r["status"], r["err"]
        proc = ctx.sim.process(var["entropy"])
        for s in specs:
            r = ctx.run(proc, s)
        text = "".join(e[1] for e in r.effects() if e[0] == "print")
        return text, r.status, r.errtext()

    PLAIN = {"prefix": [], "noise": [], "earlier": [], "peer": False,
             "entry": "e", "cut": None}

    def check(self, case, ctx):
        if case["mode"] == "unseeded":
            return self.unseeded(case, ctx)
        plain = dict(self.PLAIN, entropy=case["entropy"])
        text, status, err = self.run_var(case, case["seeds"][0], plain, ctx)
        if status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        want = tokens_of(text)
        if status == 0 and len(want) != len(case["draws"]):
            raise HarnessError("draw tokens: %r" % text[:300])
        if status != 0:
            ctx.skipped += 1
            return None
        if case["mode"] == "repl":
            return self.repl(case, ctx)
        for var in case["variants"]:
            for seed in case["seeds"]:
                text, st, err = self.run_var(case, seed, var, ctx)
                if "@@" not in text or st == "steplimit":
                    ctx.probe("prefix ended the program")
                    continue
                got = tokens_of(text.split("@@")[-1])
                ctx.nontriv((case["form"], seed, tuple(case["draws"]),
                             str(var)))
                if got != want or st != status:
                    return {"class": "not-reproducible", "detail": {
                        "seed": seed, "form": case["form"],
                        "draws": case["draws"],
                        "got": util.short(got, 400),
                        "want": util.short(want, 400),
                        "status": [st, status], "err": err[-300:]},
                        "frozen": dict(case, variants=[var],
                                       seeds=sorted({case["seeds"][0], seed},
                                                    key=case["seeds"].index))}
        return None

    def unseeded(self, case, ctx):
        """Without a seed the outcome depends on entropy and goes on from
        run to run, whatever was seeded in earlier runs."""
        src = '(O"@@");' + ";".join(token("(RR1000000)") for _ in range(4)) \
            + ";()"
        seen = set()
        n = 0
        for var in case["variants"]:
            v = dict(var, prefix=[], noise=[], peer=False)
            proc = ctx.sim.process(v["entropy"])
            for s in self.specs(dict(case, draws=[]), "1", v)[:-1]:
                ctx.run(proc, s)
            for _ in range(2):
                r = ctx.run(proc, self.spec(src, v["entry"]))
                t = tuple(tokens_of(r.text().split("@@")[-1]))
                if r.status != 0 or len(t) != 4:
                    return {"class": "unseeded-run", "detail": [
                        r.status, r.errtext()[-300:]]}
                seen.add(t)
                n += 1
            ctx.nontriv(("unseeded", str(v)))
        if len(seen) < n and len({v["entropy"] for v in case["variants"]}) \
                == len(case["variants"]):
            return {"class": "unseeded-repeats", "detail": {
                "runs": n, "distinct": len(seen),
                "outcomes": sorted(map(list, seen))[:4]}}
        return None

    # -- REPL sessions
    def entries(self, case, seed, var):
        """-> list of (entry, may be cut short)"""
        out = [(p, True) for p in self.prefix(case, seed, var)]
        out += [('(O"@@")', False), (case["form"].format(s=seed), False)]
        body = [(token(d), False) for d in case["draws"]]
        for x, n in var["noise"]:
            body.insert(int(x * (len(body) + 1)),
                        (n if "q" not in n else "(1)", True))
        # no entry of one line reads or spans lines
        return [(e, c) for e, c in out + body if "\n" not in e
                and not re.search(r"(?<![A-Za-z$])q(?![A-Za-z])", e)]

    def repl(self, case, ctx):
        seqs = []
        for var in [dict(self.PLAIN, entropy=case["entropy"], kind="")] \
                + case["variants"]:
            for seed in case["seeds"]:
                ents = self.entries(case, seed, var)
                spec = {"argv": ["-R"], "max_steps": self.max_steps,
                        "stdin": util.lines_to_items(
                            [util.b2s(e) and e for e, _ in ents])}
                if var["cut"] is not None:
                    spec = self.cut(spec, ents, var, ctx)
                proc = ctx.sim.process(var["entropy"])
                for s in self.specs(case, seed, var)[:-1]:
                    ctx.run(proc, s)
                r = ctx.run(proc, spec)
                text = r.text()
                if r.status != 0 or "@@" not in text:
                    ctx.probe("session not comparable")
                    continue
                t = tokens_of(text.split("@@")[-1])
                # an entry's echo of its values is not a draw
                seqs.append((t, var, seed))
                ctx.nontriv(("repl", case["form"], seed,
                             tuple(case["draws"]), str(var)))
                if t != seqs[0][0]:
                    return {"class": "not-reproducible-repl", "detail": {
                        "entries": [e for e, _ in ents][:12],
                        "cut": r.fired, "got": util.short(t, 400),
                        "want": util.short(seqs[0][0], 400)},
                        "frozen": dict(case, variants=[var])}
        return None

    def cut(self, spec, ents, var, ctx):
        """Interrupt one of the entries that may be cut."""
        idx = [k for k, (_, c) in enumerate(ents) if c]
        if not idx:
            return spec
        base = ctx.one(spec, var["entropy"])
        segs = S.segments(base)[1:]
        rng = random.Random(f"cut{var['cut']}")
        k = rng.choice(idx)
        if k >= len(segs) or not segs[k]["prints"]:
            return spec
        seg = segs[k]
        # surely inside of the entry's execution: after its first output and
        # no later than its last
        pr = [s for s, d in seg["prints"] if not d.endswith(S.PROMPT)
              and d not in ("\n",)]
        if len(pr) < 2 or pr[0] >= pr[-1]:
            return spec
        at = rng.randint(pr[0] + 1, pr[-1])
        return dict(spec, inject=[[at, var["kind"]]])

    def shrink(self, case):
        if len(case["variants"]) > 1:
            for v in case["variants"]:
                yield dict(case, variants=[v])
        else:
            for v in case["variants"]:
                for k in ("prefix", "noise", "earlier"):
                    for s in util.shrink_list(v[k]):
                        yield dict(case, variants=[dict(v, **{k: s})])
                if v["peer"]:
                    yield dict(case, variants=[dict(v, peer=False)])
                if v["entry"] != "e":
                    yield dict(case, variants=[dict(v, entry="e")])
                if v["cut"] is not None:
                    yield dict(case, variants=[dict(v, cut=None)])
        if len(case["seeds"]) > 1:
            for s in case["seeds"]:
                yield dict(case, seeds=[s])
        for d in util.shrink_list(case["draws"]):
            if d:
                yield dict(case, draws=d)
        if case["form"] != FORMS[0]:
            yield dict(case, form=FORMS[0])


PROP = C08()
