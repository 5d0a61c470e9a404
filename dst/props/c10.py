"""C10: runs in one process do not affect each other."""

import random
import re

from .. import util
from ..gen import G
from ..runner import Prop
from ..wild import Wild
from .c02 import BAD

SHOWS = ["(O RP[h;i;k;l;m;n;o;p;s;t;u;v;w;x;y;z])", "(O[1;[2;3]])",
         "(P[1;[2;\"a\"]])", "(O RP[_;B;G;AZ;CZ;PA;PI])",
         "(O RP[VW;VY;XA;XC;XD;XI;XL;XN;XU;XV;XW;XX;XY])",
         "(O RP[a;b;c;d;e;f;g])", "(O RP[\\a;\\b;\\g;\\f])",
         "(O RP[$0;$1;$$;$(;$);$[;$];$`;$'])", "(O RP[$_;$__;$___])",
         "(O(f.[1]))", "(x+:1;O x)", "(l PU 3;O l)", "(O \"a\" X 3)",
         "(O [])", "(O().1)", "(P())", "(O (,3))", "(P{a})", "(P`a`)",
         "(O 1/0)", "(O(\"b\"R`b`\"c\"))", "({x:a}5)", "({b:a;RP[a;b]}5)",
         "(O{a}5)", "(y.:\"k\";O y)", "(O RP $x)", "(O RP[BB;ZZ;$v;$w1])"]
POLLUTE = ["(h:5);(i:6);(l:[9])", "(l PU 1)", "(x:\"zz\")", "(\"ab\"~`(b)`)",
           "(_:{9})", "(AZ:1)", "(u:3)", "(z@0:9)", "(VW:7)", "(PI:3)",
           "(w:`q`)", "({x:a;y:b;f}1)", "(n:\"N\")", "(s:\"S\")",
           "(k:\"K\");(p:4)", "(t:2)", "(XD:`z`)", "(m:0);(o:0);(v:0)",
           "([h;i]:[1;2])", "(h::i)", "(Yl)", "(U h)", "(D t)", "(l@<:1)",
           "(BB:3);(ZZ:4);($v:5);($w1:6)", "WG", "(r:3)", "(UQ[3;1;2])",
           "(C(-1))", "(RC\"\")", "($2:9)", "($_:3)", "(a:9);(b:[a])"]
# The same texts used in different ways: whatever is remembered between runs
# under too short a key shows.
SAME = ["(O(\"aXbA\u00e9\"R({0}`[ab]`)\"_\"))", "(O(\"aXbA\"~({0}`a.`)))",
        "(O RP(({0}`\\w`)@\"\u00e9a_\"))", "(O(\"x\nA\"R({0}`.`)'.))",
        "(O RP(\"a\nb\"@({0}`^.`)))", "(O RP(\"Abab\"^({0}`a`)))",
        "(O RP({{a}}MR({0}`a|b`)\"AbaB\"))", "(O RP({0}`a`))",
        "LR({0}`[a-b]`)\"aAb\"{{(O $0)}}", "(O RP({0}\"a\"))",
        "(O RP({0}12))", "(O RP({0}[1;\"ab\"]))", "(O RP({0}`A`))",
        "(x:({0}`b`));(O RP(\"aBb\"R x 1))", "(O RP(({0}`a+`).`b`))",
        "(O RP(({0}`a|b`)N\"ABab\"))", "(O RP(\"1a2A3\"^({0}`a`)))",
        "(O RP(V\"{0}12\"))", "(O RP({{({0}a)}}(`a`)))", "(O RP({0}\"12\"))"]
PREFIX = ["", "-", ",", ".", "A", "+", "#", "RV", "U", "ST", "RP", "X", "C",
          "\\,", "/", "!", "LC", "UC", "K", "TM"]
FLAGS = [[], [], ["-p"], ["-l"], ["-s"], ["-S"], ["-n"], ["-P"], ["-w"],
         ["-v"], ["-d"], ["-pw"]]


class C10(Prop):
    id = "C10"
    level = "exploration"
    quick_cases = 3000
    rule = ("case = a run (program or REPL session, any flags and way of "
            "starting) after a history of other runs in the process (also "
            "failed, interrupted at any point, with failing devices) and in "
            "another process with another hash seed, compared with the same "
            "run in a fresh process; nontrivial = distinct (run, history)")
    assumptions = ("unseeded random results are outside (C08)",)
    max_steps = 25000

    def gen(self, rng, i):
        g = G(rng, effects=.3, depth=rng.choice([2, 3]),
              draws=False)
        parts = g.program(rng.randint(1, 4))
        for _ in range(rng.randint(1, 4)):
            parts.insert(rng.randrange(len(parts) + 1), rng.choice(SHOWS))
        if rng.random() < .5:
            parts += self.same(rng)
        if rng.random() < .3:
            w = Wild(rng)
            parts += [w.stmt() for _ in range(rng.randint(1, 4))]
        if rng.random() < .2:
            parts = ["(r:%d)" % rng.randrange(9)] + parts + [
                "(O RR99)", "(O RP SH,5)"]
        deep = rng.random() < .08
        if deep:
            # down to the end of the stack
            parts.append(rng.choice([
                "({O\".\";(fa)}1)", "({O\".\";(f[a])}[1;2])",
                "({O\".\";(1+(fa))}1)", "({O\".\";({fa}M,2)}1)",
                "(x:{O\".\";Fi,3{(xi)}});(x9)"]))
        case = {"target": {"prog": parts, "kind": rng.choice(
            ["prog", "prog", "prog", "repl"]), "flags": rng.choice(FLAGS),
            "args": rng.choice([[], ["ab"], ["3", "b a"]]),
            "entry": rng.choice(["main", "main", "run", "pip"])},
            "entropy": rng.randrange(1000),
            "histories": [[self.earlier(rng, parts) for _ in range(
                rng.choice([1, 1, 2, 3, 5]))] for _ in range(3)]}
        if deep:
            case["target"]["depth"] = rng.choice([250, 320, 400])
        return case

    def same(self, rng):
        return [rng.choice(SAME).format(rng.choice(
            PREFIX if rng.random() < .4 else PREFIX[:5]))
            .replace("\n", "\u2029") for _ in range(rng.randint(1, 3))]

    def mutate(self, rng, part):
        """The same source with one small thing different."""
        x = rng.random()
        if x < .4 and "`" in part:
            bits = part.split("`")
            k = 2 * rng.randrange(len(bits) // 2)
            bits[k] += "(" + rng.choice("-,.A")
            if k + 2 < len(bits):
                bits[k + 2] = ")" + bits[k + 2]
            return "`".join(bits)
        ks = [k for k, c in enumerate(part) if c.isdigit() or c in
              "+-*<>=xyabhil"]
        if not ks:
            return part
        k = rng.choice(ks)
        c = part[k]
        new = rng.choice("0123456789" if c.isdigit() else "+-*<>="
                         if c in "+-*<>=" else "xyabhil")
        return part[:k] + new + part[k + 1:]

    def earlier(self, rng, parts):
        x = rng.random()
        if x < .12:
            prog = list(parts)
        elif x < .3:
            prog = [self.mutate(rng, p) if rng.random() < .6 else p
                    for p in parts]
        elif x < .38:
            prog = self.same(rng) + self.same(rng)
        elif x < .65:
            prog = [rng.choice(POLLUTE) for _ in range(rng.randint(1, 4))]
        elif x < .9:
            g = G(rng, effects=.3, depth=2)
            prog = g.program(rng.randint(1, 3))
        else:
            prog = [rng.choice(BAD)]
        if x < .65 and rng.random() < .3:
            prog.append(rng.choice(POLLUTE + BAD))
        e = {"prog": prog, "kind": rng.choice(["prog", "prog", "repl"]),
             "flags": rng.choice(FLAGS), "args": rng.choice([[], ["zz", "9"]]),
             "entry": rng.choice(["main", "run", "run", "pip"])}
        y = rng.random()
        if y < .35:
            e["inject"] = [rng.random(), rng.choice(["KeyboardInterrupt",
                                                     "MemoryError"])]
        elif y < .42:
            e["stdout"] = {"fail": {"at": rng.randrange(40), "err":
                                    rng.choice(["EIO", "EPIPE", "ENOSPC"])},
                           "buf": rng.choice([1, 8192])}
        elif y < .48:
            e["stdin_err"] = rng.choice(["EIO", "ki"])
        elif y < .56:
            e["depth"] = rng.randint(30, 300)
        elif y < .6:
            e["x"] = rng.choice(["CS0", "(x:5)", "1+", "(C(-1))", ""])
        elif y < .63:
            e["file_err"] = rng.choice(["ENOENT", "EIO"])
        return e

    def spec(self, e):
        lines = ["l1", "22", "a b"]
        spec = {"max_steps": self.max_steps, "depth": e.get("depth", 900)}
        flags = list(e["flags"])
        args = list(e["args"])
        if e.get("x") is not None:
            flags.append("-x")
            args = args + [e["x"]]
        src = ";".join(e["prog"])
        if e["kind"] == "repl":
            spec["argv"] = flags + ["-R"]
            ents = [p.replace("\n", " ") for p in e["prog"]]
            lines = ents + ([";warnings"] if len(src) % 3 == 0 else [])
            if e["entry"] == "run":
                spec.update(entry="run", code=None, args=spec.pop("argv"))
        elif e.get("file_err"):
            spec["argv"] = flags + ["-f", "p.pip", "--"] + args
            spec["files"] = {"p.pip": {"data": "1",
                                       "open_err": e["file_err"]}}
        elif e["entry"] == "main":
            spec["argv"] = flags + ["-e", src, "--"] + args
        else:
            spec.update(entry=e["entry"], code=src,
                        args=flags + ["--"] + args)
        spec["stdin"] = util.lines_to_items(lines)
        if e.get("stdin_err"):
            spec["stdin"].insert(1, ["ki"] if e["stdin_err"] == "ki"
                                 else ["err", e["stdin_err"]])
        if e.get("stdout"):
            spec["stdout"] = e["stdout"]
        return spec

    def result(self, r):
        return [[list(x) for x in r.effects()], r.status,
                r.exc, r.unread]

    def check(self, case, ctx):
        t = case["target"]
        spec = self.spec(t)
        base = ctx.one(spec, case["entropy"])
        if base.status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        kinds = [e[0] for e in base.effects() if e[0] in ("draw", "seed")]
        if kinds[:1] == ["draw"]:
            # random without a seed: the outcome is not determined
            ctx.skipped += 1
            return None
        want = self.result(base)
        v = self.api(t, base, None)
        if v:
            return v
        p = ctx.peer([spec], case["entropy"])[-1]
        got = [p["effects"], p["status"], p["exc"], p["unread"]]
        if got != plainer(want):
            return {"class": "hash-seed", "detail": {
                "prog": t["prog"], "got": util.short(got, 600),
                "want": util.short(want, 600)}}
        for h in case["histories"]:
            proc = ctx.sim.process(case["entropy"])
            for e in h:
                s = self.spec(e)
                if e.get("inject"):
                    at, kind = e["inject"]
                    if not isinstance(at, int):
                        n = ctx.one(s, case["entropy"]).steps
                        at = 1 + int(at * n)
                    s["inject"] = [[at, kind]]
                r = ctx.run(proc, s)
                v = self.api(e, r, s.get("inject"))
                if v:
                    v["frozen"] = dict(case, histories=[[e]])
                    return v
            r = ctx.run(proc, spec)
            ctx.nontriv((str(t), str(h)))
            got = self.result(r)
            if got != want or masked(r) != masked(base):
                return {"class": "history-matters", "detail": {
                    "prog": t["prog"], "got": util.short(got, 600),
                    "want": util.short(want, 600),
                    "err": [r.errtext()[-200:], base.errtext()[-200:]]},
                    "frozen": dict(case, histories=[h])}
        return None

    def api(self, e, r, inject):
        """run() does not raise for a failed or interrupted program."""
        if e["entry"] != "run" or e["kind"] != "prog" or e.get("file_err"):
            return None
        if r.exc is None:
            if r.status == 2 and not e.get("x"):
                return {"class": "api-exits", "detail": [
                    e, r.errtext()[-300:]]}
            return None
        verbose = "-v" in e["flags"] or "-d" in e["flags"]
        if r.exc == "RecursionError" and "depth" in e and (
                verbose or not r.effect_steps(("print", "read", "draw"))):
            # the stack did not suffice for getting as far as execution
            return None
        if r.fired or r.exc == "KeyboardInterrupt":
            st = r.effect_steps(("print", "read", "draw"))
            if verbose:
                return None         # prints before the program starts
            if not (st and r.fired and r.fired[0][0] > st[0]):
                return None
        return {"class": "api-raises", "detail": [
            e["prog"], r.exc, r.fired, r.errtext()[-300:]]}

    def shrink(self, case):
        hs = case["histories"]
        if len(hs) > 1:
            for h in hs:
                yield dict(case, histories=[h])
        elif hs:
            for h in util.shrink_list(hs[0]):
                yield dict(case, histories=[h])
            for k, e in enumerate(hs[0]):
                def put(e2):
                    return dict(case, histories=[hs[0][:k] + [e2]
                                                 + hs[0][k + 1:]])
                for p in util.shrink_list(e["prog"]):
                    if p:
                        yield put(dict(e, prog=p))
                for f in ("inject", "stdout", "stdin_err", "depth", "x",
                          "file_err"):
                    if f in e:
                        e2 = dict(e)
                        del e2[f]
                        yield put(e2)
                for f, v in (("flags", []), ("args", []), ("kind", "prog"),
                             ("entry", "run")):
                    if e[f] != v:
                        yield put(dict(e, **{f: v}))
        t = case["target"]
        for p in util.shrink_list(t["prog"]):
            if p:
                yield dict(case, target=dict(t, prog=p))
        for f, v in (("flags", []), ("args", []), ("kind", "prog"),
                     ("entry", "main")):
            if t[f] != v:
                yield dict(case, target=dict(t, **{f: v}))
        for i, p in enumerate(t["prog"]):
            for s in util.shrink_src(p):
                yield dict(case, target=dict(
                    t, prog=t["prog"][:i] + [s] + t["prog"][i + 1:]))


def masked(r):
    """stderr; some diagnostics show the addresses of Python objects."""
    return re.sub("0x[0-9a-f]+", "0x", r.errtext())


def plainer(x):
    import json
    return json.loads(json.dumps(x))


PROP = C10()
