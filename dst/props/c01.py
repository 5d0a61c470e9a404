"""C01: an interrupted program leaves exactly a prefix of its run."""

import random

from ..gen import G
from ..wild import RARE, Wild
from ..runner import Prop
from ..core import GUARDED, trace_key
from .. import util


class C01(Prop):
    id = "C01"
    level = "fault_enumeration"
    quick_cases = 4000
    rule = ("case = generated program over all operators (effect markers, "
            "input, draws) + interruption picks (Ctrl-C / failed allocation "
            "at a step chosen by distinct source line then occurrence, Ctrl-C "
            "in the n-th blocked read, bounded stack); nontrivial = an "
            "interruption fired after the program's first effect and before "
            "its last")
    assumptions = ("Ctrl-C is delivered at source-line boundaries of the "
                   "repository's functions, as CPython delivers signals "
                   "between bytecodes",)
    max_steps = 30000

    def gen(self, rng, i):
        g = G(rng, effects=rng.choice([0.1, 0.25, 0.5]),
              depth=rng.choice([2, 3, 3, 4]))
        parts = g.program()
        deep = rng.random() < 0.15
        if deep:
            parts = parts[:1] + [g.deep()] + parts[1:2]
        if rng.random() < 0.35:
            w = Wild(rng, draws=True)
            wild = []
            for _ in range(rng.randint(2, 8)):
                wild += [w.stmt(rng.choice([1, 1, 2])), g.marker()]
            parts = parts[:2] + wild + parts[2:3]
        sweep = 0
        if rng.random() < 0.3:
            # a few odd statements, every guarded line they reach interrupted
            w = Wild(rng, draws=True)
            parts = [g.marker()]
            for _ in range(rng.randint(1, 3)):
                st = w.pick(RARE) if rng.random() < .25 else \
                    w.stmt(rng.choice([0, 1, 1]))
                parts += [st, g.marker()]
            deep = False
            sweep = 10
        picks = []
        for _ in range(2 if sweep else 5):
            r = rng.random() if not deep else 0.5 + rng.random() / 2
            x = rng.random()
            if r < 0.55:
                picks.append(["KeyboardInterrupt", x])
            elif r < 0.7:
                picks.append(["MemoryError", x])
            elif r < 0.82:
                picks.append(["read", int(x * 4)])
            else:
                picks.append(["depth", 20 + int(x * x * 400)])
        return {"prog": parts, "lines": ["l1", "22", "a b", "x", "5"],
                "args": rng.choice([[], ["abc"], ["3", "b a", "xyz"]]),
                "entropy": rng.randrange(1000), "picks": picks,
                "file": rng.random() < 0.15, "sweep": sweep}

    def spec(self, case):
        prog = ";".join(case["prog"])
        spec = {"stdin": util.lines_to_items(case["lines"]),
                "max_steps": self.max_steps}
        if case["file"]:
            spec["argv"] = ["p.pip", "--"] + case["args"]
            spec["files"] = {"p.pip": {"data": util.b2s(prog)}}
        else:
            spec["argv"] = ["-e", prog, "--"] + case["args"]
        return spec

    def check(self, case, ctx):
        base = ctx.one(self.spec(case), case["entropy"], trace=True)
        eff = base.effects()
        steps = base.effect_steps()
        if not steps or base.steps < 3:
            ctx.skipped += 1
            return None
        # distinct source lines executed, with their occurrences
        by_line = {}
        for n, ent in enumerate(base.trace, 1):
            if n > self.max_steps - 2:
                break
            by_line.setdefault(trace_key(ent), []).append(n)
        keys = sorted(by_line)
        inside = [k for k in keys
                  if by_line[k][-1] > steps[0] and by_line[k][0] <= steps[-1]]
        picks = list(case["picks"])
        if case.get("sweep"):
            rng = random.Random(f"sweep{case['entropy']}")
            ks = [k for k in inside if k in GUARDED]
            for k in rng.sample(ks, min(case["sweep"], len(ks))):
                occ = [o for o in by_line[k] if steps[0] < o <= steps[-1]]
                if occ:
                    picks.append([rng.choice(["KeyboardInterrupt"] * 3
                                             + ["MemoryError"]),
                                  rng.choice(occ)])
        for kind, x in picks:
            spec = self.spec(case)
            step = None
            if kind in ("KeyboardInterrupt", "MemoryError"):
                if isinstance(x, int):
                    step = x
                else:
                    rng = random.Random(f"pick{x}")
                    ks = inside if inside and rng.random() < 0.9 else keys
                    y = rng.random()
                    if y < .4:
                        ks = [k for k in ks if k in GUARDED] or ks
                    if y < .7:
                        k = rng.choices(ks, [1 / len(by_line[k])
                                             for k in ks])[0]
                    else:
                        k = rng.choice(ks)
                    occ = by_line[k]
                    if rng.random() < 0.9:
                        occ = [o for o in occ
                               if steps[0] < o <= steps[-1]] or occ
                    step = rng.choice(occ)
                spec["inject"] = [[step, kind]]
                spec["max_steps"] += 10000      # room to unwind and report
            elif kind == "read":
                items = util.lines_to_items(case["lines"])
                items.insert(x, ["ki"])
                spec["stdin"] = items
            elif kind == "depth":
                spec["depth"] = x
            r = ctx.one(spec, case["entropy"])
            v = self.judge(case, kind, step, base, eff, steps, r, ctx)
            if v:
                frozen = dict(case, sweep=0)
                frozen["picks"] = [[kind, step if step is not None else x]]
                v["frozen"] = frozen
                return v
        return None

    def judge(self, case, kind, step, base, eff, steps, r, ctx):
        got = r.effects()
        why = util.effects_prefix(got, eff)
        printed = "".join(d for _, k, d in r.log if k == "print")
        info = {"kind": kind, "step": step, "fired": r.fired,
                "status": r.status, "stderr": r.errtext()[-300:],
                "got": util.short(got[-3:]), "base": util.short(eff[-3:])}
        if kind == "depth":
            if got == eff and r.status == base.status:
                return None         # the stack sufficed
            ctx.faults["stack-exhausted"] = \
                ctx.faults.get("stack-exhausted", 0) + 1
            fired = True
        elif kind == "read":
            fired = any(k == "ki-read" for _, k, _ in r.log)
            if not fired:
                return None
        else:
            fired = bool(r.fired)
            if not fired:
                if got != eff:
                    return {"class": "nondeterminism", "detail": info}
                return None
        if why:
            return {"class": "not-a-prefix:" + kind, "detail": [why, info]}
        if r.out.decode("utf-8", "replace") != printed:
            return {"class": "output-lost", "detail": info}
        if r.status in (0, "steplimit", "deadlock"):
            return {"class": "swallowed:" + kind, "detail": info}
        if step is not None:
            inside = steps[0] < step <= steps[-1]
        else:
            inside = bool(got)
        if inside:
            ctx.nontriv((tuple(case["prog"]), kind, step,
                         case["entropy"]))
            if kind != "MemoryError":
                if r.tb:
                    return {"class": "traceback:" + kind, "detail": info}
                if not r.err.strip():
                    return {"class": "not-reported:" + kind, "detail": info}
            if r.status == 0:
                return {"class": "status:" + kind, "detail": info}
        return None

    def shrink(self, case):
        if len(case["picks"]) > 1:
            for p in case["picks"]:
                yield dict(case, picks=[p])
        for ps in util.shrink_list(case["prog"]):
            if ps:
                yield dict(case, prog=ps)
                yield dict(case, prog=ps, picks=[[k, random.Random(j).random()
                                                  if k not in ("read", "depth")
                                                  else x]
                                                 for k, x in case["picks"]
                                                 for j in range(6)])
        for i, p in enumerate(case["prog"]):
            for s in util.shrink_src(p):
                yield dict(case, prog=case["prog"][:i] + [s]
                           + case["prog"][i + 1:])
        if case["args"]:
            yield dict(case, args=[])
        if case["file"]:
            yield dict(case, file=False)


PROP = C01()
