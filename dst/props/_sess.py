"""Common part of the checks that judge REPL sessions by the model."""

import collections
import json
import random

from ..runner import Prop
from ..core import GUARDED, trace_key
from .. import model as M
from .. import session as S
from .. import util
from ..mgen import MG, SessionGen

PROMPT = ">> "
TOP = ["x", "y", "i", "h", "s", "t", "l", "$v", "$w", "a", "b", "c", "d",
       "e", "$_", "$__", "$___"]
MATCH = [f"${i}" for i in range(10)] + ["$$", "$(", "$)", "$[", "$]", "$`",
                                        "$'"]


# arguments that are code, and their values
XARGS = {"[1;[2;3];\"s\"]": ("1", ("2", "3"), "s"), "[[[4]];[5]]":
         ((("4",),), ("5",)), "\"ab\"": "ab", "7": "7", "[]": (),
         "()": None, "[\"x\"]": ("x",), ",3": M.Rng(None, 3),
         "[[1;2];[3;4]]": (("1", "2"), ("3", "4"))}


def values(args, flags):
    return [XARGS[a] for a in args] if "-x" in flags else args


def fault_window(r, seg):
    """Steps at which an entry may be cut: after its first output, not after
    its last one before the prompt."""
    prints = [p for p in seg["prints"]]
    rest = len(PROMPT)
    while prints and rest > 0:
        rest -= len(prints.pop()[1])
    if len(prints) < 2:
        return None
    return prints[0][0], prints[-1][0]


def choose_step(r, lo, hi, x):
    """A step in (lo, hi]: by distinct source line, then occurrence; lines
    that are rare in the whole run are preferred at times."""
    rng = random.Random(f"step{x}")
    how = rng.random()
    if how < .15:
        return rng.randint(lo + 1, hi)
    by = {}
    for n in range(lo + 1, hi + 1):
        by.setdefault(trace_key(r.trace[n - 1]), []).append(n)
    keys = sorted(by)
    if how > .8:
        keys = [k for k in keys if k in GUARDED] or keys
    if how < .55:
        return rng.choice(by[rng.choice(keys)])
    try:
        count = r.line_counts
    except AttributeError:
        count = r.line_counts = collections.Counter(map(trace_key, r.trace))
    return rng.choice(by[rng.choices(keys, [1 / count[k]
                                            for k in keys])[0]])


class SessionProp(Prop):
    profile = "mix"
    names = TOP
    entries = (2, 4)
    stmts = (1, 3)
    depth = 3
    markers = 0.3
    fault_rate = 0.75
    schedules = 3
    deep_rate = 0.12
    die_rate = 0.35
    max_steps = 150000
    globs = None
    level = "fault_enumeration"
    rule = ("case = generated REPL session (statements of the modelled "
            "sub-language, each entry followed by one that displays the "
            "probed variables) x fault schedules; nontrivial = an entry was "
            "cut short between two of its effects and the state it left was "
            "compared, or (un-faulted) an entry with at least three effects "
            "was compared")
    assumptions = ("the reference model describes the generated "
                   "sub-language; cases it does not describe are skipped "
                   "and counted",
                   "faults strike at source-line boundaries of the "
                   "repository's functions")

    def make_gen(self, rng):
        mg = MG(rng, self.profile, markers=self.markers,
                **({"globs": self.globs} if self.globs else {}))
        mg.allow_die = rng.random() < self.die_rate
        return mg

    def pick_names(self, rng):
        return list(self.names)

    def gen(self, rng, i):
        if rng.random() < self.program_rate:
            return self.gen_program(rng)
        mg = self.make_gen(rng)
        names = self.pick_names(rng)
        sg = SessionGen(rng, mg, names)
        self.mg, self.sg = mg, sg
        sg.setup()
        n = rng.randint(*self.entries)
        deep = []
        work = []
        depth = None
        for j in range(n):
            k = len(sg.entries)
            if rng.random() < self.deep_rate:
                # ends the model's run of this session: what follows depends
                # on where the stack really ends
                stm = [mg.marker(), mg.deep_in(), mg.marker()]
                sg.entries.append(json.loads(json.dumps(stm)))
                e = [["ls", [["v", nm] for nm in names]]]
                sg.probes[len(sg.entries)] = names
                sg.entries.append(e)
                deep.append(k)
                depth = 250 + int(rng.random() * 200)
            elif self.add_work(rng, sg, mg):
                work.append(k)
        picks = []
        if rng.random() < self.fault_rate and work:
            for _ in range(self.schedules):
                m = 1 if rng.random() < .6 else 2
                ks = sorted(rng.sample(work, min(m, len(work))))
                picks.append([[k, "KeyboardInterrupt"
                               if rng.random() < .65 else "MemoryError",
                               rng.random()] for k in ks])
        return {"entries": sg.entries, "names": names,
                "probes": sorted(sg.probes), "deep": deep, "depth": depth,
                "picks": picks, "flags": self.flags(rng)}

    def flags(self, rng):
        return ["-w"] if rng.random() < .15 else []

    def add_work(self, rng, sg, mg):
        return sg.work(lambda: [mg.stmt(self.depth) for _ in
                                range(rng.randint(*self.stmts))])

    def spec(self, case):
        lines = [S.source(e) for e in case["entries"]]
        spec = {"argv": ["-R"] + case.get("flags", []),
                "stdin": util.lines_to_items(lines),
                "max_steps": self.max_steps}
        if case["depth"]:
            spec["depth"] = case["depth"]
        return spec

    def checker(self, case):
        return S.Checker(case["entries"],
                         {k: case["names"] for k in case["probes"]})

    def judge(self, case, r, fired, ctx):
        if r.status == "steplimit":
            ctx.skipped += 1
            return None
        with M.with_stack():
            try:
                ch = self.checker(case)
                ch.compare(r, fired, case["deep"])
            except M.Unsupported as e:
                ctx.skipped += 1
                ctx.probe("unsupported: " + str(e)[:40])
                return None
            except S.Mismatch as e:
                return {"class": e.cls + (":cut" if fired else ""),
                        "detail": [e.detail, {"fired": r.fired,
                                              "err": r.errtext()[-300:]}]}
        ctx.probe("cut entries", ch.cuts)
        ctx.probe("cut candidate states", ch.cut_states)
        if ch.cuts:
            ctx.nontriv((S.source(case["entries"][0]), r.out, r.fired))
        elif any(len(e) > 2 for e in case["entries"]):
            ctx.nontriv(r.out)
        return None

    def spice(self, rng, mg, stmts, names):
        """Hook: more statements for a program."""

    # -- program mode
    program_rate = 0.0

    def gen_program(self, rng):
        mg = self.make_gen(rng)
        mg.infn = 0
        args = [rng.choice(["abc", "12", "x y", "", "b,a", "3"])
                for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8]))]
        flags = self.flags(rng)
        if rng.random() < .35:
            flags = flags + ["-x"]
            args = [rng.choice(list(XARGS)) for _ in args]
        names = self.pick_names(rng)
        names = [n for n in names] + ["g"] + ["\\" + c for c in "abcdeg"]
        best = None
        for _ in range(8):
            stmts = []
            if rng.random() < .5:
                d = mg.function_defs()
                if d is not None:
                    stmts.append(d)
            for _ in range(rng.randint(2, 5)):
                stmts.append(mg.stmt(self.depth))
                if rng.random() < .4:
                    stmts.append(mg.show())
            self.spice(rng, mg, stmts, names)
            stmts.append(["out", "O", ["op1", "RP",
                                       ["ls", [["v", n] for n in names]]]])
            stmts = json.loads(json.dumps(stmts))
            try:
                with M.with_stack():
                    S.Predict().program(stmts, values(args, flags))
                src = S.source(stmts)
                if "\n" in src or len(src) > 4000:
                    continue
                best = stmts
                break
            except M.Unsupported:
                mg.fns = []
                continue
        return {"prog": best, "args": args, "flags": flags}

    def check_program(self, case, ctx):
        if case["prog"] is None:
            ctx.skipped += 1
            return None
        src = S.source(case["prog"])
        r = ctx.one({"argv": case["flags"] + ["-e", src, "--"]
                     + case["args"], "max_steps": self.max_steps})
        if r.status == "steplimit":
            ctx.skipped += 1
            return None
        try:
            with M.with_stack():
                ev, outcome = S.Predict().program(
                    case["prog"], values(case["args"], case["flags"]))
        except M.Unsupported:
            ctx.skipped += 1
            return None
        want = S.out_text(ev)
        if outcome == "deep":
            return None
        if r.text() != want or (r.status == 0) != (outcome == "ok"):
            return {"class": "program", "detail": {
                "src": src, "args": case["args"], "got": r.text()[-800:],
                "want": want[-800:], "status": r.status,
                "outcome": outcome, "err": r.errtext()[-300:]}}
        ctx.nontriv((src, tuple(case["args"])))
        return None

    def check(self, case, ctx):
        if "prog" in case:
            return self.check_program(case, ctx)
        if not case["entries"]:
            return None
        base = ctx.one(self.spec(case), 0, trace=True)
        v = self.judge(case, base, (), ctx)
        if v:
            v["frozen"] = dict(case, picks=[])
            return v
        for picks in case["picks"]:
            v = self.schedule(case, picks, base, ctx)
            if v:
                return v
        return None

    def schedule(self, case, picks, base, ctx):
        inj = []
        cur = base
        for j, (k, kind, x) in enumerate(picks):
            if isinstance(x, int):
                inj.append([x, kind])
                continue
            segs = S.segments(cur)[1:]
            if k >= len(segs) - 1:
                return None
            win = fault_window(cur, segs[k])
            if win is None or win[1] <= win[0]:
                return None
            step = choose_step(cur, win[0], win[1], x)
            inj.append([step, kind])
            if j < len(picks) - 1:
                spec = self.spec(case)
                spec["inject"] = inj
                cur = ctx.one(spec, 0, trace=True)
        if not inj:
            return None
        spec = self.spec(case)
        spec["inject"] = inj
        r = ctx.one(spec, 0)
        v = self.judge(case, r, [f[0] for f in r.fired], ctx)
        if v:
            v["frozen"] = dict(case, picks=[
                [[p[0], p[1], s[0]] for p, s in zip(picks, inj)]])
        return v

    # -- shrinking
    def shrink(self, case):
        if "prog" in case:
            for p in util.shrink_list(case["prog"]):
                if p:
                    yield dict(case, prog=p)
            for p in shrink_stmts(case["prog"]):
                yield dict(case, prog=p)
            for a in util.shrink_list(case["args"]):
                yield dict(case, args=a)
            return
        ps = case["picks"]
        if len(ps) > 1:
            for p in ps:
                yield dict(case, picks=[p])
        if ps and len(ps) == 1 and len(ps[0]) > 1:
            for p in ps[0]:
                yield dict(case, picks=[[p]])
        if ps:
            yield dict(case, picks=[])
        probes = set(case["probes"])
        works = [k for k in range(len(case["entries"])) if k not in probes]
        for k in works:
            drop = {k, k + 1} if k + 1 in probes else {k}
            yield self.without(case, drop)
        if len(case["names"]) > 1:
            for half in (case["names"][::2], case["names"][1::2]):
                yield self.with_names(case, half)
            for n in case["names"]:
                yield self.with_names(case, [m for m in case["names"]
                                             if m != n])
        for k in works:
            ent = case["entries"][k]
            for e2 in util.shrink_list(ent):
                if e2:
                    yield self.repick(case, k, e2)
            for e2 in shrink_stmts(ent):
                yield self.repick(case, k, e2)

    def repick(self, case, k, ent):
        es = list(case["entries"])
        es[k] = ent
        c = dict(case, entries=es)
        ps = []
        for p in case["picks"]:
            if any(isinstance(x, int) for _, _, x in p):
                # a step number means nothing in another program
                for j in range(12):
                    ps.append([[q[0], q[1], (j + .5) / 12] for q in p])
            else:
                ps.append(p)
        c["picks"] = ps[:24]
        return c

    def without(self, case, drop):
        m = {}
        es = []
        for k, e in enumerate(case["entries"]):
            if k not in drop:
                m[k] = len(es)
                es.append(e)
        c = dict(case, entries=es,
                 probes=[m[k] for k in case["probes"] if k in m],
                 deep=[m[k] for k in case["deep"] if k in m])
        ps = []
        for p in case["picks"]:
            q = [[m[k], kind, x] for k, kind, x in p if k in m]
            if q:
                if any(isinstance(x, int) for _, _, x in q):
                    for j in range(12):
                        ps.append([[a, b, (j + .5) / 12] for a, b, _ in q])
                else:
                    ps.append(q)
        c["picks"] = ps[:24]
        return c

    def with_names(self, case, names):
        if not names:
            return case
        es = list(case["entries"])
        for k in case["probes"]:
            es[k] = [["ls", [["v", n] for n in names]]]
        c = dict(case, entries=es, names=names)
        ps = []
        for p in case["picks"]:
            if any(isinstance(x, int) for _, _, x in p) and len(p) > 1:
                continue
            ps.append(p)
        c["picks"] = ps
        return c


def shrink_stmts(stmts):
    """Variants of a statement list with one node simplified."""
    def nodes(t, path):
        if isinstance(t, list):
            if t and isinstance(t[0], str) and t[0] not in ("v", "n", "s"):
                yield path, t
            for j, c in enumerate(t):
                yield from nodes(c, path + (j,))

    def put(t, path, v):
        if not path:
            return v
        t = list(t)
        t[path[0]] = put(t[path[0]], path[1:], v)
        return t

    for path, t in nodes(stmts, ()):
        if not path:
            continue
        for c in t[1:]:
            if isinstance(c, list) and c and isinstance(c[0], str) \
                    and c[0].islower():
                yield put(stmts, path, c)
        if t[0] not in ("n", "v", "s"):
            yield put(stmts, path, ["n", "1"])
        for j, c in enumerate(t):
            if isinstance(c, list) and c and isinstance(c[0], list) \
                    and len(c) > 1:
                for x in range(len(c)):
                    yield put(stmts, path + (j,), c[:x] + c[x + 1:])
