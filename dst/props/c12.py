"""C12: diagnostic flags never change what a program does."""

import random

from .. import session as S
from .. import util
from ..gen import G
from ..runner import Prop
from ..wild import Wild

INIT = '(x:"q");(y:[4;5]);(l:[1;[2;3];"s"])'
FLAGSETS = [["-w"], ["-w"], ["-w"], ["-v"], ["-wv"], ["-d"]]
LISTFMT = [[], [], [], ["-p"], ["-l"], ["-s"], ["-n"], ["-P"], ["-S"]]
SETTERS = [";warnings", ";w", ";warnings on", ";w off", ";WARN ON",
           ";warnings off", ";wa", ";w on", ";w maybe", ";w on off"]
# ends of a program in which blanks may matter
TAILS = [";O' ", ";P#' ", ";O'\n", ";P#'\n", ";P'\t", ";O\"a\n\"", "\n", "  ",
         "  ;note", "\n;note\n", ";\n", ";P`a `", ";O' \n", ";{P' }()"]
DEEP = ["[", "-(", "{", "O ", "1+", "I1{", "x:", "(1?"]


class C12(Prop):
    id = "C12"
    level = "fault_enumeration"
    quick_cases = 6000
    rule = ("case = program of arbitrary operators on operands of every type "
            "(most of them warn), run with and without -w, -v, -d, or a REPL "
            "session with ;warnings switched at any point; both undisturbed "
            "and with the same fault (Ctrl-C or failed allocation at the "
            "same effect, Ctrl-C or error in the n-th read, failing output "
            "device), plus interruptions anywhere in the diagnosing run; "
            "nontrivial = the runs differ in what they print as diagnostics")
    assumptions = ("stderr accepts what is written and can encode the "
                   "program text; the Python stack is not exhausted",)
    max_steps = 25000

    def gen(self, rng, i):
        w = Wild(rng, draws=rng.random() < .3)
        g = G(rng, effects=.3, depth=2)
        mode = rng.choice(["prog"] * 7 + ["repl"] * 3 + ["deep"])
        parts = []
        for k in range(rng.randint(1, 6)):
            x = rng.random()
            if x < .6:
                e = w.stmt(rng.choice([0, 1, 1, 2]))
                parts.append(f"(O RP{e})" if e.startswith("(")
                             and rng.random() < .8 else e)
            elif x < .75:
                parts.append(g.stmt())
            else:
                parts.append(rng.choice(
                    [f'(O"<{k}>")', "(Pq)", "(O RP[x;y;l])", "(Or)",
                     "(x:q)", "({q}M,2)", "(C(-1))", "j", "~", "(1/0)",
                     "(CS0)", "(O RR9)"]))
        fmt = rng.choice(LISTFMT)
        flags = rng.choice(FLAGSETS)
        if "-d" in flags:
            fmt = []
        return {"mode": mode, "prog": parts, "flags": flags, "fmt": fmt,
                "tail": rng.choice(TAILS) if rng.random() < .2 else "",
                "head": rng.choice(["", "", " ", "\n", "\t\n"]),
                "args": rng.choice([[], ["ab", "7"]]),
                "entropy": rng.randrange(1000),
                "x": rng.random() < .15,
                "lines": ["l1", "22"],
                "deep": [rng.choice(DEEP), rng.randint(100, 420)],
                "entry": rng.choice(["e", "e", "f", "run"]),
                "toggles": [[rng.random(), rng.choice(SETTERS)]
                            for _ in range(rng.randint(1, 4))],
                "faults": [self.fault(rng) for _ in range(3)]}

    def fault(self, rng):
        x = rng.random()
        if x < .35:
            return ["effect", rng.random(), rng.choice(
                ["KeyboardInterrupt", "MemoryError"])]
        if x < .6:
            return ["step", rng.random(), rng.choice(
                ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])]
        if x < .8:
            return ["read", rng.randrange(3), rng.choice(["ki", "EIO",
                                                          "eof"])]
        return ["device", rng.random(), rng.choice(["EIO", "ENOSPC",
                                                    "EPIPE"])]

    def source(self, case):
        if case["mode"] == "deep":
            pre, n = case["deep"]
            close = {"[": "]", "-(": ")", "{": "}", "I1{": "}",
                     "(1?": " 2)"}.get(pre, "")
            return INIT + ';O"<0>";' + pre * n + "1" + close * n
        return case["head"] + INIT + ";" + ";".join(case["prog"]) \
            + case["tail"]

    def spec(self, case, flags, lines=None):
        spec = {"max_steps": self.max_steps, "depth": 950,
                "stdin": util.lines_to_items(case["lines"]
                                             if lines is None else lines)}
        flags = case["fmt"] + flags
        args = case["args"]
        if flags and "-d" not in case["flags"]:
            pass
        if case["x"] and case["mode"] == "prog":
            flags = flags + ["-x"]
            args = ["(O\"arg\")", "([1;2]AE(2/0))", "(1+\"z\")"]
        if case["mode"] == "repl":
            spec["argv"] = flags + ["-R"]
            return spec
        src = self.source(case)
        if case["entry"] == "run":
            spec.update(entry="run", code=src, args=flags + ["--"] + args)
        elif case["entry"] == "f":
            spec["files"] = {"p.pip": {"data": util.b2s(src)}}
            spec["argv"] = flags + ["-f", "p.pip", "--"] + args
        else:
            spec["argv"] = flags + ["-e", src, "--"] + args
        return spec

    def base_flags(self, case):
        return ["-p"] if "-d" in case["flags"] else []

    # -- comparison
    def strip(self, r, n_raw):
        """Effects of the program itself: without what -v prints before it
        starts.  n_raw: how many raw effects the plain run had."""
        raw = [e for e in r.log if e[1] in ("print", "read", "draw", "seed")
               and e[2] != ""]
        cut = max(0, len(raw) - n_raw)
        if any(e[1] != "print" for e in raw[:cut]):
            return None, raw[cut:]
        return [list(e[1:]) for e in raw[cut:]], raw[cut:]

    def raws(self, r):
        return [e for e in r.log if e[1] in ("print", "read", "draw", "seed")
                and e[2] != ""]

    def fatal(self, r):
        """What was reported about the end of the run."""
        out = []
        keep = False
        for line in r.errtext().split("\n"):
            if line.startswith(("Fatal error", "Program terminated",
                                "Execution aborted", "Syntax error",
                                "Execution interrupted", "Could not read")):
                out.append(line)
        del keep
        return out

    def same(self, case, a, b):
        """Explanation of a difference between the plain run `a` and the
        diagnosing run `b`, or None."""
        ra = self.raws(a)
        want = [list(e[1:]) for e in ra]
        got, _ = self.strip(b, len(ra))
        if got is None or got != want:
            k = 0
            while got and k < min(len(got), len(want)) \
                    and got[k] == want[k]:
                k += 1
            return f"effect {k}: {util.short((got or [])[k:k + 3])} " \
                   f"instead of {util.short(want[k:k + 3])}"
        if a.status != b.status or a.exc != b.exc:
            return f"status {b.status}/{b.exc} instead of " \
                   f"{a.status}/{a.exc}"
        if self.fatal(a) != self.fatal(b):
            return f"reported {self.fatal(b)} instead of {self.fatal(a)}"
        if a.unread != b.unread:
            return "input left differs"
        if "v" not in "".join(case["flags"]) and "-d" not in case["flags"] \
                and len(self.raws(b)) != len(ra):
            return "additional output"
        return None

    def check(self, case, ctx):
        if case["mode"] == "repl":
            return self.repl(case, ctx)
        sp, sd = self.spec(case, self.base_flags(case)), \
            self.spec(case, case["flags"])
        a = ctx.one(sp, case["entropy"])
        if a.status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        b = ctx.one(sd, case["entropy"])
        if b.status == "steplimit":
            # diagnostics take steps, too
            ctx.skipped += 1
            return None
        why = self.same(case, a, b)
        if why:
            return {"class": "flag-matters", "detail": self.info(
                case, why, a, b)}
        if b.errtext() != a.errtext() or b.out != a.out:
            ctx.nontriv((self.source(case), str(case["flags"])))
            ctx.probe("warnings shown", b.errtext().count("\n")
                      - a.errtext().count("\n"))
        for f in case["faults"]:
            v = self.faulted(case, f, sp, sd, a, b, ctx)
            if v:
                v["frozen"] = dict(case, faults=[v.pop("f", f)])
                return v
        return None

    def info(self, case, why, a, b):
        return [why, {"src": self.source(case)[:600], "flags": case["flags"],
                      "plain": a.summary(), "diag": b.summary()}]

    def faulted(self, case, f, sp, sd, a, b, ctx):
        kind = f[0]
        ra = self.raws(a)
        if kind == "effect":
            if not ra:
                return None
            _, rb = self.strip(b, len(ra))
            k = int(f[1] * len(ra))
            sp = dict(sp, inject=[[ra[k][0] + 1, f[2]]])
            sd = dict(sd, inject=[[rb[k][0] + 1, f[2]]])
        elif kind == "read":
            items = util.lines_to_items(case["lines"])
            items[f[1]:f[1]] = [[f[2]] if f[2] != "EIO" else ["err", "EIO"]]
            sp, sd = dict(sp, stdin=items), dict(sd, stdin=items)
        elif kind == "device":
            if "v" in "".join(case["flags"]) or "-d" in case["flags"]:
                return None
            at = int(f[1] * (len(a.out) + 1))
            dev = {"fail": {"at": at, "err": f[2]}, "buf": 1}
            sp, sd = dict(sp, stdout=dev), dict(sd, stdout=dev)
        else:
            return self.step(case, f, sd, a, b, ctx)
        fa = ctx.one(sp, case["entropy"])
        fb = ctx.one(sd, case["entropy"])
        if "steplimit" in (fa.status, fb.status):
            return None
        if bool(fa.fired) != bool(fb.fired):
            return None         # the last effect is the end of the run
        if kind == "effect" and self.outside(fa, ra, k):
            return None
        why = self.same(case, fa, fb)
        if why:
            return {"class": "flag-matters:" + kind, "detail": self.info(
                case, why, fa, fb) + [f, fa.fired, fb.fired]}
        ctx.probe("pairs compared under the same fault")
        return None

    def outside(self, fa, ra, k):
        """The fault struck after the run's last effect (clean-up)."""
        return k >= len(ra) - 1

    def step(self, case, f, sd, a, b, ctx):
        """An interruption anywhere in the diagnosing run."""
        if isinstance(f[1], int):
            at = f[1]
        else:
            raw = self.strip(b, len(self.raws(a)))[1]
            if len(raw) < 2:
                return None
            lo, hi = raw[0][0] + 1, raw[-1][0]
            if hi <= lo:
                return None
            rng = random.Random(f"step{f[1]}")
            at = rng.randint(lo, hi)
            if rng.random() < .6:
                # just before or after a diagnostic appears
                warn = [s for s, k, d in b.log if k == "errprint"
                        and lo < s < hi]
                if warn:
                    at = max(lo, min(hi, rng.choice(warn)
                                     + rng.randint(-2, 2)))
        r = ctx.one(dict(sd, inject=[[at, f[2]]]), case["entropy"])
        if not r.fired:
            return None
        why = util.effects_prefix(r.effects(), b.effects())
        if not why and r.status == 0 and not (
                case["entry"] == "run" and self.fatal(r)):
            why = "swallowed"
        if not why and f[2] == "KeyboardInterrupt" and r.tb \
                and not case["x"]:
            why = "traceback"
        if why:
            return {"class": "interrupted-diagnostic", "f": ["step", at, f[2]],
                    "detail": self.info(case, why, a, r) + [r.fired]}
        ctx.probe("interrupted in the diagnosing run")
        return None

    # -- REPL
    def repl(self, case, ctx):
        # no value is the text of a program that reads: input is the session
        ents = [INIT.replace('"q"', '"z"')] + [p for p in case["prog"] if "\n" not in p
                         and '"q' not in p and "q" not in p
                         .replace('"q"', "")]
        with_t = [[e, True] for e in ents]
        for x, s in case["toggles"]:
            with_t.insert(int(x * (len(with_t) + 1)), [s, False])
        sp = self.spec(case, [], ents)
        sd = self.spec(case, ["-w"] if "-w" in case["flags"] else [],
                       [e for e, _ in with_t])
        a = ctx.one(sp, case["entropy"])
        if a.status in ("steplimit", "deadlock") \
                or len(S.segments(a)) != len(ents) + 2:
            # (the latter: a program evaluated from text read entries)
            ctx.skipped += 1
            return None
        b = ctx.one(sd, case["entropy"])
        if b.status == "steplimit":
            ctx.skipped += 1
            return None
        why = self.same_session(a, b, with_t)
        if why:
            return {"class": "toggle-matters", "detail": [
                why, [e for e, _ in with_t], a.summary(), b.summary()]}
        ctx.nontriv(str(with_t))
        for f in case["faults"]:
            if f[0] != "effect":
                continue
            k = int(f[1] * len(ents))
            at = self.entry_effect(a, k, f[1])
            j = [i for i, (_, real) in enumerate(with_t) if real][k]
            at2 = self.entry_effect(b, j, f[1])
            if at is None or at2 is None:
                continue
            fa = ctx.one(dict(sp, inject=[[at, f[2]]]), case["entropy"])
            fb = ctx.one(dict(sd, inject=[[at2, f[2]]]), case["entropy"])
            if not fa.fired or not fb.fired:
                continue
            why = self.same_session(fa, fb, with_t)
            if why:
                return {"class": "toggle-matters:" + f[0],
                        "frozen": dict(case, faults=[f]), "detail": [
                            why, [e for e, _ in with_t], fa.fired, fb.fired,
                            fa.summary(), fb.summary()]}
            ctx.probe("sessions compared under the same fault")
        return None

    def entry_effect(self, r, k, x):
        segs = S.segments(r)[1:]
        if k >= len(segs):
            return None
        pr = [s for s, d in segs[k]["prints"] if not d.endswith(S.PROMPT)]
        if len(pr) < 2:
            return None
        # not after the last output of the entry
        pr = [s for s in pr if s < pr[-1]]
        return random.Random(f"ee{x}").choice(pr) + 1 if pr else None

    def same_session(self, a, b, with_t):
        sa, sb = S.segments(a)[1:], S.segments(b)[1:]
        if a.status != b.status or a.exc != b.exc:
            return f"status {b.status}/{b.exc} not {a.status}/{a.exc}"
        if len(sb) != len(with_t) + 1:
            return "entries executed"
        if any(s["text"] != S.PROMPT for s, (_, real) in zip(sb, with_t)
               if not real):
            return "output of ;warnings on stdout"
        sb = [s for s, (_, real) in zip(sb, with_t) if real] + sb[-1:]
        if len(sa) != len(sb):
            return "entries"
        da = [e[1:] for e in a.effects() if e[0] in ("draw", "seed")]
        db = [e[1:] for e in b.effects() if e[0] in ("draw", "seed")]
        if da != db:
            return "draws"
        for x, y in zip(sa, sb):
            if x["text"] != y["text"]:
                return f"entry {x['line']!r}: {util.short(y['text'])} " \
                       f"instead of {util.short(x['text'])}"
            fx = [t for t in x["err"].split("\n") if t.startswith(
                ("Fatal", "Syntax", "Execution"))]
            fy = [t for t in y["err"].split("\n") if t.startswith(
                ("Fatal", "Syntax", "Execution"))]
            if fx != fy:
                return f"entry {x['line']!r}: {fy} instead of {fx}"
        return None

    def shrink(self, case):
        if len(case["faults"]) > 1:
            for f in case["faults"]:
                yield dict(case, faults=[f])
        if case["faults"]:
            yield dict(case, faults=[])
        for p in util.shrink_list(case["prog"]):
            if p:
                yield dict(case, prog=p)
        if case["mode"] == "repl":
            for t in util.shrink_list(case["toggles"]):
                if t:
                    yield dict(case, toggles=t)
        for k, v in (("x", False), ("args", []), ("fmt", []),
                     ("entry", "e")):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, p in enumerate(case["prog"]):
            for s in util.shrink_src(p):
                yield dict(case, prog=case["prog"][:i] + [s]
                           + case["prog"][i + 1:])
        if case["mode"] == "deep":
            for n in (case["deep"][1] // 2, case["deep"][1] - 10):
                if n > 0:
                    yield dict(case, deep=[case["deep"][0], n])


PROP = C12()
