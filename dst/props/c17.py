"""C17: program arguments arrive complete and in order from every source."""

import json
import random

from .. import model as M
from .. import session as S
from .. import util
from ..gen import G
from ..mgen import MG
from ..runner import Prop
from ..wild import Wild
from .c05 import lines_of

START = "<START>"
SAY = 'O"<STA"."RT>"'
ITEMS = ["abc", "12", "x y", "", "b,a", "3", "-5", "-e", "--w", "007", "1.50",
         " 5 ", "a\\b", "\\", "\u00e9\u03bb", "\U0001f600", "\ttab",
         "a=b", "@file", "long" * 60, "q", "(", ";", "{;", "*", "-", "0",
         "-0.0", "1e3", "$HOME", "`", "[1;2]", ";quit", "%s", "{}", "-h",
         "--help", "-R", "nil", "'", '"', "it's", 'say "x"', "a  b", "  ",
         "-x", "None", "\x0b", "a\x1cb", "a\u2028b"]
NLITEMS = ["two\nlines", "\n", "a\r\nb", "tail\n"]
TERMS = ["\n", "\n", "\n", "\r\n"]
XWILD = ["1+", "", ";c", "I1{O1}", "WG", "(", "1+*2", "x:5", "xPU2", "{a+1}",
         "x", "y:x", "a", "g", "h:[1;2]", "hPU3", "(h@0):9", "q", "Pq", "_",
         "O1;O2", "[q;q]", "(1/0)", "C(-1)", "1 2", "f", "r", "RR9", "{O9}",
         "\\a", "\\g", "$_", "RR0", "x~`a`", "$0", "i:i+1", "Yq", "y",
         "({q}M,2)", "V\"O7\"", "j", "[", "\"open", "{;", "(f)", "PIP", "z"]


def show_src():
    """Shows every argument, each place it can be seen, with its length."""
    s = [SAY]
    for n in ["a", "b", "c", "d", "e", "\\a", "\\b", "\\c", "\\d", "\\e"]:
        s.append(f'(O(#({n})));(O":");(O({n}));(O";")')
    for g in ["g", "\\g"]:
        s.append(f'(O(#({g})));(O"=")')
        s.append(f'F z({g}){{(O(#z));(O":");(O(z));(O";")}}')
    s.append('(O"END")')
    # changing the local copies leaves the global ones alone
    s.append('(a:"A");(b:"B");(gPU"G")')
    for n in ["\\a", "\\b", "(#\\g)"]:
        s.append(f'(O({n}));(O";")')
    s.append("()")
    return ";".join(s)


def shown(items):
    def one(x):
        return f"{len(x)}:{x};"
    out = START
    five = "".join(one(items[i]) if i < len(items) else ":;"
                   for i in range(5))
    out += five * 2
    for _ in range(2):
        out += f"{len(items)}=" + "".join(one(x) for x in items)
    out += "END"
    out += "".join((items[i] if i < len(items) else "") + ";"
                   for i in range(2))
    return out + f"{len(items)};"


SHOW = show_src()


def quote(rng, item):
    """One way to write an item in a command string."""
    plain = item and not set(item) & set(" '\"")
    if plain and rng.random() < .6:
        return item
    out = ""
    cur = ""
    parts = []
    # pieces without both kinds of quotes
    for ch in item:
        if ch == "'" and '"' in cur or ch == '"' and "'" in cur:
            parts.append(cur)
            cur = ""
        cur += ch
        if rng.random() < .1:
            parts.append(cur)
            cur = ""
    parts.append(cur)
    for p in parts:
        if p and not set(p) & set(" '\"") and rng.random() < .4:
            out += p
        elif "'" in p:
            out += f'"{p}"'
        elif '"' in p:
            out += f"'{p}'"
        else:
            q = rng.choice("'\"")
            out += q + p + q
    return out


class C17(Prop):
    id = "C17"
    level = "fault_enumeration"
    quick_cases = 3000
    rule = ("case = argument list given through every source (command line, "
            "code file, lines of stdin, list or command string through the "
            "Python API, interactively) under several deliveries, shown by "
            "the program with lengths; or -x arguments: generated "
            "expressions judged by the reference model, arbitrary ones "
            "under Ctrl-C or failed allocations at any step; nontrivial = "
            "distinct (arguments, source), or distinct -x run with an "
            "effect in an argument")
    assumptions = ("arguments are valid unicode text; a command string has "
                   "balanced quotes",)
    max_steps = 600000

    # -- generation
    def gen(self, rng, i):
        x = rng.random()
        if x < .4:
            return self.gen_plain(rng)
        if x < .7:
            return self.gen_model(rng)
        return self.gen_wild(rng)

    def gen_plain(self, rng):
        n = rng.choice([0, 1, 1, 2, 3, 5, 5, 6, 7, 12])
        pool = ITEMS + (NLITEMS if rng.random() < .5 else [])
        items = [rng.choice(pool) for _ in range(n)]
        vals = [rng.choice([7, -3, 2.5, 10 ** 20, 0, True, None])
                if rng.random() < .2 else it for it in items]
        joined = [quote(rng, it) for it in items]
        return {"mode": "plain", "items": items, "vals": vals,
                "quoted": joined,
                "gap": [rng.choice([" ", " ", "  ", "   "])
                        for _ in range(n + 2)],
                "term": rng.choice(TERMS), "last": rng.random() < .7,
                "flags": rng.choice([[], [], ["-w"], ["-p"], ["-s"],
                                     ["-wn"]]),
                "split": rng.randrange(1 << 30)}

    def arg_ast(self, rng, mg):
        x = rng.random()
        v = ["v", rng.choice(["x", "y", "h", "l", "$v"])]
        if x < .12:
            return v
        if x < .2:
            return ["q"]
        if x < .3:
            return ["as", v, rng.choice([["q"], mg.any(1), mg.any(0)])]
        if x < .38:
            return ["ls", [mg.marker(), mg.any(1), ["q"]]]
        if x < .46:
            return rng.choice([
                ["push", "PU", v, mg.any(0)],
                ["as", ["at", v, ["n", "0"]], mg.any(0)],
                ["inc", "U", v], ["cas", ".", v, mg.any(0)]])
        if x < .54:
            return ["lam", [mg.marker(), ["op2", "+", ["v", "a"],
                                          ["n", "1"]]]]
        return mg.stmt(rng.choice([1, 2, 2]))

    def gen_model(self, rng):
        best = None
        lines = [rng.choice(["l1", "22", "5", "", "ab"]) for _ in range(3)]
        for _ in range(10):
            mg = MG(rng, rng.choice(["mix", "calls", "values"]), markers=.3,
                    reads=.3)
            mg.infn = 0
            mg.allow_die = rng.random() < .3
            args = [self.arg_ast(rng, mg)
                    for _ in range(rng.choice([1, 2, 3, 3, 4, 6]))]
            body = [["out", "O", ["op2", ".", ["s", "<STA"],
                                   ["s", "RT>"]]]]
            show = ["out", "P", ["op1", "RP", ["ls", [
                ["v", n] for n in ["a", "b", "c", "d", "e", "g", "\\a",
                                   "\\b", "\\e", "\\g", "x", "y", "h"]]]]]
            body.append(show)
            if rng.random() < .5:
                body.append(mg.stmt(2))
                body.append(show)
            case = json.loads(json.dumps(
                {"mode": "model", "args": args, "body": body,
                 "lines": lines}))
            try:
                self.predict(case)
                if any("\n" in M.render(a) or len(M.render(a)) > 600
                       for a in case["args"]):
                    continue
                best = case
                break
            except M.Unsupported:
                continue
        if best is None:
            return self.gen_plain(rng)
        best["source"] = rng.choice(["e", "e", "f", "run", "string", "r"])
        best["faults"] = [[rng.random(), rng.choice(
            ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])]
            for _ in range(3)]
        best["flags"] = rng.choice([[], [], ["-w"], ["-v"]])
        return best

    def gen_wild(self, rng):
        w = Wild(rng, draws=True)
        g = G(rng, effects=.5, depth=2)
        args = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            x = rng.random()
            if x < .35:
                a = rng.choice(XWILD)
            elif x < .6:
                a = w.stmt(rng.choice([0, 1, 2]))
            elif x < .75:
                a = g.stmt()
            else:
                a = rng.choice(['(O"a");(x:7)', "[(O1);q;(O2)]", "(P(q))",
                                "({O a;a}M[1;2])", "($x:[1;2])", "$x",
                                "(x:[1;2;3])", "x", "(xPU9)", "y:x"])
            args.append(a.replace("\n", " "))
        return {"mode": "wild", "args": args, "lines": ["l1", "22", "x"],
                "entropy": rng.randrange(100),
                "source": rng.choice(["e", "e", "f", "run", "r"]),
                "flags": rng.choice([[], [], ["-w"], ["-v"]]),
                "faults": [[rng.random(), rng.choice(
                    ["KeyboardInterrupt", "KeyboardInterrupt",
                     "MemoryError"])] for _ in range(4)]}

    # -- oracle for -x
    def predict(self, case):
        """-> (output text, reads, outcome, index of failing argument)"""
        with M.with_stack():
            p = S.Predict(lines=case["lines"])
            m = p.model
            m.events = []
            m.work = 60000
            vals = []
            for i, a in enumerate(case["args"]):
                if M.is_cmd(a):
                    return m.events, "arg", i
                try:
                    v = m.stmt(a)
                except M.ModelDeep:
                    raise M.Unsupported("deep")
                except M.ModelFatal:
                    return m.events, "arg", i
                except RecursionError:
                    raise M.Unsupported("model recursion")
                vals.append(v)
                m.scopes = m.scopes[:1]
                m.funcs = [None]
            ev0 = m.events
            ev, out = p.program(case["body"], vals)
            if out == "deep":
                raise M.Unsupported("deep")
            return ev0 + ev, out, None

    # -- running
    def spec(self, source, flags, code, args, lines=()):
        """args: list of strings; lines: what stdin holds otherwise."""
        spec = {"stdin": util.lines_to_items(list(lines)),
                "max_steps": self.max_steps, "depth": 900}
        if source == "e":
            spec["argv"] = flags + ["-e", code, "--"] + args
        elif source == "f":
            spec["files"] = {"p.pip": {"data": util.b2s(code)}}
            spec["argv"] = flags + ["-f", "p.pip", "--"] + args
        elif source == "run":
            spec.update(entry="run", code=code, args=flags + ["--"] + args)
        elif source == "pip":
            spec.update(entry="pip", code=code, args=flags + ["--"] + args)
        elif source == "listcode":
            spec.update(entry="run", code=None,
                        args=flags + ["-e", code, "--"] + args)
        elif source == "r":
            spec["argv"] = flags + ["-r", "-e", code]
            spec["stdin"] = util.lines_to_items(args + list(lines))
        return spec

    def check(self, case, ctx):
        return {"plain": self.plain, "model": self.model,
                "wild": self.wild}[case["mode"]](case, ctx)

    # -- plain arguments
    def plain(self, case, ctx):
        rng = random.Random(case["split"])
        items = case["items"]
        want = shown(items)
        flags = case["flags"]
        todo = []
        todo.append(("e", self.spec("e", flags, SHOW, items), items))
        todo.append(("f", self.spec("f", flags, SHOW, items), items))
        if items and not any(x.startswith("-") for x in items):
            s = self.spec("f", flags, SHOW, [])
            s["argv"] = flags + ["p.pip"] + items
            todo.append(("file argument", s, items))
            s = self.spec("e", flags, SHOW, [])
            s["argv"] = flags + ["-e", SHOW] + items
            todo.append(("no --", s, items))
        todo.append(("run", self.spec("run", flags, SHOW, items), items))
        todo.append(("pip", self.spec("pip", flags, SHOW, items), items))
        todo.append(("list", self.spec("listcode", flags, SHOW, items),
                     items))
        s = self.spec("run", flags, SHOW, [])
        s["args"] = flags + ["--"] + case["vals"]
        todo.append(("values", s, [str(v) for v in case["vals"]]))
        gap = case["gap"]
        line = " ".join(flags + ["--"]) + gap[0]
        for qd, gp in zip(case["quoted"], gap[1:]):
            line += qd + gp
        if rng.random() < .5:
            line = line.rstrip(" ") if not case["quoted"] else \
                line[:len(line) - len(gap[len(case["quoted"])])]
        for entry in ("run", "pip"):
            s = self.spec(entry, flags, SHOW, [])
            s["args"] = line
            todo.append(("string", s, items))
        if not any(set(x) & set("\n\r") for x in items):
            full = " ".join(flags + ["-e", f"'{SHOW}'"]) + " " \
                + line[len(" ".join(flags)):].lstrip(" ")
            term = case["term"]
            s = {"argv": [], "max_steps": self.max_steps,
                 "stdin": util.sprinkle(rng, util.chunkings(
                     rng, util.b2s(full + term)))}
            todo.append(("interactive", s, items))
            text = "".join(x + term for x in items)
            if items and items[-1] and not case["last"]:
                text = text[:-len(term)]
            rl = lines_of(text)
            if rl == items:
                for en in ("r", "run"):
                    s = self.spec("r", flags, SHOW, [])
                    if en == "run":
                        s.pop("argv")
                        s.update(entry="run", code=SHOW,
                                 args=flags + ["-r", "--", "ignored"])
                    s["stdin"] = util.sprinkle(rng, util.chunkings(
                        rng, util.b2s(text), 20))
                    s["stdin_buf"] = rng.choice([8192, 1, 3])
                    todo.append(("lines", s, items))
        if len(todo) > 5:
            todo = rng.sample(todo, 5)
        for name, s, its in todo:
            r = ctx.one(s)
            got = r.text()
            w = want if its is items else shown(its)
            k = got.find(START)
            head = got[:k] if k >= 0 else got
            if name == "interactive":
                ok = k >= 0 and got[k:] == w
            else:
                ok = got == w and not head
            if not ok or r.status != 0 or r.exc:
                return {"class": "arguments:" + name, "detail": {
                    "items": its, "spec": {a: b for a, b in s.items()
                                           if a in ("argv", "args",
                                                    "stdin")},
                    "got": got[-900:], "want": w, "status": r.status,
                    "exc": r.exc, "err": r.errtext()[-300:]}}
            ctx.nontriv((name, tuple(its)))
            ctx.probe("source: " + name)
        return None

    # -- -x with the model
    def model_spec(self, case):
        args = [M.render(a) for a in case["args"]]
        code = S.source(case["body"])
        flags = case["flags"] + ["-x"]
        src = case["source"]
        if src == "r":
            # all lines are arguments; nothing is left to read
            return self.spec("r", flags, code, args)
        if src == "string":
            s = self.spec("run", flags, code, [], case["lines"])
            rng = random.Random(len(code))
            s["args"] = " ".join(flags + ["--"] + [quote(rng, a)
                                                   for a in args])
            return s
        return self.spec(src, flags, code, args, case["lines"])

    def model(self, case, ctx):
        c = case if case["source"] != "r" else dict(case, lines=[])
        try:
            ev, outcome, bad = self.predict(c)
        except M.Unsupported as e:
            ctx.skipped += 1
            ctx.probe("unsupported: " + str(e)[:40])
            return None
        want = S.out_text(ev)
        spec = self.model_spec(case)
        r = ctx.one(spec)
        if r.status == "steplimit":
            ctx.skipped += 1
            return None
        got = r.text()
        if "-v" in case["flags"]:
            # what is printed about the program comes first
            if not got.endswith(want):
                got = got
            else:
                got = want
        err = r.errtext()
        info = {"args": [M.render(a) for a in case["args"]],
                "body": S.source(case["body"]), "source": case["source"],
                "got": got[-900:], "want": want[-900:], "status": r.status,
                "outcome": [outcome, bad], "err": err[-300:]}
        if got != want:
            return {"class": "exec-args:output", "detail": info}
        api = case["source"] in ("run", "string")
        if not api and (r.status == 0) != (outcome == "ok") or r.exc:
            return {"class": "exec-args:status", "detail": info}
        if (outcome != "ok") != ("Fatal error" in err):
            return {"class": "exec-args:report", "detail": info}
        if outcome == "arg" and START in got:
            return {"class": "exec-args:started", "detail": info}
        if len(ev) > 2:
            ctx.nontriv((spec.get("argv") or spec.get("args")).__repr__()
                        + case["source"])
        ctx.probe("failing argument" if outcome == "arg"
                  else "model run compared")
        if outcome == "ok":
            return self.faults(case, spec, r, ctx)
        return None

    # -- -x with anything
    def wild(self, case, ctx):
        code = f'{SAY};Og;(P(x));P(i);P(y);P(h)'
        spec = self.spec(case["source"], case["flags"] + ["-x"], code,
                         case["args"], case["lines"])
        if case["source"] == "r":
            spec["stdin"] = util.lines_to_items(case["args"])
        r = ctx.one(spec, case["entropy"])
        if r.status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        v = self.ended(case, r, ctx)
        if v:
            return v
        v = self.alone(case, r, ctx)
        if v:
            return v
        return self.faults(case, spec, r, ctx)

    def ended(self, case, r, ctx):
        """The program started, or an error was reported."""
        started = START in r.text()
        err = r.errtext()
        api = case["source"] == "run"
        why = None
        if not started:
            if not api and r.status == 0:
                why = "did not start, but status 0"
            elif "Execution aborted" not in err \
                    and "terminated by user" not in err:
                why = "did not start, and nothing reported"
        elif "Fatal error while" in err:
            why = "started after an argument failed"
        if r.exc:
            why = "raised " + str(r.exc)
        if why:
            return {"class": "exec-args:started", "detail": [
                why, case["args"], r.summary()]}
        if started and r.effects()[0][0] != "print" or len(r.effects()) > 1:
            ctx.nontriv((tuple(case["args"]), case["source"]))
        ctx.probe("started" if started else "argument failed")
        return None

    def alone(self, case, r, ctx):
        """Each argument is evaluated: up to the first failing one the
        effects are those of fewer arguments, in order."""
        if case["source"] == "r" or len(case["args"]) < 2:
            return None
        code = f'{SAY};()'
        k = len(case["args"]) - 1
        s = self.spec(case["source"], case["flags"] + ["-x"], code,
                      case["args"][:k], case["lines"])
        p = ctx.one(s, case["entropy"])
        if p.status in ("steplimit", "deadlock"):
            return None
        a = self.before(p)
        b = self.before(r)
        if "-v" in case["flags"]:
            return None
        why = util.effects_prefix(a, b)
        if why:
            return {"class": "exec-args:order", "detail": [
                why, case["args"], util.short(a), util.short(b)]}
        ctx.probe("compared with fewer arguments")
        return None

    def before(self, r):
        """Effects before the program's own."""
        out = []
        for e in r.effects():
            if e[0] == "print" and START in e[1]:
                h = e[1][:e[1].index(START)]
                if h:
                    out.append(("print", h))
                break
            out.append(e)
        return out

    def faults(self, case, spec, base, ctx):
        log = [e for e in base.log if e[1] in ("print", "read", "draw",
                                               "seed") and e[2] != ""]
        start = [e[0] for e in log if e[1] == "print" and START in e[2]]
        lo = 1
        hi = start[0] - 1 if start else base.steps
        if hi <= lo:
            return None
        for x, kind in case["faults"]:
            at = x if isinstance(x, int) else self.pick_step(
                log, x, lo, hi)
            r = ctx.one(dict(spec, inject=[[at, kind]]),
                        case.get("entropy", 0))
            if not r.fired:
                continue
            why = util.effects_prefix(r.effects(), base.effects())
            err = r.errtext()
            api = case["source"] in ("run", "string")
            if not why and START in r.text():
                why = "the program started"
            if not why and not api and r.status == 0:
                why = "status 0"
            if not why and not err.strip() and not r.exc:
                why = "nothing reported"
            fn = r.fired[0][2]
            # after an argument's first effect: not in the preparation
            inside = fn.startswith("ProgramState.") \
                and "-v" not in case["flags"] \
                and any(e[0] < at for e in log)
            if not why and kind == "KeyboardInterrupt" and inside \
                    and r.tb:
                why = "traceback"
            if not why and inside and api and r.exc:
                why = "raised through the API"
            if why:
                return {"class": "exec-args:cut", "detail": [
                    why, r.fired, r.summary(),
                    spec.get("argv") or spec.get("args")],
                    "frozen": dict(case, faults=[[at, kind]])}
            ctx.probe("cut before the start"
                      + (" (in an argument)" if "while evaluating" in err
                         else ""))
        return None

    def pick_step(self, log, x, lo, hi):
        rng = random.Random(f"c17{x}")
        at = rng.randint(lo, hi)
        ev = [e[0] for e in log if lo <= e[0] <= hi]
        if ev and rng.random() < .5:
            # around something that happened in an argument
            at = max(lo, min(hi, rng.choice(ev) + rng.randint(-1, 40)))
        elif rng.random() < .6:
            at = rng.randint(lo + (hi - lo) // 2, hi)
        return at

    # -- shrinking
    def shrink(self, case):
        if case["mode"] == "plain":
            n = len(case["items"])
            for j in range(n):
                keep = [k for k in range(n) if k != j]
                yield dict(case, items=[case["items"][k] for k in keep],
                           vals=[case["vals"][k] for k in keep],
                           quoted=[case["quoted"][k] for k in keep])
            if case["flags"]:
                yield dict(case, flags=[])
            for j in range(n):
                if case["items"][j] != "a":
                    def put(seq):
                        return seq[:j] + ["a"] + seq[j + 1:]
                    yield dict(case, items=put(case["items"]),
                               vals=put(case["vals"]),
                               quoted=put(case["quoted"]))
            return
        fs = case["faults"]
        if len(fs) > 1:
            for f in fs:
                yield dict(case, faults=[f])
        if fs:
            yield dict(case, faults=[])
        for a in util.shrink_list(case["args"]):
            yield self.vague(dict(case, args=a))
        if case["flags"]:
            yield self.vague(dict(case, flags=[]))
        if case["source"] != "e":
            yield self.vague(dict(case, source="e"))
        for j, a in enumerate(case["args"]):
            if case["mode"] == "wild":
                for s in util.shrink_src(a):
                    yield self.vague(dict(
                        case, args=case["args"][:j] + [s]
                        + case["args"][j + 1:]))
            else:
                from ._sess import shrink_stmts
                for p in shrink_stmts([a]):
                    if len(p) == 1:
                        yield self.vague(dict(
                            case, args=case["args"][:j] + p
                            + case["args"][j + 1:]))

    def vague(self, case):
        """A step number means nothing in another run."""
        if any(isinstance(x, int) for x, _ in case["faults"]):
            k = case["faults"][0][1]
            return dict(case, faults=[[(j + .5) / 16, k]
                                      for j in range(16)])
        return case


PROP = C17()
