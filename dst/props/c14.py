"""C14: REPL entries mean the same however they are spread over lines."""

import random
import re

from .. import session as S
from .. import util
from ..gen import G
from ..wild import Wild
from ._sess import SessionProp

CONT = ".. "
INIT = '(x:"k");(y:[4;5]);(l:[1;[2;3];"s"])'
HIST = "[$_;$__;$___]"
# one line, and the lines it may also be given as
PAIRS = [
    ['O"a".(C10)."b"', ['O"a', 'b"']],
    ['"a".(C10).(C10)."b"', ['"a', '', 'b"']],
    ['"a".(C10).";x".(C10)."b"', ['"a', ';x', 'b"']],
    ['"a".(C10)."  ;quit".(C10)."b"', ['"a', '  ;quit', 'b"']],
    ['"(".(C10).")"', ['"(', ')"']],
    ['"a ".(C10)."  b"', ['"a ', '  b"']],
    ['O"\t".(C10)."\t "."c"', ['O"\t', '\t c"']],
    ['"a".(C10)."b  ".(C10)."c"', ['"a', 'b  ', 'c"']],
    ['O"a".(C10)."\t".(C10)." c".(C10)."  "', ['O"a', '\t', ' c', '  "']],
    ['#("".(C10)." ".(C10)."   ".(C10)."")', ['#"', ' ', '   ', '"']],
    ['"  ".(C10).(C10)."."', ['"  ', '', '."']],
    ['#("a ".(C10)."".(C10).(C10)."")', ['#"a ', '', '', '"']],
    ["1+2", ["1+", "2"]],
    ["[1;2;3;4;5;6;7;8;9;10;11;12]",
     ["[1;", "2;", "3;", "4;", "5;", "6;", "7;", "8;", "9;10;", ";c",
      "", "11;", "12", "]"]],
    ["L2{O1}", ["L", "", "", "", "", "", "", "", "", "", "", "2", "{O1", "",
                "}"]],
    ["1+2*3", ["1+", "2*", "3"]],
    ["I1{O1}", ["I", "1", "{O1}"]],
    ["I1{O1}", ["I 1{", "O1", "}"]],
    ["I0 O1 EL O2", ["I0 O1 EL", "O2"]],
    ["I0{O1}EI1{O2}EL{O3}", ["I0{", "O1}EI1{", "O2}EL{O3", "}"]],
    ["W(#l<5){lPU7}", ["W", "(#l<5)", "{lPU", "7}"]],
    ["Fi,3Oi", ["F", "i", ",", "3", "O", "i"]],
    ["F[x;y][[1;2];[3;4]]{Ox.y}", ["F[x", "y]", "[[1;2];[3;4]]{", "Ox.y}"]],
    ["L3O7", ["L", "3", "O7"]],
    ["LR`a+``aab`O$0", None],
    ['LR"aab"`a+`O$0', ['LR', '"aab"', '`a+`', 'O$0']],
    ["$+[1;2]", ["$", "+", "[1;2]"]],
    ["\\$*[1;2;3]", ["\\$", "*[1;2", ";comment in the entry", "3]"]],
    ["x:5", ["x:", "5"]],
    ["y+:5", ["y+:", "5"]],
    ["Y5", ["Y", "5"]],
    ["1?2 3", ["1?", "2", "3"]],
    ["0?2[3]", ["0?", "2", "[", "3]"]],
    ["1", ["{; c", "more ;}1"]],
    ["[1;2]", ["[1{; c", "O9", ";}2]"]],
    ["[1;2;3]", ["[1", "; O8", "2  O9", "", "3]"]],
    ["[1;2]", ["[1;", " ;quit", "2]"]],
    ["[1;2]", ["[1;", ";quit", "2]"]],
    ["[1;2]", ["[", ";help", "1", ";w on", "2", "]"]],
    ['["x";"y"]', ['["x', None]],
    ["{a+1}3", None],
    ["({a+1}3)", ["({a+", "1}", "3)"]],
    ["({P_a}3)", ["({", "P_", "a}", "3)"]],
    ["[$_;$_;$__]", ["[$_", "$_", "", "$__]"]],
    ["$_.1", ["$_.", "1"]],
    ["#(x:7)", ["#(", "x:7", ")"]],
    ["P1;P2", ["P1;P", "2"]],
    ["(P1);(P2)", ["(P1);(", "P2)"]],
    ["(P1);(x:8);(1/0);(x:9)", ["(P1);(x:8);(1/", "0);(x:9)"]],
    ["O1O2O3", ["O1O2O", "3"]],
    ['`a\\``', ['`a\\``']],
    ["'(", ["'("]],
    ['\\"a"b\\"', ['\\"a"b\\"']],
    ["[1;2]M{a*2}", None],
    ["{a*2}M[1;2]", ["{a*", "2}M", "[1", "2]"]],
    ["T(x=3){(x:3);O x}", ["T(x=", "3)", "{(x:3);", "Ox}"]],
    ["V\"1+\".\"1\"", ["V", "\"1+\".", "\"1\""]],
    ["l@0:9", ["l@", "0:", "9"]],
    ["-3", ["-", "3"]],
    ["!1", ["!", "1"]],
    ["(1)", ["(", "", "", "1", "", ")"]],
    ["()", ["(", ")"]],
    ["[]", ["[", "]"]],
    ["{}", ["{", "}"]],
    ["(r:5);[r;r]", ["(r:5);[r", "r]"]],
    ["WG", None],
    ["5<6<7", ["5<", "6<", "7"]],
    ["C65", ["C", "65"]],
]
PAIRS = [p for p in PAIRS if p[1] is None or None not in p[1]]
BAD = [
    ['(O"BAD");)'], ['(x:9);]'], ['(O"BAD");(x:9);[1)'], ['*5'],
    ['(O"BAD");(x:9);(1]'], ['O"BAD";F3{O4}'], ['(x:9);F[]"a"{O4}'],
    ['(O"BAD");$"x"'], ['(O"BAD");[1;\\$"x"]'], ['EL O1'],
    ['(x:9);{(O"BAD")]}'], ['[1;', '(O"BAD");', ')'],
    ['(O"BAD");{(x:9)', ')', ], ['I1{O"BAD"', ']'], ['(O"BAD");=3'],
    ['"a', 'b")'], ['(O"BAD");(y@0:7);I)'], ['(r:3);)'], ['YP9;)'],
    ['(l:5);W1{(lPU6)]'], ['(O"BAD");', ], ['WG;)'], ['O9;F[x;3]l{}'],
    ['P"BAD";(', '*)'], ['{; c', ';})'], ['(x:9);', ],
    ['deep'],
]
BAD = [b for b in BAD if b not in (['(O"BAD");'], ['(x:9);'])]
CMDS = [";help", ";h", ";HELP", "; he now", ";warnings", ";w on", ";w off",
        ";Warn", ";w maybe", ";comment", "; (O\"C\")", ";(x:9)", ";\"", ";(",
        ";quitx", "; quits", ";exits", ";", ";;", "", " ", "\t", " ;quit",
        ";helper", "{;c;}", "  ", ";note\tquit", "{;O9;}",
        ";xx", ";qu1t", "; `", ";{;", " ;exit", "{; ;quit ;}"]
QUITS = [";q", ";quit", ";exit", ";x", ";Q", ";Ex", "; quit now", ";e",
         ";qu it"]
LEX = re.compile(r"\$[][()$`'0-9]|\$[a-z][a-z0-9_]*|\$_{1,3}|\\[a-g]"
                 r'|"[^"]*"|`([^`\\]|\\.)*`|\'.|\\"(\\[^"]|[^\\])*\\"'
                 r"|\d+(\.\d+)?|[A-Z]+|[a-z_]|\{;.*?;\}| +|[][(){};]"
                 r"|[^][(){};\sA-Za-z0-9\"`'_$\\]+|.")


def break_points(src):
    """Positions of a one-line entry where a line may end: the text before
    cannot be complete, and a newline there is mere whitespace."""
    out = []
    depth = 0
    toks = [m.group() for m in LEX.finditer(src)]
    pos = 0
    for k, t in enumerate(toks):
        pos += len(t)
        if t in ("(", "[", "{"):
            depth += 1
        elif t in (")", "]", "}"):
            depth -= 1
            if depth < 0:
                return []
        if t.startswith((" ", "{;")) and len(t) > 1:
            return []
        if depth <= 0 or k + 1 >= len(toks):
            continue
        n = toks[k + 1]
        if n == ";" or t[0] in "\\$" and len(t) == 1:
            continue
        if t in ("(", "[", "{", "}", ")", "]", ";", " ") \
                or n in ("(", "[", "{", ")", "]", "}", " ") \
                or t[0] in '"`' or n[0] in '"`':
            out.append(pos)
    return out


class C14(SessionProp):
    id = "C14"
    level = "fault_enumeration"
    quick_cases = 1200
    profile = "mix"
    fault_rate = 0.0
    deep_rate = 0.0
    rule = ("case = REPL session (judged by the reference model where it is "
            "in the modelled sub-language) and other deliveries of it: "
            "entries spread over lines at any point, with syntax errors, "
            "commands, comments, blank lines in between, ended by EOF in an "
            "entry or a quit command, and the bytes arriving in any pieces; "
            "each must act entry by entry as the plain session, also under "
            "the same fault; nontrivial = distinct delivery with at least "
            "one entry on several lines")
    assumptions = ("entries that read stdin themselves are only compared "
                   "between deliveries of the same lines",)

    # -- generation
    def gen(self, rng, i):
        x = rng.random()
        if x < .4:
            case = SessionProp.gen(self, rng, i)
            ents = [S.source(e) for e in case["entries"]]
            base = {"mode": "model", "entries": case["entries"],
                    "names": case["names"], "probes": case["probes"]}
        elif x < .88:
            w = Wild(rng, draws=True)
            g = G(rng, effects=.3, depth=2)
            ents = [INIT]
            n = rng.randint(2, 6)
            while len(ents) < n + 1:
                y = rng.random()
                if y < .45:
                    e = rng.choice(PAIRS)[0]
                elif y < .7:
                    e = w.stmt(rng.choice([0, 1, 1, 2]))
                    if rng.random() < .5:
                        e = f'(O"<{len(ents)}>");' + e
                elif y < .85:
                    e = g.stmt()
                else:
                    e = rng.choice([HIST, "x", "[x;y;l]", "$_", "r",
                                    "(x:3);(1/0);(x:4)", "(x:3)", "{a}"])
                if "\n" in e or "q" in e.replace(";quit", "") or "  " in e and \
                        e not in [p[0] for p in PAIRS]:
                    continue
                ents.append(e)
                if rng.random() < .5:
                    ents.append(HIST)
            ents.append(HIST)
            base = {"mode": "all", "ents": ents}
        else:
            base = {"mode": "reads", "lines": self.read_session(rng)}
            base["deliveries"] = [self.delivery(rng, base["lines"])
                                  for _ in range(4)]
            base["entropy"] = rng.randrange(100)
            base["flags"] = []
            return base
        base["flags"] = rng.choice([[], [], [], ["-w"], ["-p"], ["-l"]])
        base["entropy"] = rng.randrange(100)
        base["variants"] = [self.variant(rng, ents) for _ in range(3)]
        base["faults"] = [[rng.random(), rng.choice(
            ["KeyboardInterrupt", "MemoryError"])]]
        if base["mode"] == "model":
            base["deep"], base["depth"] = [], None
        return base

    def read_session(self, rng):
        out = [INIT]
        for _ in range(rng.randint(2, 5)):
            out += rng.choice([
                ["(x:q)", "l 1", "x"], ["[q;q]", "a", ";quit"],
                ["(O", "q)", "7"], ["W(x:q){O", "x}", "5", "6", "0"],
                ["({q}M", ",3)", "u", "", "w"], ["x", "HIST"],
                ["Pq;Pq", ">> ", "(("], ["1/q", "0"], ["[q", "x]", "9"],
                [";w", "$u", ";w"], ['"a', 'b".q', "tail"], [")", "x"],
                ["(q<5)", "3"], ["{", "q}", "5"]])
        return [HIST if e == "HIST" else e for e in out]

    def variant(self, rng, ents):
        plan = []
        style = rng.random()
        for k, e in enumerate(ents):
            while rng.random() < .25:
                plan.append(self.noise(rng))
            alts = [p[1] for p in PAIRS if p[0] == e and p[1]]
            if alts and rng.random() < .7:
                plan.append(["entry", k, list(rng.choice(alts))])
                continue
            plan.append(["entry", k, self.split(rng, e, style)])
        if rng.random() < .3:
            plan.append(self.noise(rng))
        end = "eof"
        x = rng.random()
        if x < .25:
            plan.append(["quit", [rng.choice(QUITS), '(O"LATE")']])
        elif x < .5:
            end = "open"
            plan.append(["open", rng.choice([
                ['(O"BAD");(x:9);('], ['(O"BAD");"abc', "d"], ["{", "1"],
                ['(O"BAD");1+'], ["{; never", "closed"], ["I1"], ["`a", "b"],
                ['O"BAD";F[x', "y"], ['\\"abc']])])
        del end
        text = "".join(ln + "\n" for it in plan for ln in it[-1])
        if plan[-1][-1][-1] and rng.random() < .3:
            text = text[:-1]
        if rng.random() < .15:
            text = text.replace("\n", "\r\n")
        text = util.b2s(text)
        items = [["d", text]] if rng.random() < .3 else util.sprinkle(
            rng, util.chunkings(rng, text, rng.choice([6, 30])))
        return {"plan": plan, "items": items}

    def noise(self, rng):
        if rng.random() < .4:
            b = rng.choice(BAD)
            if b == ["deep"]:
                p = rng.choice(["(", "[", "-(", "I1{"])
                b = ['(O"BAD");' + p * rng.randint(1000, 1500)]
            return ["bad", list(b)]
        return ["cmd", [rng.choice(CMDS)]]

    def split(self, rng, src, style):
        pts = break_points(src)
        if not pts or rng.random() < .25:
            return [src]
        if style < .15:
            cuts = pts
        else:
            cuts = sorted(rng.sample(pts, min(len(pts),
                                              rng.choice([1, 1, 2, 3, 5]))))
        lines = []
        prev = 0
        for c in cuts + [len(src)]:
            ln = src[prev:c]
            prev = c
            if lines and rng.random() < .06:
                lines.append(rng.choice(["", " ", ";help", "; O9", ";quit",
                                         " ;w", "{;O9;}"]))
            if c < len(src) and rng.random() < .06 and ln.strip():
                ln += rng.choice(["  O9", " ", "\t", "  ;quit", " {;x;}"])
            elif lines and rng.random() < .06:
                ln = rng.choice([" ", "\t"]) + ln
            lines.append(ln)
        return lines

    def delivery(self, rng, lines):
        text = util.b2s("".join(ln + "\n" for ln in lines))
        if rng.random() < .3:
            text = text[:-1]
        if rng.random() < .3:
            text = text.replace("\n", "\r\n")
        return util.sprinkle(rng, util.chunkings(rng, text, 20), .2, .2)

    # -- running
    def ents(self, case):
        return case["ents"] if case["mode"] == "all" else \
            [S.source(e) for e in case["entries"]]

    def spec_of(self, case, items):
        return {"argv": ["-R"] + case["flags"], "stdin": items,
                "max_steps": self.max_steps, "depth": 950}

    def check(self, case, ctx):
        if case["mode"] == "reads":
            return self.reads(case, ctx)
        ents = self.ents(case)
        if not ents:
            return None
        sa = self.spec_of(case, util.lines_to_items(ents))
        a = ctx.one(sa, case["entropy"])
        if a.status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        if case["mode"] == "model" and "-w" not in case["flags"]:
            n = ctx.skipped
            if not case["flags"]:
                v = self.judge(dict(case, deep=[]), a, (), ctx)
                if v:
                    v["frozen"] = dict(case, variants=[], faults=[])
                    return v
            ctx.skipped = n
        segs = S.segments(a)[1:]
        if [s["line"].rstrip("\n") for s in segs[:-1]] != ents \
                and any("V" in e for e in ents):
            # evaluated text that read a line
            ctx.skipped += 1
            return None
        for var in case["variants"]:
            if any(it[0] == "entry" and len(it[2]) > 1
                   and "Syntax error" in segs[it[1]]["err"]
                   for it in var["plan"]):
                # wrong before its end: may be discarded before its end
                ctx.skipped += 1
                continue
            v = self.one_variant(case, ents, sa, a, var, ctx)
            if v:
                v["frozen"] = dict(case, variants=[var],
                                   faults=[v.pop("f")] if "f" in v else [])
                return v
        return None

    def one_variant(self, case, ents, sa, a, var, ctx):
        sb = self.spec_of(case, var["items"])
        b = ctx.one(sb, case["entropy"])
        if b.status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        why, merged = self.compare(case, a, b, var)
        if why:
            return {"class": "delivery", "detail": [
                why, {"lines": [it[-1] for it in var["plan"]],
                      "plain": a.summary(), "spread": b.summary()}]}
        multi = sum(1 for it in var["plan"]
                    if it[0] == "entry" and len(it[2]) > 1)
        ctx.probe("entries on several lines", multi)
        ctx.probe("entries with syntax errors", sum(
            1 for it in var["plan"] if it[0] == "bad"))
        if multi:
            ctx.nontriv((tuple(ents), str(var["plan"])))
        for f in case["faults"]:
            v = self.faulted(case, ents, sa, sb, a, merged, var, f, ctx)
            if v:
                v["f"] = f
                return v
        return None

    def faulted(self, case, ents, sa, sb, a, merged, var, f, ctx):
        segs = S.segments(a)[1:]
        rng = random.Random(f"c14{f[0]}")
        opts = []
        for k in range(len(ents)):
            pa = self.inner(segs[k])
            pb = self.inner(merged[k]) if k in merged else []
            if len(pa) == len(pb) and len(pa) > 1:
                opts.append((k, pa, pb))
        if not opts:
            return None
        k, pa, pb = rng.choice(opts)
        j = rng.randrange(len(pa) - 1)
        fa = ctx.one(dict(sa, inject=[[pa[j] + 1, f[1]]]), case["entropy"])
        fb = ctx.one(dict(sb, inject=[[pb[j] + 1, f[1]]]), case["entropy"])
        if not fa.fired or not fb.fired:
            return None
        why, _ = self.compare(case, fa, fb, var)
        if why:
            return {"class": "delivery:cut", "detail": [
                why, fa.fired, fb.fired,
                {"lines": [it[-1] for it in var["plan"]],
                 "plain": fa.summary(), "spread": fb.summary()}]}
        ctx.probe("pairs compared under the same fault")
        return None

    def inner(self, seg):
        return [s for s, d in seg["prints"]
                if not d.endswith(S.PROMPT) and d != CONT]

    def marks(self, err):
        """Errors reported, without warnings."""
        return [t for t in err.split("\n") if t.startswith(
            ("Fatal", "Syntax", "Execution", "Traceback", "Could not"))]

    def compare(self, case, a, b, var):
        """Explanation of a difference, and B's segments per entry of A."""
        sa = S.segments(a)[1:]
        sb = S.segments(b)[1:]
        merged = {}
        if a.status != b.status or a.exc != b.exc:
            return f"status {b.status}/{b.exc} not {a.status}/{a.exc}", merged
        pos = 0
        done = False
        helps = 0
        for it in var["plan"]:
            kind, lines = it[0], it[-1]
            n = 1 if kind == "quit" else len(lines)
            segs = sb[pos:pos + n]
            pos += n
            if len(segs) < n:
                return f"only {len(sb)} lines read", merged
            for ln, s in zip(lines, segs):
                if s["line"].rstrip("\r\n") != ln:
                    return f"read {s['line']!r} not {ln!r}", merged
            for s in segs[:-1]:
                if s["text"] != CONT:
                    return f"after {s['line']!r}: {s['text']!r}", merged
                if self.marks(s["err"]):
                    return f"after {s['line']!r}: {s['err']!r}", merged
            last = segs[-1]
            txt, errs = last["text"], self.marks(last["err"])
            if kind == "entry":
                ref = sa[it[1]]
                merged[it[1]] = last
                if txt != ref["text"]:
                    return f"entry {lines}: {util.short(txt)} instead of " \
                           f"{util.short(ref['text'])}", merged
                if errs != self.marks(ref["err"]):
                    return f"entry {lines}: {errs} instead of " \
                           f"{self.marks(ref['err'])}", merged
            elif kind == "bad":
                if txt != S.PROMPT:
                    return f"syntax error {lines}: printed {txt!r}", merged
                if len(errs) != 1 or not errs[0].startswith("Syntax error"):
                    return f"syntax error {lines}: reported {errs}", merged
            elif kind == "cmd":
                w = lines[0][1:].lower().split()
                if lines[0].startswith(";") and w \
                        and "help".startswith(w[0]):
                    helps += 1
                    if not txt.endswith(S.PROMPT) or len(txt) < 40:
                        return f"no help {txt!r}", merged
                elif txt != S.PROMPT:
                    return f"{lines[0]!r} printed {txt!r}", merged
                if errs:
                    return f"{lines[0]!r} reported {errs}", merged
            elif kind == "quit":
                done = True
                if txt != "Bye!\n" or errs:
                    return f"{lines[0]!r}: {txt!r} {errs}", merged
                if len(sb) != pos:
                    return "lines read after quitting", merged
            else:
                if txt != CONT or errs:
                    return f"unfinished entry {lines}: {txt!r} {errs}", \
                        merged
        if not done:
            if len(sb) != pos + 1 or sb[-1]["text"] != "Bye!\n":
                return f"end of session {[s['text'] for s in sb[pos:]]}", \
                    merged
        da = [e[1:] for e in a.effects() if e[0] in ("draw", "seed")]
        db = [e[1:] for e in b.effects() if e[0] in ("draw", "seed")]
        if da != db:
            return "random draws", merged
        return None, merged

    def reads(self, case, ctx):
        base = None
        for d in [util.lines_to_items(case["lines"])] + case["deliveries"]:
            r = ctx.one(self.spec_of(case, d), case["entropy"])
            if r.status in ("steplimit", "deadlock"):
                ctx.skipped += 1
                return None
            got = [r.status, r.exc, r.text(), self.marks(r.errtext()),
                   [[e[0], str(e[1]).rstrip("\r\n")] for e in r.effects()
                    if e[0] == "read"]]
            if base is None:
                base = got
            elif got != base:
                k = [g != w for g, w in zip(got, base)].index(True)
                return {"class": "delivery:reads",
                        "frozen": dict(case, deliveries=[d]),
                        "detail": [case["lines"], got[k], base[k]]}
            else:
                ctx.nontriv((str(case["lines"]), str(d)))
        return None

    # -- shrinking
    def shrink(self, case):
        if case["mode"] == "reads":
            return
        if case["faults"]:
            yield dict(case, faults=[])
        if len(case["variants"]) != 1:
            return
        var = case["variants"][0]
        plan = var["plan"]

        def with_plan(p):
            text = util.b2s("".join(ln + "\n" for it in p for ln in it[-1]))
            return {"plan": p, "items": [["d", text]]}
        if len(var["items"]) > 1:
            yield dict(case, variants=[with_plan(plan)])
        for k, it in enumerate(plan):
            if it[0] != "entry":
                yield dict(case, variants=[with_plan(plan[:k]
                                                     + plan[k + 1:])])
            elif len(it[2]) > 1 and case["mode"] == "all":
                one = case["ents"][it[1]]
                yield dict(case, variants=[with_plan(
                    plan[:k] + [["entry", it[1], [one]]] + plan[k + 1:])])
        if case["mode"] == "all":
            ents = case["ents"]
            for j in range(len(ents)):
                p = []
                for it in plan:
                    if it[0] == "entry":
                        if it[1] == j:
                            continue
                        it = ["entry", it[1] - (it[1] > j), it[2]]
                    p.append(it)
                if len(ents) > 1:
                    yield dict(case, ents=ents[:j] + ents[j + 1:],
                               variants=[with_plan(p)])


PROP = C14()
