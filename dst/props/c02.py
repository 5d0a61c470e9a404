"""C02: no failing statement can end a REPL session."""

import random

from ..gen import G, UN_SAFE, BIN_SAFE
from ..runner import Prop
from .. import session as S
from .. import util

PROMPTS = (">> ", ".. ")
WEIRD = ["()", '""', '"abc"', '"a1b2"', "[]", "[1;2]", '[[1];"x"]', "{a}",
         "`(`", "`a`", "0", "-1", "3", "2.5", "(0,3)", "[()]", "[{a};1]",
         "[`(`]", "_", "(2,0)", '["";[]]', "[0;0]", "{CS0}", "{V\"(\"}",
         "x", "l", "$q", "1,()", "(),3"]
HOFS = ["M", "MJ", "MS", "MM", "ME", "MP", "MU", "MC", "MR", "MZ", "MF",
        "FI", "FN", "FE", "FX", "FU", "FJ", "SK", "DK", "R", "V", "J", "WV",
        "SC", "TB", "FB", "RR", "RA", "E", "X", "CB", "CP", "ZG", "RL"]
FAILS = ['(V"(")', "(CS0)", "(CT0)", "(C(-1))", '(RC"")', "(RC[])",
         '("a"~(`(`))', "(RR0)", "(5RR2)", '((`(`)R"a"1)', "(V\"{\")",
         "({a:a;(f(a))}(1))", "({x:a;(RE(x))}(1))", "([]RA1 2)",
         "({V\"(\"}M[1;2])", "(SH{a})", '(V"]")', "({(f(f))}(f))"]
# Not expressions: whole entries with a syntax error.
BAD = [")", "]", "(1))", "[1]]", "W1)", "I)", "?", "1?2)",
       "+)", "(;)", "FiF", ":", "::", "EL1)", "\\)", "*)",
       "F[]l{1}", "F[1]l{1}", "F[x;1]l{1}", "F5l{1}", 'F"a"l{1}', "F(x)l{1}",
       "(1/)", "(/1))", "[)", "{)}", "[$;1]", "(:)",
       "I){1}", "EL{1}", "[1;2)", "(1]", "{1]", "{1;)", "(1+)", "(1+])",
       "{I}", "{W}", "{F}", "{Fi}", "(1?2)", "(1?)", "{L}", "F;l{1}",
       "[1:2)", "1+}", "{1+}", "[1+]", 
       "{T}", "LR}", "LR`a`)", "(I1{2})", "[W1{2}]", "1+I2", "(FI)",
       "Y)", "MX]", "{RE)}", "V]", "(_)]", "(.)", "1(2))", "[[1;2)]",
       "F[x;y;]l{1)", "*:1)", "$*)", "\\$)", "^*)", "#*]"]
CHARS = list("()[]{};:,.@#$%&|!?+-*/<>=~^_abcixyzABFILMPRSTW01259 '") \
    + ["\"", "`", "AL", "RE", "MX", "FI", "LR", "WG", "EL", "SW", "::", "//",
       "\\$", "\\", "$_", "\u00e9", "\t", "  ", ";;"]
QUITS = [";q", ";quit", ";qu", ";exit", ";e", ";x", ";EXIT", ";quit now",
         ";  q"]
# Comments, some of them commands, that leave the session running.
CMDS = [";h", ";help", ";HELP me", ";he", ";w", ";warnings", ";warnings on",
        ";w off", ";warn ON", ";w on off", ";w x", ";wa  on ", ";1", ";hello",
        ";wx", ";", "; ", ";;", ";;w", ";quitx", ";exits", ";q1", ";xx",
        ";warningsx", "; help", ";\thelp", ";+", ";\u00e9", ";{", ';"abc',
        ";(1", ";`", ";[ ]", ";'", ";\\\"", "; w ;w", ";on", ";off", "  ;q",
        "\t;quit", ";w;q", ";warnings\ton"]
CLOSERS = ['"', ")", "}", "]", "`", "1", "))", "}}", "1)", "i", "1}"]


class C02(Prop):
    id = "C02"
    level = "fault_enumeration"
    quick_cases = 4000
    rule = ("case = REPL session of failing, random and garbage entries, "
            "each followed by a probe entry, x Ctrl-C / failed allocations "
            "while entries execute, failed allocations while they are "
            "parsed, bounded stack, and one of the ways to end a session; "
            "nontrivial = an entry failed (error on stderr) and a probe "
            "entry after it was executed")
    assumptions = ("faults strike at source-line boundaries of the "
                   "repository's functions; Ctrl-C while an entry is being "
                   "parsed is not part of the property",)
    max_steps = 60000

    def gen(self, rng, i):
        g = G(rng, effects=0.2, depth=rng.choice([2, 3]),
              reads=rng.random() < .2)
        ents = []
        for j in range(rng.randint(2, 6)):
            x = rng.random()
            if x < .3:
                body = [g.stmt() for _ in range(rng.randint(1, 2))]
                ents.append(["stm", body])
            elif x < .5:
                ents.append(["stm", [rng.choice(FAILS)]])
            elif x < .68:
                ents.append(["stm", [self.weird(rng)
                                     for _ in range(rng.randint(1, 2))]])
            elif x < .76:
                ents.append(["bad", rng.choice(BAD)])
            elif x < .79:
                ents.append(["cmd", rng.choice(CMDS)])
            elif x < .84:
                n = int(2 ** (rng.random() * 11))
                o, c = rng.choice(["()", "[]", "{}", ["(-", ")"],
                                   ["{L1{", "}}"], ["V(", ")"],
                                   ["I1{", "}"]])
                ents.append(["raw", o * n + "1" + (c * n)])
            else:
                ents.append(["raw", "".join(
                    rng.choice(CHARS)
                    for _ in range(rng.randint(1, 14)))])
        return {"entries": ents,
                "end": rng.choice(["eof", "eof", "ki", "quit", "mid-eof",
                                   "mid-ki", "no-nl"]),
                "quit": rng.choice(QUITS),
                "depth": rng.choice([None, None, 150, 220, 300]),
                "entropy": rng.randrange(100),
                "flags": rng.choice([[], [], [], ["-w"], ["-p"]]),
                "picks": [[rng.choice(["KeyboardInterrupt", "MemoryError",
                                       "parse"]), rng.random()]
                          for _ in range(4)]}

    def weird(self, rng):
        x = rng.random()
        w = lambda: rng.choice(WEIRD[:-2])
        if x < .3:
            return f"({rng.choice(UN_SAFE)}({w()}))"
        if x < .7:
            return f"(({w()}){rng.choice(BIN_SAFE)}({w()}))"
        if x < .85:
            return f"(({w()}){rng.choice(HOFS)}({w()}))"
        if x < .92:
            op = rng.choice(["R", "TR", "RA", "MZ", "MR"])
            return f"(({w()}){op}({w()})({w()}))"
        op = rng.choice(BIN_SAFE)
        if x < .96:
            return f"(x{op}:({w()}))" if op != "::" else "(x::y)"
        return f"(({w()})({w()})({w()}))"

    # -- session text
    def complete(self, text, ctx):
        """Lines that make up a complete entry beginning with `text`."""
        lines = [text]
        for _ in range(6):
            r = ctx.one({"argv": ["-R"], "max_steps": 3000000,
                         "stdin": util.lines_to_items(lines)})
            body = S.segments(r)[1:]
            if r.status != 0 or len(body) != len(lines) + 1:
                return lines         # judged with the whole session
            if not body[-2]["text"].endswith(".. "):
                return lines
            lines.append(CLOSERS[(len(text) * 7 + len(lines) * 5)
                                 % len(CLOSERS)])
        # Held so far: some continuation must complete it or be an error.
        for lex in ["", "1", ";1", '\\"', '1\\"', "1`", '"', "`", " 1 1 1{1}", ";}", '"`', "' ",
                    "x{1}"]:
            for close in [")", "]", "}", "))", "}}"]:
                more = [text, lex + close]
                r = ctx.one({"argv": ["-R"], "max_steps": 3000000,
                             "stdin": util.lines_to_items(more)})
                body = S.segments(r)[1:]
                if r.status != 0 or len(body) != 3 \
                        or not body[-2]["text"].endswith(".. "):
                    return more
        return None

    def lines(self, case, ctx):
        out = []
        roles = []
        for n, (kind, x) in enumerate(case["entries"]):
            if kind == "stm":
                ls = [f'(O"<a{n}>");' + ";".join(x) + f';(O"<b{n}>")']
                rs = ["stm"]
            elif kind in ("bad", "cmd"):
                ls, rs = [x], [kind]
            else:
                if x.lstrip().startswith(";"):
                    continue           # a command
                if x.count("(") + x.count("[") + x.count("{") > 40:
                    ls = [x]
                else:
                    ls = self.complete(x, ctx)
                if ls is None:
                    return None, x
                rs = ["raw"] + ["more"] * (len(ls) - 1)
            out += ls + [f'(O"<p{n}>")']
            roles += rs + ["probe"]
        return out, roles

    def spec(self, case, lines):
        items = util.lines_to_items(lines)
        end = case["end"]
        if end == "ki":
            items.append(["ki"])
        elif end == "quit":
            items += util.lines_to_items([case["quit"], '(O"<after>")'])
        elif end == "mid-eof":
            items += util.lines_to_items(["(1+"])
        elif end == "mid-ki":
            items += util.lines_to_items(['"abc'])
            items.append(["ki"])
        elif end == "no-nl":
            items.append(["d", '(O"<last>")'])
        spec = {"argv": ["-R"] + case["flags"], "stdin": items,
                "max_steps": self.max_steps}
        if case["depth"]:
            spec["depth"] = case["depth"]
        return spec

    def check(self, case, ctx):
        lines, roles = self.lines(case, ctx)
        if lines is None:
            return {"class": "held-forever", "detail": roles}
        if not lines:
            return None
        spec = self.spec(case, lines)
        base = ctx.one(spec, case["entropy"], trace=True)
        v = self.judge(case, lines, roles, base, ctx)
        if v:
            v["frozen"] = dict(case, picks=[])
            return v
        if base.status == "steplimit":
            return None
        segs = S.segments(base)[1:]
        for kind, x in case["picks"]:
            if isinstance(x, int):
                step = x
            else:
                step = self.choose(base, segs, kind, x)
                if step is None:
                    continue
            name = "MemoryError" if kind == "parse" else kind
            r = ctx.one(dict(spec, inject=[[step, name]]), case["entropy"])
            v = self.judge(case, lines, roles, r, ctx, step)
            if v:
                v["frozen"] = dict(case, picks=[[kind, step]])
                return v
        return None

    def choose(self, base, segs, kind, x):
        rng = random.Random(f"c02{x}")
        wins = []
        for s in segs:
            if not s["text"].endswith(">> "):
                continue
            if kind == "parse":
                w = [n for n in range(s["first"] + 1, s["last"] + 1)
                     if base.trace[n - 1][0].co_filename.endswith(
                         ("scanning.py", "parsing.py"))]
                if w:
                    wins.append(w)
            else:
                ps = list(s["prints"])
                ps.pop()
                if len(ps) > 1 and ps[-1][0] > ps[0][0]:
                    wins.append(range(ps[0][0] + 1, ps[-1][0] + 1))
        if not wins:
            return None
        w = rng.choice(wins)
        if rng.random() < .3:
            return rng.choice(w)
        by = {}
        for n in w:
            c, line = base.trace[n - 1]
            by.setdefault((c.co_qualname, line), []).append(n)
        return rng.choice(by[rng.choice(sorted(by))])

    def judge(self, case, lines, roles, r, ctx, step=None):
        info = {"status": r.status, "exc": r.exc, "fired": r.fired,
                "err": r.errtext()[-400:], "out": r.text()[-300:]}
        if r.status in ("steplimit", "deadlock"):
            if r.status == "deadlock":
                return {"class": "deadlock", "detail": info}
            if step is not None and r.fired:
                # the cut run may loop legitimately only if the base does
                return None
            ctx.skipped += 1
            return None
        if r.status != 0 or r.tb:
            return {"class": "session-died", "detail": info}
        segs = S.segments(r)
        body = segs[1:]
        if not body:
            return {"class": "no-session", "detail": info}
        if not body[-1]["text"].endswith("Bye!\n"):
            return {"class": "no-farewell", "detail": info}
        # which lines were taken at which prompt
        prev = segs[0]
        fails = 0
        taken = 0
        for seg in body:
            if seg["line"] is None or seg["line"] == "":
                break
            at = prev["text"][-3:]
            line = seg["line"].rstrip("\n")
            role = roles[taken] if taken < len(lines) else "end"
            if taken < len(lines) and line != lines[taken]:
                return {"class": "line", "detail": [line, lines[taken],
                                                    info]}
            hit = [f for f in r.fired
                   if seg["first"] < f[0] <= seg["last"]]
            if at == ">> " and role == "probe":
                n = line[4:-2]
                want = f'<{n}"<{n}"\n'
                if not seg["text"].startswith(want) and not hit:
                    return {"class": "not-executed",
                            "detail": [line, seg["text"], info]}
                if fails and not hit:
                    ctx.nontriv((tuple(lines[:taken + 1]), step))
                    ctx.probe("entries executed after a failure")
            if at == ">> " and role in ("bad", "cmd") and not hit \
                    and seg["text"].endswith(".. "):
                return {"class": "held", "detail": [line, info]}
            if at == ">> " and role in ("stm", "bad"):
                done = role == "stm" and \
                    "<b" + line.rpartition("<b")[2][:-2] in seg["text"]
                if not done and seg["text"].endswith(">> "):
                    fails += 1
                    if not seg["err"].strip():
                        return {"class": "unreported",
                                "detail": [line, seg["text"], info]}
            if hit:
                fails += 1
                if not seg["err"].strip():
                    return {"class": "unreported-fault",
                            "detail": [line, seg["text"], info]}
            if seg["err"].strip():
                fails += 1
            prev = seg
            taken += 1
        if taken < len(lines):
            return {"class": "ended-early", "detail": [taken, len(lines),
                                                       info]}
        if case["end"] == "quit" and "<after>" in r.text() \
                and prev is not None and not self.eaten(body, case):
            return {"class": "not-ended", "detail": info}
        return None

    def eaten(self, body, case):
        """The quit command was input of q or of an open entry."""
        prev = None
        for s in body:
            if s["line"] is not None and \
                    s["line"].rstrip("\n") == case["quit"]:
                return prev is not None and \
                    not prev["text"].endswith(">> ")
            prev = s
        return False

    def shrink(self, case):
        if len(case["picks"]) > 1:
            for p in case["picks"]:
                yield dict(case, picks=[p])
        if case["picks"]:
            yield dict(case, picks=[])
        if case["end"] != "eof":
            yield dict(case, end="eof")
        if case["depth"]:
            yield dict(case, depth=None)
        if case["flags"]:
            yield dict(case, flags=[])
        for es in util.shrink_list(case["entries"]):
            if es:
                yield self.repick(case, es)
        for i, (k, x) in enumerate(case["entries"]):
            es = case["entries"]
            if k == "stm":
                for ys in util.shrink_list(x):
                    if ys:
                        yield self.repick(case, es[:i] + [[k, ys]]
                                          + es[i + 1:])
                for j, y in enumerate(x):
                    for z in util.shrink_src(y):
                        yield self.repick(case, es[:i] + [
                            [k, x[:j] + [z] + x[j + 1:]]] + es[i + 1:])
            elif k == "raw":
                for y in util.shrink_list(list(x)):
                    yield dict(case, entries=es[:i] + [[k, "".join(y)]]
                               + es[i + 1:])

    def repick(self, case, es):
        ps = []
        for k, x in case["picks"]:
            ps += [[k, (j + .5) / 10] for j in range(10)] \
                if isinstance(x, int) else [[k, x]]
        return dict(case, entries=es, picks=ps[:24])


PROP = C02()
