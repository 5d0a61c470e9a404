"""C05: input lines are consumed exactly once, in order, on demand."""

import json
import re

from ..gen import G
from ..mgen import MG
from ..runner import Prop
from .. import model as M
from .. import session as S
from .. import util

LINES = ["l1", "22", "a b", "x", "5", "", "0", "-3", " lead", "trail ",
         "\u00e9\u03bb", "a\x0bb", "a\x0cb", "a\x1cb", "a\u2028b", "a\x85b",
         "q", "(", "\"", "\ttab", "\U0001f600", ";quit", "\x1a", "\x04",
         "\ufeffbom", "$q", "long" * 30, "end\x1c", "\x1d", "fs\x1f ", "nb\xa0",
         "\u3000", "nul\x00x", "a\x08"]
TERMS = ["\n", "\n", "\r\n", "\r"]


def lines_of(text):
    """The lines of an input text, as the property defines them."""
    parts = re.split("\r\n|\r|\n", text)
    if parts[-1] == "":
        parts.pop()
    return parts


class C05(Prop):
    id = "C05"
    level = "exploration"
    quick_cases = 2500
    rule = ("case = program that reads (modelled sub-language: outputs and "
            "reads must be the model's events; all operators: reads must be "
            "the line sequence and every delivery must give the same "
            "effects; -r: the arguments must be the lines) x deliveries of "
            "the same text; nontrivial = distinct (program, delivery) whose "
            "program took at least one line")
    assumptions = ("stdin is utf-8", )
    max_steps = 40000

    # -- generation
    def gen(self, rng, i):
        n = rng.choice([0, 1, 2, 3, 4, 6, 9])
        many = rng.random() < .05
        if many:
            n = rng.choice([20, 30, 50, 120])
        odd = rng.random() < .5
        lines = [rng.choice(LINES if odd else LINES[:7]) for _ in range(n)]
        if lines and rng.random() < .04:
            k = rng.randrange(len(lines))
            lines[k] = (lines[k] + rng.choice(["z", "\u00e9", "ab ", "1"])) \
                * rng.choice([512, 1024, 4095, 4096, 8191, 8192, 8193,
                              16384, 33000, 65535, 65536])
        term = rng.choice(TERMS)
        text = "".join(l + (term if rng.random() < .9 else
                            rng.choice(TERMS)) for l in lines)
        if lines and rng.random() < .3:
            text = text.rstrip("\r\n")
        x = rng.random()
        case = {"text": text, "entropy": rng.randrange(100),
                "deliveries": [self.delivery(rng, text) for _ in range(4)],
                "entry": rng.choice(["e", "e", "e", "f", "run", "pip"])}
        if x < .5:
            case["mode"] = "model"
            case["args"] = rng.choice([[], ["ab"], ["3", "x y"]])
            case["prog"] = self.model_program(rng, lines_of(text),
                                              case["args"], many)
        elif x < .8:
            case["mode"] = "all"
            case["args"] = []
            g = G(rng, effects=.3, depth=rng.choice([2, 3]))
            parts = g.program(rng.randint(2, 4))
            for _ in range(rng.randint(0, 3)):
                parts.insert(rng.randrange(len(parts) + 1), rng.choice([
                    "(Pq)", "(x:q)", "[q;q]", "({q}M,3)", "L2{Oq}",
                    "(q.q)", "W(x:q){Ox}", "(0&q)", "(1|q)", "(q?1q)",
                    "({a}SKq)", "(Yq)", "{Pq}2", "(V\"q.q\")", "(q:5)",
                    "(q@0)", "(qR`.`{q})", "F[x;y][q;q]{Oy}", "({q}MC2)",
                    "(q<q<q)", "(qN(q|1))", "(#q)", "(q:q)", "(Uq)",
                    "(POq)", "(q::x)", "(0\\&q)", "(q.:q)", "(q)",
                    "Fi,2{Iq{Oi}}", "L40Oq", "(({q}M,33)J'.)", "L60{x.:q}",
                    "W(y<99){y+:1;Iq{Oy}}", "T!q{O1}", "(RPq)", "LR`a`q{Oq}"]))
            case["prog"] = parts
        else:
            case["mode"] = "r"
            case["args"] = rng.choice([[], ["ignored"]])
            case["prog"] = None
        return case

    def model_program(self, rng, lines, args, many=False):
        mg = MG(rng, rng.choice(["mix", "calls"]), markers=.3, reads=.5)
        best = None
        for _ in range(8):
            st = []
            if many:
                v = ["v", rng.choice("xyhs")]
                st.append(rng.choice([
                    ["WHILE", ["as", v, ["q"]], [["out", "P", v]]],
                    ["LOOP", ["n", rng.choice(["30", "60"])],
                     [["as", v, ["q"]], ["out", "O", v]]],
                    ["hof", "M", ["lam", [["q"]]],
                     [["rto", ["n", rng.choice(["25", "40"])]]]],
                    ["FOR", "i", ["rto", ["n", "45"]],
                     [["cas", ".", v, ["q"]]]],
                    ["TILL", ["op2", "=", ["as", v, ["q"]], ["nil"]],
                     [["out", "O", ["op1", "#", v]]]]]))
            for _ in range(rng.randint(2, 5)):
                x = rng.random()
                if x < .3:
                    st.append(self.idiom(rng, mg))
                else:
                    st.append(mg.stmt(3))
                if rng.random() < .4:
                    st.append(mg.show())
            st.append(["out", "O", ["op1", "RP", ["ls", [
                ["q"], ["v", "x"], ["v", "y"], ["v", "l"]]]]])
            st = json.loads(json.dumps(st))
            try:
                with M.with_stack():
                    p = S.Predict(lines=lines)
                    ev, out = p.program(st, args)
                src = S.source(st)
                if "\n" in src or len(src) > 3000:
                    continue
                if any(e[0] == "read" for e in ev):
                    return st
                best = best or st
            except M.Unsupported:
                continue
        return best

    def idiom(self, rng, mg):
        q = ["q"]
        v = ["v", rng.choice("xyhs")]
        return rng.choice([
            ["WHILE", ["as", v, q], [["out", "P", v]]],
            ["WHILE", q, [mg.show()]],
            ["TILL", ["op2", "=", q, ["nil"]], [mg.marker()]],
            ["as", v, ["ls", [q, q, q]]],
            ["as", v, ["ls", [q, mg.marker(), q]]],
            ["as", v, ["op2", ".", q, q]],
            ["as", v, ["op2", "AE", q, q]],
            ["out", "P", q],
            ["LOOP", ["n", "3"], [["as", v, q], ["out", "O", v]]],
            ["hof", "M", ["lam", [q]], [["rto", ["n", "3"]]]],
            ["hof", "M", ["lam", [["out", "O", q], ["v", "a"]]], [q]],
            ["hof", "SK", ["lam", [["op1", "#", q]]],
             [["rto", ["n", "3"]]]],
            ["hof", "FI", ["lam", [q]], [["rto", ["n", "4"]]]],
            ["if", q, q, ["nil"]], ["and", q, q], ["or", q, q],
            ["rif", q, q, q], ["rand", q, q],
            ["and", ["n", "0"], q], ["or", ["n", "1"], q],
            ["call", ["lam", [["v", "b"]]], [q, q]],
            ["call", ["lam", [["v", "a"], ["v", "a"], ["v", "g"]]], [q]],
            ["repl", ["s", "abc"], ["p", "[ab]"], ["lam", [q]]],
            ["FOR", "i", q, [["out", "O", ["v", "i"]], ["out", "O", q]]],
            ["swap", v, q], ["as", q, ["n", "1"]],
            ["cas", ".", v, q], ["push", "PB", v, q],
            ["chain", [q, "<", q, "<", q]], ["evs", [q, ["op2", ".", q, q]]],
            ["IF", q, [["out", "O", q]], [["out", "O", q]]],
            ["y", "YP", q], ["at", q, ["n", "0"]], ["at", v, q],
            ["as", ["at", v, q], q], ["op1", "#", q],
            ["evf", [["v", "a"], ["v", "b"]], ["ls", [q, q]]],
            ["as", ["ls", [["v", "x"], ["v", "y"]]], ["ls", [q, q]]],
            ["inc", "U", q], ["fold", ".", ["ls", [q, q, q]]],
            ["hof", "MZ", ["lam", [q]], [["ls", [q, q]], ["ls", [q, q]]]]])

    def delivery(self, rng, text):
        """The same bytes, arriving differently."""
        items = util.sprinkle(rng, util.chunkings(rng, util.b2s(text)))
        return {"items": items,
                "buf": rng.choice([8192, 8192, 1, 2, 3, 7, 64])}

    # -- execution
    def spec(self, case, items, buf=8192, src=None):
        src = src if src is not None else (
            S.source(case["prog"]) if case["mode"] == "model"
            else ";".join(case["prog"]))
        spec = {"stdin": [list(x) for x in items], "stdin_buf": buf,
                "max_steps": self.max_steps}
        en = case["entry"]
        flags = ["-r"] if case["mode"] == "r" else []
        if en == "e":
            spec["argv"] = flags + ["-e", src, "--"] + case["args"]
        elif en == "f":
            spec["files"] = {"p.pip": {"data": util.b2s(src)}}
            spec["argv"] = flags + ["-f", "p.pip", "--"] + case["args"]
        else:
            spec["entry"] = en
            spec["code"] = src
            spec["args"] = flags + ["--"] + case["args"]
        return spec

    def plain(self, case):
        ls = lines_of(case["text"])
        return util.lines_to_items(ls)

    def reads(self, eff):
        return [e[1].rstrip("\n") if e[1] else None
                for e in eff if e[0] == "read"]

    def norm(self, r):
        return [("read", e[1].rstrip("\n") if e[1] else None)
                if e[0] == "read" else tuple(e) for e in r.effects()]

    def check(self, case, ctx):
        if case["mode"] == "r":
            return self.check_r(case, ctx)
        if case["prog"] is None:
            ctx.skipped += 1
            return None
        lines = lines_of(case["text"])
        want = None
        if case["mode"] == "model":
            try:
                with M.with_stack():
                    ev, out = S.Predict(lines=lines).program(case["prog"],
                                                             case["args"])
            except M.Unsupported:
                ctx.skipped += 1
                return None
            if out == "deep":
                ctx.skipped += 1
                return None
            want = []
            for e in ev:
                if e[0] == "out" and e[1]:
                    if want and want[-1][0] == "print":
                        want[-1] = ("print", want[-1][1] + e[1])
                    else:
                        want.append(("print", e[1]))
                elif e[0] == "read":
                    want.append(("read", e[1]))
        base = ctx.one(self.spec(case, self.plain(case)), case["entropy"])
        eff = self.norm(base)
        if base.status == "steplimit":
            ctx.skipped += 1
            return None
        if base.exc == "UnicodeDecodeError":
            ctx.skipped += 1
            return None
        if want is not None and eff != want:
            return {"class": "model", "detail": {
                "src": S.source(case["prog"]), "got": util.short(eff, 900),
                "want": util.short(want, 900), "err": base.errtext()[-300:]}}
        v = self.sequence(case, base, lines)
        if v:
            return v
        outs = [("plain", None, base)]
        for d in case["deliveries"]:
            r = ctx.one(self.spec(case, d["items"], d["buf"]),
                        case["entropy"])
            outs.append((d, None, r))
            got = self.norm(r)
            if got != eff or r.status != base.status or r.out != base.out:
                return {"class": "delivery", "detail": {
                    "delivery": d, "got": util.short(got, 600),
                    "plain": util.short(eff, 600), "status": r.status,
                    "base": base.status, "err": r.errtext()[-300:]}}
            if self.reads(eff):
                ctx.nontriv((str(case["prog"]), str(d)))
        # the peer sends each line only after seeing what came before it
        v = self.causal(case, base, eff, lines, ctx)
        return v

    def sequence(self, case, r, lines):
        rd = [e[1] for e in self.norm(r) if e[0] == "read"]
        n = min(len(rd), len(lines))
        if rd[:n] != lines[:n] or any(x is not None for x in rd[n:]):
            return {"class": "line-sequence",
                    "detail": {"read": rd, "lines": lines}}
        return None

    def causal(self, case, base, eff, lines, ctx):
        """Line k is sent once the output before read k is visible, and not
        at all after the last read: more reading would never end."""
        items = []
        sent = 0
        seen = ""
        for e in eff:
            if e[0] == "print":
                seen += e[1]
            elif e[0] == "read" and e[1] is not None:
                items.append(["wait", seen])
                items.append(["d", util.b2s(lines[sent] + "\n")])
                sent += 1
            elif e[0] == "read":
                items.append(["wait", seen])
                break                 # from here on: end of input
        if sent == len(lines) and any(e[0] == "read" and e[1] is None
                                      for e in eff):
            pass                      # end of input follows
        else:
            items.append(["wait", "\0never"])
        if not sent:
            return None
        r = ctx.one(self.spec(case, items), case["entropy"])
        if self.norm(r) != eff or r.status != base.status:
            return {"class": "read-ahead", "detail": {
                "items": items, "status": r.status,
                "got": util.short(self.norm(r), 600),
                "plain": util.short(eff, 600)}}
        ctx.probe("causal runs")
        return None

    def check_r(self, case, ctx):
        lines = lines_of(case["text"])
        want = "".join(l + "\n" for l in lines)
        pad = (lines + [""] * 5)[:5]
        want += "#" + str(len(lines))
        ab = ["<" + (pad[0] if len(lines) > 0 else "") + ">",
              "<" + (pad[4] if len(lines) > 4 else "") + ">"]
        src = ('F[i;x]ENg{Px};O"#";O#g;O"<";Oa;O"><";Oe;O">";'
               'O(#g=#\\g);O(q=());O"end";()')
        want += "".join(ab) + "11end"
        for d in [{"items": self.plain(case), "buf": 8192}] \
                + case["deliveries"]:
            r = ctx.one(self.spec(case, d["items"], d["buf"], src))
            if r.exc == "UnicodeDecodeError":
                continue
            got = "".join(x[1] for x in r.effects() if x[0] == "print")
            if r.status != 0 or got != want:
                return {"class": "readlines", "detail": {
                    "got": got, "want": want, "status": r.status,
                    "err": r.errtext()[-400:], "delivery": d}}
            rd = [e[1] for e in self.norm(r) if e[0] == "read"]
            if [x for x in rd if x is not None] != lines:
                return {"class": "line-sequence",
                        "detail": {"read": rd, "lines": lines}}
            ctx.nontriv(("r", str(d)))
        return None

    def shrink(self, case):
        if len(case["deliveries"]) > 1:
            for d in case["deliveries"]:
                yield dict(case, deliveries=[d])
        if case["deliveries"]:
            yield dict(case, deliveries=[])
        if case["entry"] != "e":
            yield dict(case, entry="e")
        if case["prog"]:
            for p in util.shrink_list(case["prog"]):
                if p:
                    yield dict(case, prog=p)
            if case["mode"] == "model":
                from ._sess import shrink_stmts
                for p in shrink_stmts(case["prog"]):
                    yield dict(case, prog=p)
            else:
                for i, p in enumerate(case["prog"]):
                    for s in util.shrink_src(p):
                        yield dict(case, prog=case["prog"][:i] + [s]
                                   + case["prog"][i + 1:])
        ls = lines_of(case["text"])
        for l2 in util.shrink_list(ls):
            t = "".join(x + "\n" for x in l2)
            yield dict(case, text=t,
                       deliveries=[{"items": [["d", util.b2s(t)]],
                                    "buf": 8192},
                                   {"items": [["d", c] for c in
                                              util.b2s(t)], "buf": 1}])


PROP = C05()
