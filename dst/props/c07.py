"""C07: a program is loaded whole or not at all."""

import random

from ..gen import G
from ..runner import Prop
from .. import util
from .c02 import BAD

ODD = ["a\x0bb", "a\x0cb", "\x1c\x1d\x1e", "a\u2028b\u2029", "a\x85b",
       "\u00e9\u03bb", "\U0001f600", "a\tb", "\ufeff", "\x1a", "\x7f\x01",
       "'`", "\\n", "%s{}", "\n\n", "a\nb", " ;x", "{;y;}", "\u00a0",
       "caf\u00e9" * 40, "z" * 9000, "=" * 4095, "e\u0301", "\n;no comment",
       "\n\n\n", "  ", " \n ", "\t\n"]
INCOMPLETE = ['"abc', "`abc", "(1", "Fi", "{;x", "[1;", "1+", "I", "W1",
              "{a;", "x:", '\\"ab', "L3", "LR`a`", "$+", "(O1"]
SOURCES = ["f", "f", "pos", "i", "e", "run", "pip", "tty"]
ERRS = ["EIO", "EISDIR", "ESTALE", "EBADF", "ENOMEM"]
OPENERRS = ["ENOENT", "EACCES", "EISDIR", "EMFILE", "EIO", "ELOOP"]


class C07(Prop):
    id = "C07"
    level = "fault_enumeration"
    quick_cases = 3000
    rule = ("case = program text x ways to give it (file, -e, -i, "
            "interactive, API) x delivery (short reads, EINTR, splits) or "
            "fault (open error, read error at any offset, undecodable "
            "bytes, syntax error after complete statements, Ctrl-C or "
            "failed allocation before the first effect); nontrivial = a "
            "fault fired, or a delivery that needed several reads")
    assumptions = ("source files and stdin are utf-8 text; a lone CR or a "
                   "CRLF in them is a line end (Python's text mode)",)
    max_steps = 200000

    def gen(self, rng, i):
        g = G(rng, effects=.4, depth=2, reads=False)
        parts = [g.marker()]
        expect = last = None
        if rng.random() < .4:
            # literals only: the output is known from the text
            lits = [rng.choice(ODD) for _ in range(rng.randint(1, 4))]
            parts = ['O"' + s + '"' for s in lits if '"' not in s]
            if rng.random() < .35 or not parts:
                # ends in a character literal, perhaps of a blank
                last = "O'" + rng.choice(" \n\t\x0b\x0c\u2028\x85\xa0;,'z")
            expect = True
        else:
            for _ in range(rng.randint(1, 4)):
                parts.append(g.stmt())
                parts.append(g.marker())
        sep = rng.choice([";", "\n", ";\n", "\n;comment \" ` {;\n",
                          "  two spaces\n", " {; block\n ;} ", ";;"]) \
            if expect is None or rng.random() < .5 else ";"
        if ";;" in sep:
            sep = ";"
        tail = rng.choice(["", "\n", "\n\n", ";()", "\n;end", "  "])
        if last:
            parts.append(last)
            tail = rng.choice(["", "", "\n", "\n\n", ";()"])
            if rng.random() < .15:
                parts[-1] = last = rng.choice(["O'", "P'", "x:'"]) + "\n"
                tail = rng.choice(["", "\n", "\n\n"])
                expect = None
        src = sep.join(parts) + tail
        if rng.random() < .06:
            # a byte order mark is a character like any other
            src = "\ufeff" + src
            expect = None
        if rng.random() < .03:
            # longer than any buffer
            src = rng.choice(['O"{}";', ";{}\n", "{{;{};}}", "L0{{{}}}"]) \
                .format(rng.choice("z= \u00e9") * rng.choice(
                    [8185, 16390, 65530, 66000, 140000])) + src
            expect = None
        if rng.random() < .04:
            src = rng.choice(["", "", " ", "\n", ";c", "{;c;}", "()", "a"])
            expect = None
        faults = []
        for _ in range(5):
            x = rng.random()
            if x < .25:
                faults.append(["read", rng.random(), rng.choice(ERRS)])
            elif x < .35:
                faults.append(["open", rng.choice(OPENERRS)])
            elif x < .5:
                faults.append(["bytes", rng.random(), rng.choice(
                    ["\xff", "\xc3(", "\xed\xa0\x80", "\xe2\x82",
                     "\x80"])])
            elif x < .75:
                faults.append(["syntax", rng.choice(BAD + INCOMPLETE)])
            elif x < .9:
                faults.append(["inject", rng.choice(
                    ["KeyboardInterrupt", "MemoryError"]), rng.random()])
            else:
                faults.append(["ki-read", rng.random()])
        return {"src": src, "expect": expect,
                "parts": parts if expect else None,
                "args": rng.choice([[], ["ab", "3"]]),
                "entropy": rng.randrange(50),
                "crlf": rng.random() < .2,
                "sources": rng.sample(SOURCES, 4),
                "x": rng.random(), "faults": faults,
                "aux": rng.choice([None, None, None, ["open", "ENOENT"],
                                   ["open", "EACCES"], ["read", 0],
                                   ["read", 40]])}

    # -- specs
    def data(self, case, src):
        d = src
        if case["crlf"]:
            d = d.replace("\n", "\r\n")
        return util.b2s(d)

    def spec(self, case, how, src=None, x=None):
        src = case["src"] if src is None else src
        spec = {"max_steps": self.max_steps}
        rng = random.Random(f"deliv{x}")
        args = case["args"]
        if case["aux"]:
            k, v = case["aux"]
            spec["aux"] = {"open_err": v} if k == "open" else \
                {"fail_at": v, "fail_err": "EIO"}
        if how in ("f", "pos"):
            f = {"data": self.data(case, src)}
            if x is not None:
                f["max"] = rng.choice([1, 2, 3, 50, 8192])
                f["eintr"] = [rng.randrange(6)] if rng.random() < .4 else []
                f["buf"] = rng.choice([8192, 1, 16])
            spec["files"] = {"p.pip": f}
            spec["argv"] = (["-f", "p.pip", "--"] if how == "f"
                            else ["p.pip", "--"]) + args
        elif how == "e":
            spec["argv"] = ["-e", src, "--"] + args
        elif how in ("run", "pip"):
            spec["entry"] = how
            spec["code"] = src
            spec["args"] = args
        elif how == "i":
            spec["argv"] = ["-i", "--"] + args
            spec["stdin"] = self.stdin(case, src, rng, x)
        else:
            spec["argv"] = []
            spec["stdin"] = util.lines_to_items([" ".join(args)]) \
                + self.stdin(case, src, rng, x)
        return spec

    def stdin(self, case, src, rng, x):
        d = self.data(case, src)
        if x is None:
            return [["d", d]]
        return util.sprinkle(rng, util.chunkings(rng, d))

    def out_of(self, r, how):
        """Effects of the program itself."""
        eff = [e for e in r.effects() if e[0] in ("print", "draw", "seed")]
        if how == "tty":
            text = "".join(e[1] for e in eff if e[0] == "print")
            _, sep, rest = text.partition("Executing...\n")
            if not sep:         # given up before the program started
                rest = ""
            return rest, [e for e in eff if e[0] != "print"]
        return "".join(e[1] for e in eff if e[0] == "print"), \
            [e for e in eff if e[0] != "print"]

    def check(self, case, ctx):
        base = ctx.one(self.spec(case, "run"), case["entropy"], trace=False)
        if base.status in ("steplimit", "deadlock"):
            ctx.skipped += 1
            return None
        want = self.out_of(base, "run")
        if case["expect"]:
            known = "".join(text_of(p) for p in case["parts"])
            last = text_of(case["parts"][-1]) + "\n" \
                if not case["src"].rstrip("\n").endswith("()") else ""
            if want[0] not in (known, known + last) or base.err:
                return {"class": "not-the-text", "detail": [
                    want[0][:300], known[:300], base.errtext()[:200]]}
        failed = ctx.one(self.spec(case, "e"), case["entropy"],
                         trace=False).status != 0
        for how in case["sources"]:
            r = ctx.one(self.spec(case, how, x=case["x"]), case["entropy"])
            got = self.out_of(r, how)
            # run() swallows errors of the program
            ok = r.status == base.status if how == "run" else \
                (r.status == 0) == (not failed) if how != "pip" else True
            if got != want or not ok:
                return {"class": "source:" + how, "detail": {
                    "got": util.short(got, 500),
                    "want": util.short(want, 500), "status": r.status,
                    "base": base.status, "err": r.errtext()[-300:]}}
            if r.faults:
                ctx.nontriv((case["src"], how, str(r.faults)))
        if case["aux"]:
            v = self.auxiliary(case, ctx)
            if v:
                return v
        for f in case["faults"]:
            v = self.fault(case, f, base, ctx)
            if v:
                v["frozen"] = dict(case, faults=[f], sources=[])
                return v
        return None

    def auxiliary(self, case, ctx):
        """With its text file unavailable, the variable PIP is one that was
        never assigned, and nothing else is different."""
        rs = []
        for name in ("PIP", "$pip"):
            src = "(O(({0})=()));(O({0}));((({0}))AL1);".format(name) + case["src"] \
                + "\n(O({0}));O\"end\"".format(name)
            rs.append(ctx.one(self.spec(case, "e", src), case["entropy"]))
        a, b = rs
        if a.status == "steplimit" or b.status == "steplimit":
            return None
        if a.effects() != b.effects() or a.status != b.status:
            return {"class": "auxiliary-file", "detail": {
                "aux": case["aux"], "got": util.short(a.effects(), 300),
                "want": util.short(b.effects(), 300), "status": a.status,
                "err": a.errtext()[-300:]}}
        ctx.probe("runs without the auxiliary file")
        return None

    def fault(self, case, f, base, ctx):
        rng = random.Random(f"f{case['x']}{f}")
        how = rng.choice(["f", "pos", "i", "tty"])
        kind = f[0]
        src = case["src"]
        data = self.data(case, src)
        if kind == "open":
            spec = self.spec(case, rng.choice(["f", "pos"]))
            spec["files"]["p.pip"]["open_err"] = f[1]
            how = "f"
        elif kind == "read":
            spec = self.spec(case, how)
            at = int(f[1] * (len(data) + 1))
            if how in ("f", "pos"):
                spec["files"]["p.pip"].update(fail_at=at, fail_err=f[2])
            else:
                spec["stdin"] = spec["stdin"][:-1] + [
                    ["d", data[:at]], ["err", f[2]]]
        elif kind == "ki-read":
            how = rng.choice(["i", "tty"])
            spec = self.spec(case, how)
            at = int(f[1] * (len(data) + 1))
            spec["stdin"] = spec["stdin"][:-1] + [["d", data[:at]], ["ki"],
                                                  ["d", data[at:]]]
        elif kind == "bytes":
            spec = self.spec(case, how)
            raw = data.encode("latin-1")
            at = int(f[1] * (len(raw) + 1))
            bad = raw[:at] + f[2].encode("latin-1") + raw[at:]
            try:
                bad.decode("utf-8")
                return None
            except UnicodeDecodeError:
                pass
            bad = bad.decode("latin-1")
            if how in ("f", "pos"):
                spec["files"]["p.pip"]["data"] = bad
            else:
                spec["stdin"] = spec["stdin"][:-1] + [["d", bad]]
        elif kind == "syntax":
            how = rng.choice(["f", "pos", "i", "tty", "e"])
            spec = self.spec(case, how, src=self.spoil(src, f[1]))
        else:
            how = rng.choice(["f", "pos", "i", "e"])
            spec = self.spec(case, how)
            b = ctx.one(spec, case["entropy"])
            st = b.effect_steps(("print", "draw", "seed"))
            if not st or st[0] < 2:
                return None
            spec["inject"] = [[1 + int(f[2] * (st[0] - 1)), f[1]]]
        r = ctx.one(spec, case["entropy"])
        out, draws = self.out_of(r, how)
        info = {"how": how, "fault": f, "status": r.status, "exc": r.exc,
                "out": (out or "")[:300], "err": r.errtext()[-300:],
                "fired": r.fired}
        if kind == "inject" and not r.fired:
            return None
        ctx.nontriv((src, str(f), how))
        ctx.probe("loads that failed: " + kind)
        if out or draws:
            return {"class": "partly-executed:" + kind, "detail": info}
        if r.status == 0:
            return {"class": "failure-unnoticed:" + kind, "detail": info}
        if not r.err.strip():
            return {"class": "unreported:" + kind, "detail": info}
        return None

    def spoil(self, src, tail):
        """The program with a syntax error as its last statement."""
        return src + "\n" + tail if tail[0] not in ":*?E" \
            else src + "\n;c\n" + tail

    def shrink(self, case):
        if len(case["faults"]) > 1:
            for f in case["faults"]:
                yield dict(case, faults=[f])
        if case["faults"]:
            yield dict(case, faults=[])
        for s in util.shrink_list(case["sources"]):
            yield dict(case, sources=s)
        for k, v in (("crlf", False), ("aux", None), ("args", [])):
            if case[k]:
                yield dict(case, **{k: v})
        if case["parts"]:
            for ps in util.shrink_list(case["parts"]):
                if ps:
                    yield dict(case, parts=ps, src=";".join(ps))
        else:
            for s in util.shrink_src(case["src"]):
                yield dict(case, src=s)
            ps = case["src"].split("\n")
            if len(ps) > 1:
                for p in util.shrink_list(ps):
                    yield dict(case, src="\n".join(p))


def text_of(part):
    """What a part O"text" or O'c prints."""
    return part[2:] if part[1] == "'" else part[2:-1]


PROP = C07()
