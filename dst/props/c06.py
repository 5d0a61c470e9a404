"""C06: output arrives complete, in order, and before a blocking read."""

import json

from ..gen import G
from ..mgen import MG
from ..runner import Prop
from .. import model as M
from .. import session as S
from .. import util

ERRS = ["ENOSPC", "EPIPE", "EIO", "EDQUOT", "EFBIG"]
EXTRA = ["L400{P\"0123456789abcdef\"}", "P\"abcdefghij\"X900",
         "Fi,300{Oi;O\",\"}", "P\"\u00e9\u03bb\U0001f600\"X40",
         "(O\"\u2028x\\\n\")", "P[1;2;3]", "P()", "O()", "(P\"\")", "(O\"\")",
         "(Pq)", "(O\"?\");(x:q);(Px)", "(Y\"y\");(Oy)", "(YP\"yp\")",
         "(YO\"yo\")", "P{a}", "P`x+`", "(P1).(P2)", "{Oa}M,9", "P,4",
         "CS0", "V\"(\"", "(C(-1))", "O\"a\";V\")\"", "P\"\U0001d11e\"",
         "W(x:q){Px}", "x:\"z\"X8190;Ox", "O\"w\"X8192;O\"v\"",
         "L3{O\"p\"X4096}", "(O(C55300))", "(P[1;C57000])",
         "({O(C(55000+a*200))}M,3)"]


class C06(Prop):
    id = "C06"
    level = "fault_enumeration"
    quick_cases = 3000
    rule = ("case = printing program or REPL session x output devices: short "
            "writes, interrupted writes, terminal or not, buffer sizes, an "
            "error at a byte offset (persistent or once), an encoding that "
            "lacks characters; nontrivial = distinct (program, device) where "
            "a device fault fired or output preceded a blocking read")
    assumptions = ("CPython's text and buffer layers above the device are "
                   "real",)
    max_steps = 60000

    def gen(self, rng, i):
        mode = rng.choice(["all", "all", "model", "repl", "plain"])
        case = {"mode": mode, "entropy": rng.randrange(50),
                "lines": ["l1", "22", "a b", "", "x"][:rng.randrange(6)],
                "entry": rng.choice(["e", "e", "f", "run", "pip"]),
                "flags": rng.choice([[], [], [], ["-w"], ["-l"], ["-n"],
                                     ["-p"], ["-s"], ["-P"], ["-S"]])}
        g = G(rng, effects=.5, depth=2)
        if mode == "plain":
            case["flags"] = []
            case["prog"] = plain(rng, 2 + rng.randrange(6), 2)
        elif mode == "model":
            case["flags"] = []
            case["prog"] = self.model_program(rng, case["lines"])
        else:
            parts = [g.stmt() for _ in range(rng.randint(1, 4))]
            for _ in range(rng.randint(1, 4)):
                parts.insert(rng.randrange(len(parts) + 1),
                             rng.choice(EXTRA) if rng.random() < .7
                             else g.marker())
            case["prog"] = [p for p in parts if "\n" not in p]
        case["devices"] = [self.device(rng) for _ in range(5)]
        return case

    def model_program(self, rng, lines):
        from .c05 import PROP as P5
        return P5.model_program(rng, lines, [])

    def device(self, rng):
        cfg = {"buf": rng.choice([8192, 8192, 1, 2, 16, 100])}
        x = rng.random()
        if x < .5:
            if rng.random() < .7:
                cfg["max"] = rng.choice([1, 2, 3, 7, 50, 4096])
            if rng.random() < .5:
                cfg["eintr"] = sorted(rng.sample(range(30),
                                                 rng.randint(1, 8)))
            cfg["tty"] = rng.random() < .3
        elif x < .9:
            cfg["fail"] = {"at": rng.random(), "err": rng.choice(ERRS),
                           "persist": rng.random() < .8}
            if rng.random() < .4:
                cfg["max"] = rng.choice([1, 3, 50])
            cfg["tty"] = rng.random() < .3
        else:
            cfg["encoding"] = rng.choice(["ascii", "latin-1", "cp437"])
        return cfg

    def spec(self, case, cfg=None):
        spec = {"max_steps": self.max_steps}
        if cfg:
            spec["stdout"] = cfg
            spec["max_steps"] *= 3
        if case["mode"] == "repl":
            spec["argv"] = ["-R"] + case["flags"]
            spec["stdin"] = util.lines_to_items(
                case["prog"] + case["lines"])
            return spec
        src = S.source(case["prog"]) if case["mode"] == "model" \
            else plain_src(case["prog"]) + ";()" if case["mode"] == "plain" \
            else ";".join(case["prog"])
        spec["stdin"] = util.lines_to_items(case["lines"])
        en = case["entry"]
        if en == "e":
            spec["argv"] = case["flags"] + ["-e", src]
        elif en == "f":
            spec["argv"] = case["flags"] + ["p.pip"]
            spec["files"] = {"p.pip": {"data": util.b2s(src)}}
        else:
            spec["entry"] = en
            spec["code"] = src
            spec["args"] = case["flags"]
        return spec

    def visible(self, r, enc="utf-8"):
        """At every wait for input all that was printed is on the device."""
        printed = b""
        device = 0
        waits = 0
        for step, kind, data in r.log:
            if kind == "print":
                printed += data.encode(enc, "surrogatepass")
            elif kind == "rawstdout":
                device += len(data)
            elif kind in ("rawin", "rawin-eof", "ki-read", "rawin-err"):
                waits += 1
                if device < len(printed):
                    return printed[device:], waits
        return None, waits

    def check(self, case, ctx):
        if not case["prog"]:
            ctx.skipped += 1
            return None
        base = ctx.one(self.spec(case), case["entropy"])
        if base.status in ("steplimit", "deadlock") \
                or base.exc == "UnicodeDecodeError":
            ctx.skipped += 1
            return None
        printed = "".join(d for _, k, d in base.log if k == "print")
        if not can(printed, "utf-8"):
            return self.unencodable(case, base, printed, ctx)
        if base.exc == "UnicodeEncodeError":
            ctx.skipped += 1
            return None
        info = {"prog": case["prog"] if case["mode"] != "model"
                else S.source(case["prog"]), "status": base.status,
                "err": base.errtext()[-300:]}
        if base.out != printed.encode("utf-8"):
            return {"class": "lost", "detail": [
                info, base.out[-200:].decode("utf-8", "replace"),
                printed[-200:]]}
        late, waits = self.visible(base)
        if late:
            return {"class": "not-visible-before-read",
                    "detail": [info, repr(late[:200])]}
        if waits and printed:
            ctx.nontriv(("wait", str(case["prog"])))
        if case["mode"] == "model":
            try:
                with M.with_stack():
                    ev, out = S.Predict(lines=case["lines"]).program(
                        case["prog"], [])
                if out != "deep" and S.out_text(ev) != printed:
                    return {"class": "model", "detail": [
                        info, printed[-400:], S.out_text(ev)[-400:]]}
            except M.Unsupported:
                pass
        if case["mode"] == "plain":
            v = self.plain_check(case, base, info, ctx)
            if v:
                v["frozen"] = dict(case, devices=[])
                return v
        eff = base.effects()
        for cfg in case["devices"]:
            cfg = json.loads(json.dumps(cfg))
            f = cfg.get("fail")
            if f and not isinstance(f["at"], int):
                f["at"] = int(f["at"] * len(base.out))
            if f and case["mode"] == "repl":
                # input() itself ignores errors of the flush before a prompt
                f["persist"] = True
                cfg["buf"] = 8192
            if cfg.get("encoding") and case["mode"] == "repl":
                continue
            r = ctx.one(self.spec(case, cfg), case["entropy"])
            v = self.judge(case, cfg, base, eff, printed, r, ctx)
            if v:
                v["detail"].append(info)
                v["frozen"] = dict(case, devices=[cfg])
                return v
        return None

    def unencodable(self, case, r, printed, ctx):
        """A lone surrogate has no encoding on any device."""
        if case["mode"] == "repl":
            ctx.skipped += 1
            return None
        bad = [i for i, c in enumerate(printed) if not can(c, "utf-8")][0]
        d = {"prog": case["prog"], "status": r.status, "exc": r.exc,
             "out": r.out[-200:].decode("latin-1"), "err": r.errtext()[-300:]}
        ctx.nontriv(("unencodable", str(case["prog"])))
        if not printed[:bad].encode("utf-8").startswith(r.out):
            return {"class": "not-a-prefix", "detail": [d]}
        if self.unnoticed(case, r):
            return {"class": "unencodable-unnoticed", "detail": [d]}
        ctx.probe("unencodable output")
        return None

    def plain_check(self, case, r, info, ctx):
        """What the device has at every read and at the end is what the
        program has printed by then, by the program's own meaning."""
        lines = list(case["lines"])
        texts = []              # expected text at each read
        out = []

        def run(stms):
            for k, *x in stms:
                if k == "O":
                    out.append(x[0])
                elif k == "P":
                    out.append(x[0] + "\n")
                elif k in ("Oq", "Pq", "q"):
                    texts.append("".join(out))
                    line = lines.pop(0) if lines else None
                    if k != "q" and line is not None:
                        out.append(line + ("\n" if k == "Pq" else ""))
                elif k == "fail":
                    raise StopIteration
                else:
                    for _ in range(x[0]):
                        run(x[1])

        status = 0
        try:
            run(case["prog"])
        except StopIteration:
            status = 1
        seen = []
        device = ""
        for _, kind, data in r.log:
            if kind == "rawstdout":
                device += bytes(data).decode("utf-8", "replace")
            elif kind == "read":
                seen.append(device)
        want = "".join(out)
        got = r.out.decode("utf-8", "replace")
        d = [info, got[-300:], want[-300:]]
        if got != want or (r.status == 0) != (status == 0) \
                and case["entry"] != "run":
            return {"class": "plain-output", "detail": d}
        if seen != texts:
            return {"class": "plain-before-read",
                    "detail": [info, seen[-4:], texts[-4:]]}
        ctx.nontriv(("plain", str(case["prog"]), str(case["lines"])))
        return None

    def unnoticed(self, case, r):
        # run() has no exit status: it reports the error and returns
        return r.status == 0 and not (case["entry"] == "run"
                                      and r.err.strip())

    def judge(self, case, cfg, base, eff, printed, r, ctx):
        d = {"device": cfg, "status": r.status, "exc": r.exc,
             "out": r.out[-200:].decode("latin-1"), "err": r.errtext()[-300:]}
        if any(k.startswith("stdout") for k in r.faults):
            ctx.nontriv((str(case["prog"]), str(cfg)))
        enc = cfg.get("encoding")
        if enc:
            good = printed.encode(enc, "replace")
            bad = [i for i, c in enumerate(printed)
                   if not can(c, enc)]
            if bad:
                # text reaches the encoder in pieces as it is printed
                if not good.startswith(r.out) or len(r.out) > bad[0]:
                    return {"class": "not-a-prefix", "detail": [d]}
                if self.unnoticed(case, r):
                    return {"class": "unencodable-unnoticed", "detail": [d]}
                ctx.probe("unencodable output")
                return None
            if r.out != good or r.status != base.status:
                return {"class": "device-matters", "detail": [d]}
            return None
        f = cfg.get("fail")
        if f and any(k.startswith("stdout-E") for k in r.faults):
            if not base.out.startswith(r.out):
                return {"class": "not-a-prefix", "detail": [d]}
            if self.unnoticed(case, r):
                return {"class": "write-error-unnoticed", "detail": [d]}
            if case["mode"] == "repl":
                # later entries differ: a failed entry reads no input lines
                return None
            if r.status in ("steplimit", "deadlock"):
                return {"class": "does-not-stop", "detail": [d]}
            why = util.effects_prefix(
                [e for e in r.effects()], eff)
            if why:
                return {"class": "effects-not-a-prefix", "detail": [why, d]}
            return None
        if r.out != base.out or r.status != base.status \
                or r.effects() != eff:
            return {"class": "device-matters", "detail": [d]}
        late, _ = self.visible(r)
        if late:
            return {"class": "not-visible-before-read",
                    "detail": [d, repr(late[:200])]}
        return None

    def shrink(self, case):
        if len(case["devices"]) > 1:
            for d in case["devices"]:
                yield dict(case, devices=[d])
        elif case["devices"]:
            yield dict(case, devices=[])
            d = case["devices"][0]
            for k in list(d):
                if k != "fail":
                    yield dict(case, devices=[{a: b for a, b in d.items()
                                               if a != k}])
        for p in util.shrink_list(case["prog"] or []):
            if p:
                yield dict(case, prog=p)
        if case["lines"]:
            yield dict(case, lines=[])
        if case["flags"]:
            yield dict(case, flags=[])
        if case["entry"] != "e":
            yield dict(case, entry="e")


TEXTS = ["a", "b c", "x\u00e9", "0", "1.5", "tail", ",", "", "~", "A" * 70]


def plain(rng, n, d):
    """Statements whose output and reads are known from their text."""
    out = []
    for _ in range(n):
        x = rng.random()
        if d > 0 and x < .25:
            k = rng.choice(["L", "F", "fn", "M", "I", "E", "W", "fold"])
            times = 1 if k in ("fn", "I", "E", "fold") else rng.randint(0, 3)
            out.append([k, times, plain(rng, rng.randint(1, 3), d - 1)])
        elif x < .55:
            out.append(["O", rng.choice(TEXTS)])
        elif x < .75:
            out.append(["P", rng.choice(TEXTS)])
        elif x < .93:
            out.append([rng.choice(["Oq", "Pq", "q"])])
        elif x < .97:
            out.append(["fail", rng.choice(['V"("', "CS0", "C(-1)", "RC[]",
                                            '"a"~`(`'])])
        else:
            out.append(["O", "l\nm"])
    return out


def plain_src(stms, d=0):
    out = []
    for k, *x in stms:
        if k in "OP":
            out.append(f'({k}"{x[0]}")')
        elif k in ("Oq", "Pq"):
            out.append(f"({k[0]}q)")
        elif k == "q":
            out.append("(x:q)")
        elif k == "fail":
            out.append(f"({x[0]})")
        else:
            n, b = x[0], plain_src(x[1], d + 1)
            out.append({
                "L": f"L{n}{{{b}}}", "F": f"Fi,{n}{{{b}}}",
                "fn": f"({{{b};()}}1)", "M": f"({{{b};()}}M,{n})",
                "I": f"I1{{{b}}}", "E": f"I0{{1}}EL{{{b}}}",
                "W": f"($w{d}:0);W((U $w{d})<={n}){{{b}}}",
                "fold": f"((1?({{{b};()}}0)2))"}[k])
    return ";".join(out)


def can(c, enc):
    try:
        c.encode(enc)
        return True
    except UnicodeEncodeError:
        return False


PROP = C06()
