"""Reference model: a small interpreter for a mini-language of Pip programs
over immutable values.

Programs are JSON trees (see `render` for the concrete syntax of each node).
Values: Scalar = str, List = tuple, nil = None, finite Range = Rng,
Pattern = Pat, function = Fn.  Nothing is ever updated in place: assigning to
an item rebinds the variable to a new value, so that in the model no two
variables can share anything.

Every run produces a list of events in program order: output, input line
taken, binding of a variable.  A state after any prefix of the events can be
rebuilt, which is what a run cut short at that point must leave behind.
"""

import itertools
import re
import sys
from collections import namedtuple

Rng = namedtuple("Rng", "lo hi")          # lo may be None; hi is an int
Pat = namedtuple("Pat", "raw flags")
NOVAL = object()
UNKNOWN = object()      # one of several values a cut may have left

LOCALS = set("abcdefg") | {"$_", "$__", "$___"}


class Fn:
    __slots__ = ("stmts", "ret")

    def __init__(self, stmts, ret):
        self.stmts = stmts
        self.ret = ret

    def __eq__(self, other):
        return (isinstance(other, Fn) and self.stmts == other.stmts
                and self.ret == other.ret)

    def __hash__(self):
        return 0


class LV:
    __slots__ = ("base", "path", "got")

    def __init__(self, base, path=(), got=None):
        self.base = base          # name, or tuple of LV
        self.path = path
        self.got = got            # value of a special variable, boxed


class ModelFatal(Exception):
    """The statement ends with a fatal error here."""


class ModelDeep(ModelFatal):
    """Deeper recursion than any real run can reach."""


class ModelTypeError(ModelFatal):
    """A host-language TypeError that some operators catch."""


class Unsupported(Exception):
    """Outside of what the model describes: the case is dropped."""


EXPRS_WITHOUT_VALUE = {"IF", "LOOP", "FOR", "WHILE", "TILL", "WG", "LR"}


def is_cmd(node):
    return node[0] in EXPRS_WITHOUT_VALUE


# ---------------------------------------------------------------- rendering

def render(n):
    """Pip source of a node; expressions come out self-delimiting."""
    k = n[0]
    if k == "n":
        return f"({n[1]})" if n[1].startswith("-") else n[1]
    if k == "s":
        return '"' + n[1] + '"'
    if k == "p":
        return "`" + n[1] + "`"
    if k == "nil":
        return "()"
    if k == "v":
        return n[1]
    if k == "q":
        return "q"
    if k == "at":
        return f"({wrap(n[1])}@{wrap(n[2])})"
    if k == "ls":
        return "[" + ";".join(render(e) for e in n[1]) + "]"
    if k == "rng":
        return f"({wrap(n[1])},{wrap(n[2])})"
    if k == "rto":
        return f"(,{wrap(n[1])})"
    if k == "op2" or k == "push":
        return f"({wrap(n[2])}{n[1]}{wrap(n[3])})"
    if k == "op1" or k in ("inc", "pop"):
        return f"({n[1]}{wrap(n[2])})"
    if k == "fold":
        return f"(${n[1]}{wrap(n[2])})"
    if k == "scan":
        return f"(\\${n[1]}{wrap(n[2])})"
    if k == "mapop":
        return f"({n[1]}*{wrap(n[2])})"
    if k == "chain":
        return "(" + "".join(x if isinstance(x, str) else wrap(x)
                             for x in n[1]) + ")"
    if k == "as":
        return f"({wrap(n[1])}:{wrap(n[2])})"
    if k == "cas":
        return f"({wrap(n[2])}{n[1]}:{wrap(n[3])})"
    if k == "swap":
        return f"({wrap(n[1])}::{wrap(n[2])})"
    if k in ("y", "out"):
        return f"({n[1]}{wrap(n[2])})"
    if k == "if":
        return f"({wrap(n[1])}?{wrap(n[2])}{wrap(n[3])})"
    if k == "rif":
        return f"({wrap(n[1])}\\?{wrap(n[2])}{wrap(n[3])})"
    if k == "and":
        return f"({wrap(n[1])}&{wrap(n[2])})"
    if k == "or":
        return f"({wrap(n[1])}|{wrap(n[2])})"
    if k == "rand":
        return f"({wrap(n[1])}\\&{wrap(n[2])})"
    if k == "ror":
        return f"({wrap(n[1])}\\|{wrap(n[2])})"
    if k == "rval":                 # reads now, not when used
        return f"(()|{wrap(n[1])})"
    if k == "lam":
        return "{" + ";".join(render(s) for s in n[1]) + "}"
    if k == "call":
        return "(" + wrap(n[1]) + "".join(wrap(a) for a in n[2]) + ")"
    if k == "hof":
        f, xs = wrap(n[2]), [wrap(x) for x in n[3]]
        if len(xs) == 1:
            if n[1].startswith("~"):        # reversed operands
                return f"({xs[0]}{n[1][1:]}{f})"
            return f"({f}{n[1]}{xs[0]})"
        return f"({f}{n[1]}{xs[0]}{xs[1]})"
    if k == "repl":
        return f"({wrap(n[1])}R{wrap(n[2])}{wrap(n[3])})"
    if k == "ev":
        return f"(V{wrap(n[1])})"
    if k == "evs":
        src = ";".join(render(s) for s in n[1])
        if '"' in src:
            raise Unsupported("quote in evaluated source")
        return f'(V"{src}")'
    if k == "evf":
        src = ";".join(render(s) for s in n[1])
        if '"' in src:
            raise Unsupported("quote in evaluated source")
        return f'("{src}"V{wrap(n[2])})'
    if k == "rec":
        return f"(RE{wrap(n[1])})"
    if k == "die":
        return {"scan": '(V"(")', "zero": "(CS0)", "chr": "(C(-1))",
                "rc": '(RC"")', "re": "((\"a\")~(`(`))",
                "nilset": None}[n[1]]
    # commands
    if k == "IF":
        s = f"I{wrap(n[1])}{{" + ";".join(map(render, n[2])) + "}"
        if n[3] is not None:
            s += "EL{" + ";".join(map(render, n[3])) + "}"
        return s
    if k == "LOOP":
        return f"L{wrap(n[1])}{{" + ";".join(map(render, n[2])) + "}"
    if k == "FOR":
        lv = n[1] if isinstance(n[1], str) else _names(n[1])
        return f"F{lv}{wrap(n[2])}{{" + ";".join(map(render, n[3])) + "}"
    if k == "WHILE":
        return f"W{wrap(n[1])}{{" + ";".join(map(render, n[2])) + "}"
    if k == "TILL":
        return f"T{wrap(n[1])}{{" + ";".join(map(render, n[2])) + "}"
    if k == "LR":
        return f"LR{wrap(n[1])}{wrap(n[2])}{{" \
            + ";".join(map(render, n[3])) + "}"
    if k == "WG":
        return "WG"
    raise ValueError(k)


def _names(t):
    return t if isinstance(t, str) else "[" + ";".join(map(_names, t)) + "]"


def wrap(n):
    """Rendered node that can stand next to anything."""
    s = render(n)
    if n[0] in ("n", "v", "q", "s", "p") and not s.startswith("("):
        return "(" + s + ")"
    return s


# ------------------------------------------------------------------ values

_int = re.compile(r"-?\d+")
_float = re.compile(r"-?(\d+\.\d*|\.\d+|\d+e[+-]\d+)")
_zero = re.compile(r"^(0+(\.0*)?|0*\.0+)$")


def num(s):
    t = s.lstrip()
    if _float.match(t):
        raise Unsupported("float")
    m = _int.match(t)
    if m and m.end() > 400:
        raise Unsupported("big number")
    return int(m.group()) if m else 0


def items(v):
    """Items of an iterable value; None if it is not iterable for Pip."""
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Rng):
        return [str(i) for i in range(v.lo or 0, v.hi)]
    if isinstance(v, tuple) and not isinstance(v, Pat):
        return list(v)
    return None


def is_list(v):
    return isinstance(v, tuple) and not isinstance(v, (Pat, Rng))


def is_iter(v):
    return isinstance(v, str) or isinstance(v, Rng) or is_list(v)


def truth(v):
    if v is None:
        return False
    if isinstance(v, str):
        return v != "" and not _zero.match(v)
    if isinstance(v, Pat):
        return v.raw != ""
    if isinstance(v, Rng):
        return v.hi > (v.lo or 0)
    if isinstance(v, Fn):
        return not (v.stmts == [] and v.ret is None)
    return len(v) > 0


def text(v):
    if v is None:
        return ""
    if isinstance(v, str):
        return v
    if isinstance(v, Pat):
        return v.raw
    if isinstance(v, Rng):
        return "".join(items(v))
    if isinstance(v, Fn):
        raise Unsupported("text of a function")
    return "".join(text(x) for x in v)


def small(v, left):
    """Is the value small enough to go on with?"""
    if isinstance(v, str):
        left[0] -= len(v)
    elif isinstance(v, tuple):
        for x in v:
            if not small(x, left):
                return False
    left[0] -= 1
    return left[0] > 0


def rep(v):
    if v is None:
        return "()"
    if isinstance(v, str):
        m = _int.match(v)
        if m and m.end() == len(v):
            return v
        if '"' in v:
            return r'\"' + v.replace("\\", r"\\") + r'\"'
        return f'"{v}"'
    if isinstance(v, Pat):
        fl = ""
        if v.flags:
            raise Unsupported("flags")
        return fl + "`" + v.raw.replace("`", r"\`") + "`"
    if isinstance(v, Rng):
        return f"({'()' if v.lo is None else v.lo},{v.hi})"
    if isinstance(v, Fn):
        raise Unsupported("text of a function")
    return "[" + ";".join(rep(x) for x in v) + "]"


class _IndexError(Exception):
    pass


def _slice(seq, sl, empty):
    """Pip's wrapping slice of a str or tuple."""
    n = len(seq)
    if n == 0:
        return seq
    start = sl[0] if sl[0] is not None else 0
    stop = sl[1] if sl[1] is not None else n
    if start < 0:
        start += n
    if stop < 0:
        stop += n
    if start >= stop:
        return empty
    if stop - start > 5000 or start < -5000 or stop > 5000:
        raise Unsupported("big slice")
    rs = seq
    while start < 0:
        rs = seq + rs
        start += n
        stop += n
    while stop > len(rs):
        rs += seq
    return rs[start:stop]


def getitem(v, ix):
    """ix: int, or (start, stop) for a slice."""
    if v is None:
        return None
    if isinstance(v, (Pat, Fn)):
        raise ModelTypeError("not subscriptable")
    if isinstance(v, Rng):
        n = max(0, v.hi - (v.lo or 0))
        if isinstance(ix, int):
            if n == 0:
                raise _IndexError()
            return str((v.lo or 0) + ix % n)
        if n == 0:
            return v
        start = ix[0] if ix[0] is not None else 0
        stop = ix[1] if ix[1] is not None else n
        if start >= -n and stop <= n:
            r = range(v.lo or 0, v.hi)[start:stop]
            return Rng(r.start, r.stop)
        return _slice(tuple(items(v)), (start, stop), ())
    if isinstance(ix, int):
        if len(v) == 0:
            raise _IndexError()
        return v[ix % len(v)]
    return _slice(v, ix, "" if isinstance(v, str) else ())


# -------------------------------------------------------------------- model

class Model:
    def __init__(self, lines=(), args=(), max_events=20000, max_work=200000):
        self.events = []       # ("out", s) ("read", s|None) ("set", tab, n, v)
        #                        ("grp", [(tab, n, v)..]) ("wg",)
        self.lines = list(lines)
        self.args = list(args)
        self.main = None
        self.scopes = [{}]
        self.funcs = [None]
        self.max_events = max_events
        self.work = max_work
        self.wipe(record=False)

    # -- state
    def defaults(self):
        return {"h": "100", "i": "0", "k": ", ", "l": (), "m": "1000",
                "n": "\n", "o": "1", "p": "()", "s": " ", "t": "10",
                "u": None, "v": "-1", "w": Pat(r"\s+", 0), "x": "", "y": "",
                "z": "abcdefghijklmnopqrstuvwxyz",
                "AZ": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
                "CZ": "bcdfghjklmnpqrstvwxyz", "VW": "aeiou", "VY": "aeiouy",
                "_": Fn([], ["v", "a"]), "B": Fn([], ["v", "b"]),
                "G": Fn([], ["v", "g"]),
                "PA": "".join(chr(i) for i in range(32, 127)),
                "XD": Pat(r"\d", 0), "XI": Pat(r"-?\d+", 0),
                "XL": Pat("[a-z]", 0), "XU": Pat("[A-Z]", 0),
                "XV": Pat("[aeiou]", 0), "XW": Pat(r"\w", 0),
                "XX": Pat(".", 0), "XY": Pat("[aeiouy]", 0),
                "XC": Pat("[bcdfghjklmnpqrstvwxyz]", 0)}

    def wipe(self, record=True):
        self.globals = self.defaults()
        self.globals["\\g"] = tuple(self.args)
        for nm, a in zip("abcde", self.args):
            self.globals["\\" + nm] = a
        self.globals["\\f"] = self.main
        if record:
            self.ev(("wg",))

    def ev(self, e):
        self.events.append(e)
        if len(self.events) > self.max_events:
            raise Unsupported("too many events")

    def snapshot(self):
        """Visible top-level state: (globals, top-level locals)."""
        return dict(self.globals), dict(self.scopes[0])

    def restore(self, snap):
        self.globals, loc = dict(snap[0]), dict(snap[1])
        self.scopes = [loc]
        self.funcs = [None]

    def table(self, name):
        return self.scopes[-1] if name in LOCALS else self.globals

    def tab(self, name):
        if name in LOCALS:
            return "L0" if len(self.scopes) == 1 else "L"
        return "G"

    def bind(self, name, value):
        if not small(value, [20000]):
            raise Unsupported("big value")
        self.table(name)[name] = value
        self.ev(("set", self.tab(name), name, value))

    # -- lvalues
    def get(self, e):
        """getRval: node, LV or value -> value."""
        if isinstance(e, list):
            e = self.eval(e)
        if not isinstance(e, LV):
            return e
        if isinstance(e.base, tuple):
            return tuple(self.get(x) for x in e.base)
        if e.base == "q":
            if e.got is None:
                line = self.lines.pop(0) if self.lines else None
                self.ev(("read", line))
                e.got = (line,)
            v = e.got[0]
        else:
            t = self.table(e.base)
            if e.base not in t:
                return None
            v = t[e.base]
            if v is UNKNOWN:
                raise Unsupported("value not known after a cut")
        try:
            for ix in e.path:
                if not is_iter(v):
                    return None
                v = getitem(v, ix)
        except _IndexError:
            return None
        return v

    def assign(self, lv, v):
        if isinstance(lv.base, tuple):
            if v is None:
                it = []
            elif isinstance(v, Pat):
                it = list(v.raw)
            elif isinstance(v, Fn):
                return
            else:
                it = items(v)
            missing = object()
            for l, x in itertools.zip_longest(lv.base, it,
                                              fillvalue=missing):
                if l is missing:
                    break
                self.assign(l, None if x is missing else x)
            return
        name = lv.base
        if name == "q":
            return
        if name == "r":
            raise Unsupported("seed")
        if not lv.path:
            self.bind(name, v)
            return
        t = self.table(name)
        if name not in t:
            return
        if t[name] is UNKNOWN:
            raise Unsupported("value not known after a cut")
        cur = t[name]
        if isinstance(cur, Rng):
            cur = tuple(items(cur))
        if not (isinstance(cur, str) or is_list(cur)):
            return
        try:
            new = self.put(cur, lv.path, v)
        except _IndexError:
            return
        if new is not t[name]:
            self.bind(name, new)

    def put(self, cur, path, v):
        ix = path[0]
        if len(path) > 1:
            if not isinstance(ix, int):
                raise Unsupported("slice inside a path")
            nxt = getitem(cur, ix)
            if is_list(cur):
                new = self.put(nxt, path[1:], v)
                if new is nxt:
                    return cur
                i = ix % len(cur)
                return cur[:i] + (new,) + cur[i + 1:]
            # below a Scalar, Range or nil only copies are modified
            self.put(nxt, path[1:], v)
            return cur
        if cur is None or isinstance(cur, (Rng, Pat, Fn)):
            raise ModelTypeError("no item assignment")
        if isinstance(ix, int):
            if len(cur) == 0:
                raise _IndexError()
            i = ix % len(cur)
            if isinstance(cur, str):
                return cur[:i] + text(v) + cur[i + 1:]
            return cur[:i] + (v,) + cur[i + 1:]
        if isinstance(cur, str):
            chars = list(cur)
            chars[ix[0]:ix[1]] = list(text(v))
            return "".join(chars)
        if isinstance(v, Fn):
            raise ModelTypeError("not iterable")
        seq = [] if v is None else list(v.raw) if isinstance(v, Pat) \
            else items(v)
        lst = list(cur)
        lst[ix[0]:ix[1]] = seq
        return tuple(lst)

    # -- functions
    def call(self, fn, args):
        args = [self.get(a) for a in args]
        scope = dict(zip("abcde", args))
        scope["f"] = fn
        scope["g"] = tuple(args)
        self.scopes.append(scope)
        self.funcs.append(fn)
        if len(self.scopes) > 400:
            raise ModelDeep("recursion")
        for s in fn.stmts:
            v = self.stmt(s)
            if v is not NOVAL:
                self.history(v)
        ret = self.get(fn.ret) if fn.ret is not None else None
        self.scopes.pop()
        self.funcs.pop()
        return ret

    def history(self, v):
        t = self.scopes[-1]
        if t.get("$_") is UNKNOWN or t.get("$__") is UNKNOWN:
            raise Unsupported("value not known after a cut")
        tab = self.tab("$_")
        grp = []
        if "$_" in t:
            if "$__" in t:
                grp.append((tab, "$___", t["$__"]))
            grp.append((tab, "$__", t["$_"]))
        grp.append((tab, "$_", v))
        for _, n, x in grp:
            t[n] = x
        self.ev(("grp", grp))

    def make(self, stmts):
        if stmts and not is_cmd(stmts[-1]):
            return Fn(list(stmts[:-1]), stmts[-1])
        return Fn(list(stmts), None)

    def matchvars(self, m):
        gs = [None if g is None else g for g in m.groups()]
        grp = [("G", "$$", tuple(gs[1:]))]
        for i in range(10):
            grp.append(("G", f"${i}", gs[i] if i < len(gs) else None))
        grp += [("G", "$(", str(m.start())), ("G", "$)", str(m.end())),
                ("G", "$`", m.string[:m.start()]),
                ("G", "$'", m.string[m.end():]),
                ("G", "$[", tuple(str(m.start(k + 2))
                                  for k in range(len(gs) - 1))),
                ("G", "$]", tuple(str(m.end(k + 2))
                                  for k in range(len(gs) - 1)))]
        for _, n, x in grp:
            self.globals[n] = x
        self.ev(("grp", grp))
        return gs

    def regex(self, p):
        if isinstance(p, str):
            p = Pat("(?:" + re.escape(p) + ")" if len(re.escape(p)) > 1
                    else re.escape(p), 0)
        if not isinstance(p, Pat):
            return None
        raw = re.sub(r"(?<!\\)((?:\\{2})*)\\([1-9]\d?)",
                     lambda m: m.group(1) + "\\" + str(int(m.group(2)) + 1),
                     f"(?P<all>{p.raw})")
        try:
            return re.compile(raw)
        except re.error:
            raise ModelFatal("bad pattern")

    def pat_str(self, a, b):
        """Operands of a regex operator in either order -> (regex, string)."""
        if isinstance(a, str) and isinstance(b, Pat):
            a, b = b, a
        if not isinstance(b, str):
            return None, None
        if isinstance(a, (str, Pat)):
            return self.regex(a), b
        return None, None

    # -- statements
    def stmt(self, s):
        self.work -= 1
        if self.work < 0:
            raise Unsupported("too much work")
        k = s[0]
        if k == "IF":
            body = s[2] if truth(self.get(s[1])) else (s[3] or [])
            for x in body:
                self.stmt(x)
            return NOVAL
        if k == "LOOP":
            c = self.get(s[1])
            if c is None:
                return NOVAL
            if isinstance(c, str):
                n = num(c)
            elif isinstance(c, (Pat, Fn)):
                return NOVAL
            else:
                n = len(items(c))
            for _ in range(n):
                for x in s[2]:
                    self.stmt(x)
            return NOVAL
        if k == "FOR":
            lv = self.loopvar(s[1])
            v = self.get(s[2])
            if v is None:
                it = []
            elif isinstance(v, Pat):
                it = list(v.raw)
            elif isinstance(v, Fn):
                return NOVAL
            else:
                it = items(v)
            for x in it:
                self.assign(lv, x)
                for y in s[3]:
                    self.stmt(y)
            return NOVAL
        if k == "WHILE" or k == "TILL":
            want = k == "WHILE"
            while truth(self.get(s[1])) == want:
                for x in s[2]:
                    self.stmt(x)
                self.work -= 1
                if self.work < 0:
                    raise Unsupported("too much work")
            return NOVAL
        if k == "LR":
            a = self.get(s[1])
            b = self.get(s[2])
            rx, string = self.pat_str(a, b)
            if rx is None:
                return NOVAL
            for m in rx.finditer(string):
                self.matchvars(m)
                for x in s[3]:
                    self.stmt(x)
            return NOVAL
        if k == "WG":
            self.wipe()
            return NOVAL
        return self.get(self.eval(s))

    def loopvar(self, t):
        if isinstance(t, str):
            return LV(t)
        return LV(tuple(self.loopvar(x) for x in t))

    # -- expressions
    def eval(self, n):
        self.work -= 1
        if self.work < 0:
            raise Unsupported("too much work")
        k = n[0]
        if k in ("n", "s"):
            return n[1]
        if k == "p":
            return Pat(n[1], 0)
        if k == "nil":
            return None
        if k == "v":
            return LV(n[1])
        if k == "q":
            return LV("q")
        if k == "cas":
            lv = self.eval(n[2])
            op = n[1]
            if op in ("&", "|"):
                cur = self.get(lv)
                res = self.get(n[3]) if truth(cur) == (op == "&") else cur
            else:
                res = self.guard(self.op2, op, self.get(lv), self.get(n[3]))
            if not isinstance(lv, LV):
                return res
            self.assign(lv, res)
            return lv
        try:
            return getattr(self, "e_" + k)(n)
        except ModelTypeError:
            raise ModelFatal("TypeError in an operator")

    def guard(self, f, *args):
        try:
            return f(*args)
        except ModelTypeError:
            raise ModelFatal("TypeError in an operator")

    def e_ls(self, n):
        xs = [self.eval(x) for x in n[1]]
        if xs and all(isinstance(x, LV) for x in xs):
            return LV(tuple(xs))
        return tuple(self.get(x) for x in xs)

    def e_at(self, n):
        lhs = self.peek(self.eval(n[1]))
        return self.at(lhs, self.peek(self.eval(n[2])))

    def peek(self, e):
        """Operands of these operators are looked at as soon as they are
        evaluated (they may be functions), so a line is read at once."""
        if isinstance(e, LV) and (e.base == "q"
                                  or isinstance(e.base, tuple)):
            self.get(e)
        return e

    def at(self, lhs, rhs):
        rhs = self.get(rhs)
        if isinstance(rhs, str):
            ix = num(rhs)
        elif isinstance(rhs, Rng):
            ix = (rhs.lo, rhs.hi)
        elif isinstance(rhs, Pat) or is_list(rhs):
            ix = rhs
        else:
            return None
        if isinstance(lhs, LV):
            if isinstance(rhs, (str, Rng)):
                if isinstance(lhs.base, tuple):
                    raise Unsupported("index into list of lvalues")
                return LV(lhs.base, lhs.path + (ix,), lhs.got)
            lhs = self.get(lhs)
        if isinstance(rhs, Pat) and isinstance(lhs, str):
            out = []
            for m in self.regex(rhs).finditer(lhs):
                out.append(self.matchvars(m)[0])
            return tuple(out)
        if isinstance(rhs, Pat) and (isinstance(lhs, Rng) or is_list(lhs)):
            return tuple(self.at(x, rhs) for x in items(lhs))
        if is_list(rhs) and is_iter(lhs):
            return tuple(self.get(self.at(lhs, x)) for x in rhs)
        if is_iter(lhs):
            if len(items(lhs)) == 0:
                return None
            if not isinstance(rhs, (str, Rng)):
                raise Unsupported("index")
            try:
                return getitem(lhs, ix)
            except _IndexError:
                return None
        return None

    def e_rng(self, n):
        lo, hi = self.get(n[1]), self.get(n[2])
        return self.mkrange(lo, hi)

    def mkrange(self, lo, hi):
        if isinstance(lo, str) and isinstance(hi, str):
            a, b = num(lo), num(hi)
            if b - a > 2000:
                raise Unsupported("big range")
            return Rng(a, b)
        raise Unsupported("range operands")

    def e_rto(self, n):
        hi = self.get(n[1])
        if isinstance(hi, str):
            if num(hi) > 2000:
                raise Unsupported("big range")
            return Rng(None, num(hi))
        raise Unsupported("range operand")

    def e_op2(self, n):
        a, b = self.get(n[2]), self.get(n[3])
        return self.op2(n[1], a, b)

    EACH = {"+": "L", "-": "L", ".": "R", "AE": "", "AL": "", "PE": "",
            "<": "", ">": "", "=": "", "==": "", "~": "R", "@?": "",
            "@*": "", "RM": "", "J": "", "Q": "", "~=": "", "RL": "",
            "N": ""}

    def op2(self, op, a, b):
        self.work -= 1
        if isinstance(a, Fn) or isinstance(b, Fn):
            if op in ("==",):
                raise Unsupported("function operand")
            return Fn((a.stmts if isinstance(a, Fn) else [])
                      + (b.stmts if isinstance(b, Fn) else []),
                      ["op2", op, self.quoted(a), self.quoted(b)])
        each = self.EACH[op]

        def exp(v):
            return each and (is_list(v) or each == "R" and isinstance(v, Rng))
        if exp(a) and exp(b):
            xa, xb = items(a), items(b)
            out = [self.op2(op, x, y) for x, y in zip(xa, xb)]
            out += xa[len(xb):] if len(xa) > len(xb) else xb[len(xa):]
            return tuple(out)
        if exp(a):
            return tuple(self.op2(op, x, b) for x in items(a))
        if exp(b):
            return tuple(self.op2(op, a, x) for x in items(b))
        return getattr(self, "o_" + {
            "+": "add", "-": "sub", ".": "cat", "AE": "ae", "AL": "al",
            "PE": "pe", "<": "lt", ">": "gt", "=": "eq", "==": "same",
            "~": "first", "@?": "find", "@*": "findall", "RM": "rm",
            "J": "join", "Q": "seq", "~=": "full", "RL": "rl",
            "N": "count"}[op])(a, b)

    def o_add(self, a, b):
        if isinstance(a, Rng) and isinstance(b, str):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, str):
            return str(num(a) + num(b))
        if isinstance(a, str) and isinstance(b, Rng):
            return Rng((b.lo or 0) + num(a), b.hi + num(a))
        if isinstance(a, Pat) and isinstance(b, Pat):
            raise Unsupported("pattern arithmetic")
        return None

    def o_sub(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return str(num(a) - num(b))
        if isinstance(a, Rng) and isinstance(b, str):
            return Rng((a.lo or 0) - num(b), a.hi - num(b))
        if isinstance(a, str) and isinstance(b, Rng):
            return tuple(self.o_sub(a, x) for x in items(b))
        return None

    def o_cat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            if len(a) + len(b) > 4000:
                raise Unsupported("long string")
            return a + b
        if isinstance(a, Pat) or isinstance(b, Pat):
            if isinstance(a, (str, Pat)) and isinstance(b, (str, Pat)):
                raise Unsupported("pattern concatenation")
        return None

    def listy(self, v):
        if isinstance(v, (str, Pat)) or v is None:
            return [v]
        return items(v)

    def o_ae(self, a, b):
        return tuple(self.listy(a) + [b])

    def o_pe(self, a, b):
        return tuple([b] + self.listy(a))

    def o_al(self, a, b):
        r = tuple(self.listy(a) + self.listy(b))
        if len(r) > 2000:
            raise Unsupported("long list")
        return r

    def o_rl(self, a, b):
        raise Unsupported("RL")

    def o_rm(self, a, b):
        if isinstance(a, str):
            if isinstance(b, str):
                return a.replace(b, "") if b else a
            raise Unsupported("RM")
        if is_list(a):
            return tuple(x for x in a if not same(x, b))
        raise Unsupported("RM")

    def o_join(self, a, sep):
        if not isinstance(sep, str):
            raise Unsupported("J")
        return self.join(a, sep)

    def join(self, v, sep=None):
        if not is_iter(v):
            return None
        xs = items(v)
        if not xs:
            return ""
        res = NOVAL
        for x in xs:
            if is_list(x) or isinstance(x, Rng):
                x = self.join(x, sep)
            if res is NOVAL:
                res = x
            else:
                if sep is not None:
                    res = self.catx(res, sep)
                res = self.catx(res, x)
        return res

    def catx(self, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            return None
        return self.o_cat(a, b)

    def cmp(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return num(a), num(b)
        if a is None or b is None:
            return None
        raise Unsupported("comparison")

    def o_lt(self, a, b):
        c = self.cmp(a, b)
        return "1" if c and c[0] < c[1] else "0"

    def o_gt(self, a, b):
        c = self.cmp(a, b)
        return "1" if c and c[0] > c[1] else "0"

    def o_eq(self, a, b):
        if a is None or b is None:
            return "1" if a is b else "0"
        c = self.cmp(a, b)
        return "1" if c[0] == c[1] else "0"

    def o_seq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return "1" if a == b else "0"
        raise Unsupported("Q")

    def o_same(self, a, b):
        return "1" if same(a, b) else "0"

    def o_first(self, a, b):
        # (string, regex)
        if isinstance(a, Pat) and isinstance(b, str):
            a, b = b, a
        if not isinstance(a, str) or not isinstance(b, (str, Pat)):
            return None
        m = self.regex(b).search(a)
        if m is None:
            return None
        self.matchvars(m)
        return m.group()

    def o_count(self, a, b):
        """needle N haystack"""
        if (is_list(a) or isinstance(a, Rng)) and isinstance(b, str):
            return tuple(self.o_count(x, b) for x in items(a))
        if isinstance(a, Pat) and isinstance(b, str):
            n = 0
            for m in self.regex(a).finditer(b):
                self.matchvars(m)
                n += 1
            return str(n)
        if isinstance(a, str) and isinstance(b, str):
            return str(b.count(a))
        if is_list(b):
            return str(sum(same(x, a) for x in b))
        raise Unsupported("N")

    def o_full(self, a, b):
        if isinstance(a, Pat) and isinstance(b, str):
            a, b = b, a
        if not isinstance(a, str) or not isinstance(b, (str, Pat)):
            if (is_list(a) or isinstance(a, Rng)) \
                    and isinstance(b, (str, Pat)):
                for x in items(a):
                    if not isinstance(x, str) or self.o_full(x, b) == "0":
                        return "0"
                return "1"
            return "0"
        m = self.regex(b).fullmatch(a)
        if m is None:
            return "0"
        self.matchvars(m)
        return "1"

    def o_find(self, a, b):
        if isinstance(b, Pat) and isinstance(a, str):
            m = self.regex(b).search(a)
            if m is None:
                return None
            self.matchvars(m)
            return str(m.start())
        if isinstance(b, str) and isinstance(a, str):
            i = a.find(b)
            return None if i < 0 else str(i)
        raise Unsupported("@?")

    def o_findall(self, a, b):
        if isinstance(b, Pat) and isinstance(a, str):
            out = []
            for m in self.regex(b).finditer(a):
                self.matchvars(m)
                out.append(str(m.start()))
            return tuple(out)
        raise Unsupported("@*")

    def quoted(self, v):
        """Node for an operand of functions joined by an operator."""
        if isinstance(v, Fn):
            return ["die", "no value"] if v.ret is None else v.ret
        return ["val", v]

    def e_val(self, n):
        return n[1]

    def e_op1(self, n):
        v = self.get(n[2])
        return self.op1(n[1], v)

    def op1(self, op, v):
        if isinstance(v, Fn) and op in ("#", "RV", "J", "-"):
            return Fn(v.stmts, ["op1", op, self.quoted(v)])
        if isinstance(v, Fn) and op != "!":
            raise Unsupported("function operand")
        if op == "#":
            return str(len(items(v))) if is_iter(v) else None
        if op == "!":
            return "0" if truth(v) else "1"
        if op == "RV":
            if isinstance(v, str):
                return v[::-1]
            if isinstance(v, Rng) or is_list(v):
                return tuple(items(v)[::-1])
            return None
        if op == "J":
            return self.join(v)
        if op == "-":
            if is_list(v) or isinstance(v, Rng):
                return tuple(self.op1(op, x) for x in items(v))
            if isinstance(v, str):
                return str(-num(v))
            if v is None:
                return None
            raise Unsupported("NEG")
        if op == "RP":
            return rep(v)
        if op == "ST":
            return text(v)
        raise ValueError(op)

    def e_mapop(self, n):
        v = self.get(n[2])
        if isinstance(v, Fn):
            return Fn(v.stmts, ["mapop", n[1], self.quoted(v)])
        if v is None or not is_iter(v):
            return None
        return tuple(self.op1(n[1], x) for x in items(v))

    FOLD0 = {"+": "0", ".": "", "AL": (), "AE": (), "PE": (), "-": "0",
             "J": "", "RM": ""}

    def e_fold(self, n):
        v = self.get(n[2])
        if isinstance(v, Fn):
            return Fn(v.stmts, ["fold", n[1], self.quoted(v)])
        if not is_iter(v):
            return None
        xs = items(v)
        if not xs:
            return self.FOLD0[n[1]]
        acc = xs[0]
        for x in xs[1:]:
            acc = self.op2(n[1], acc, x)
        return acc

    def e_scan(self, n):
        v = self.get(n[2])
        if isinstance(v, Fn):
            return Fn(v.stmts, ["scan", n[1], self.quoted(v)])
        if not is_iter(v):
            return None
        xs = items(v)
        if not xs:
            return ()
        acc = xs[0]
        out = [acc]
        for x in xs[1:]:
            acc = self.op2(n[1], acc, x)
            out.append(acc)
        return tuple(out)

    def e_chain(self, n):
        parts = [x if isinstance(x, str) else self.get(x) for x in n[1]]
        res = True
        i = 1
        while i < len(parts):
            if isinstance(parts[i - 1], Fn) or isinstance(parts[i + 1], Fn):
                raise Unsupported("function operand")
            res = self.op2(n[1][i], parts[i - 1], parts[i + 1])
            if not truth(res):
                break
            i += 2
        return res

    def e_as(self, n):
        lv = self.eval(n[1])
        rv = self.eval(n[2])
        if not isinstance(lv, LV):
            raise Unsupported("assignment to a value")
        rv = self.get(rv)
        self.assign(lv, rv)
        return lv

    def e_inc(self, n):
        lv = self.eval(n[2])
        v = self.get(lv)
        if isinstance(v, Fn):
            raise Unsupported("function operand")
        res = self.op2("+" if n[1] in ("U", "++") else "-", v, "1")
        if not isinstance(lv, LV):
            return res
        self.assign(lv, res)
        return lv

    def e_push(self, n):
        lv = self.peek(self.eval(n[2]))
        it = self.peek(self.eval(n[3]))
        if n[1] == "PK":
            return self.pick(lv, it)
        it = self.get(it)
        v = self.get(lv)
        if isinstance(v, Rng) or is_list(v):
            v = self.o_pe(v, it) if n[1] == "PU" else self.o_ae(v, it)
        elif isinstance(v, Pat):
            raise Unsupported("push to pattern")
        elif isinstance(v, str):
            t = text(it)
            v = self.o_cat(t, v) if n[1] == "PU" else self.o_cat(v, t)
        elif v is None:
            v = (it,)
        else:
            raise Unsupported("push to function")
        if isinstance(lv, LV):
            if not isinstance(lv.base, tuple):
                self.assign(lv, v)
                return lv
        return v

    def pick(self, lv, ix):
        ix = self.get(ix)
        if not isinstance(ix, str):
            return None
        ix = num(ix)
        v = self.get(lv)
        if isinstance(v, Rng):
            n = len(items(v))
            if n == 0:
                return None
            ix %= n
            if ix == 0:
                item, v = items(v)[0], Rng((v.lo or 0) + 1, v.hi)
            else:
                xs = items(v)
                item, v = xs[ix], tuple(xs[:ix] + xs[ix + 1:])
        elif isinstance(v, str) or is_list(v):
            if len(v) == 0:
                return None
            ix %= len(v)
            item, v = v[ix], v[:ix] + v[ix + 1:]
        else:
            return None
        if isinstance(lv, LV) and not isinstance(lv.base, tuple):
            self.assign(lv, v)
        return item

    def e_pop(self, n):
        lv = self.eval(n[2])
        v = self.get(lv)
        front = n[1] == "PO"
        if isinstance(v, Rng):
            xs = items(v)
            if not xs:
                return None
            if front:
                item, v = xs[0], Rng((v.lo or 0) + 1, v.hi)
            else:
                item, v = str(v.hi - 1), Rng(v.lo, v.hi - 1)
        elif isinstance(v, str) or is_list(v):
            if len(v) == 0:
                return None
            item, v = (v[0], v[1:]) if front else (v[-1], v[:-1])
        else:
            return None
        if isinstance(lv, LV) and not isinstance(lv.base, tuple):
            self.assign(lv, v)
        return item

    def e_swap(self, n):
        a, b = self.eval(n[1]), self.eval(n[2])
        va, vb = self.get(a), self.get(b)
        if isinstance(a, LV):
            self.assign(a, vb)
        if isinstance(b, LV):
            self.assign(b, va)
        return a

    def e_y(self, n):
        v = self.get(n[2])
        if n[1] != "Y" and v is not None:
            self.ev(("out", text(v) + ("\n" if n[1] == "YP" else "")))
        self.bind("y", v)
        return LV("y")

    def e_out(self, n):
        v = self.get(n[2])
        if v is not None:
            self.ev(("out", text(v) + ("\n" if n[1] == "P" else "")))
        return v

    def e_if(self, n):
        return self.eval(n[2] if truth(self.get(n[1])) else n[3])

    def e_rif(self, n):
        t, a, b = [self.get(x) for x in n[1:4]]
        if any(isinstance(x, Fn) for x in (t, a, b)):
            raise Unsupported("function operand")
        return a if truth(t) else b

    def e_and(self, n):
        v = self.get(n[1])
        return self.get(n[2]) if truth(v) else v

    def e_or(self, n):
        v = self.get(n[1])
        return v if truth(v) else self.get(n[2])

    def e_rand(self, n):
        a, b = self.get(n[1]), self.get(n[2])
        if isinstance(a, Fn) or isinstance(b, Fn):
            raise Unsupported("function operand")
        return b if truth(a) else a

    def e_ror(self, n):
        a, b = self.get(n[1]), self.get(n[2])
        if isinstance(a, Fn) or isinstance(b, Fn):
            raise Unsupported("function operand")
        return a if truth(a) else b

    def e_rval(self, n):
        return self.get(n[1])

    def e_lam(self, n):
        return self.make(n[1])

    def e_call(self, n):
        if not n[2]:
            raise Unsupported("call without arguments")
        xs = [self.eval(x) for x in [n[1]] + n[2]]
        head = xs[0]
        hv = self.get(head) if isinstance(head, LV) else head
        if isinstance(hv, Fn):
            return self.call(hv, xs[1:])
        if not (isinstance(head, LV) or is_iter(head)):
            return None
        v = head
        for ix in xs[1:]:
            v = self.at(v, ix)
        return v

    def e_rec(self, n):
        v = self.get(n[1])
        fn = self.funcs[-1]
        if fn is None:
            raise Unsupported("RE outside a function")
        return self.call(fn, [v])

    def e_ev(self, n):
        f = self.get(n[1])
        if not isinstance(f, Fn):
            raise Unsupported("V")
        for s in f.stmts:
            self.stmt(s)
        return self.eval(f.ret) if f.ret is not None else None

    def e_evs(self, n):
        f = self.make(n[1])
        for s in f.stmts:
            self.stmt(s)
        return self.eval(f.ret) if f.ret is not None else None

    def e_evf(self, n):
        args = self.get(n[2])
        if not (is_list(args) or isinstance(args, Rng)):
            raise Unsupported("V arguments")
        return self.call(self.make(n[1]), items(args))

    def e_die(self, n):
        raise ModelFatal(n[1])

    def e_hof(self, n):
        op = n[1].lstrip("~")
        if n[1].startswith("~"):
            xs = [self.get(x) for x in n[3]]
            f = self.get(n[2])
        else:
            f = self.get(n[2])
            xs = [self.get(x) for x in n[3]]
        if op == "MR":
            a, b = xs
            if not isinstance(f, Fn) or isinstance(a, Fn) \
                    or isinstance(b, Fn):
                raise Unsupported("MR")
            rx, string = self.pat_str(a, b)
            if rx is None:
                return None
            out = []
            for m in rx.finditer(string):
                gs = self.matchvars(m)
                out.append(self.call(f, gs))
            return tuple(out)
        if not isinstance(f, Fn) or any(isinstance(x, Fn) for x in xs):
            raise Unsupported("callback operands")
        v = xs[0]
        if op == "V":
            if not (is_list(v) or isinstance(v, Rng)):
                raise Unsupported("V arguments")
            return self.call(f, items(v))
        if op == "MC":
            if isinstance(v, str):
                r = c = num(v)
            elif is_list(v) and len(v) and all(isinstance(x, str) for x in v):
                r, c = num(v[0]), num(v[1 % len(v)])
            else:
                raise Unsupported("MC")
            if r * c > 60:
                raise Unsupported("MC size")
            return tuple(tuple(self.call(f, [str(i), str(j)])
                               for j in range(c)) for i in range(r))
        if op == "MZ":
            if not (is_iter(xs[0]) and is_iter(xs[1])):
                return None
            return tuple(self.call(f, [a, b])
                         for a, b in zip(items(xs[0]), items(xs[1])))
        if not is_iter(v):
            if op in ("MJ", "FJ"):
                return None
            if op == "MS":
                return "0"
            return None
        its = items(v)
        if op == "M":
            return tuple(self.call(f, [x]) for x in its)
        if op == "MJ":
            return self.join(tuple(self.call(f, [x]) for x in its))
        if op == "MS":
            acc = "0"
            for x in [self.call(f, [x]) for x in its]:
                acc = self.op2("+", acc, x)
            return acc
        if op == "MM":
            return tuple(tuple(self.call(f, [y]) for y in items(x))
                         if is_iter(x) else None for x in its)
        if op == "ME":
            return tuple(self.call(f, [str(i), x])
                         for i, x in enumerate(its))
        if op == "MP":
            if len(its) == 0:
                return ()
            return tuple(self.call(f, [a, b]) for a, b in zip(its, its[1:]))
        if op == "MU" or op == "FU":
            out = []
            for x in its:
                if op == "MU":
                    if x is None:
                        al = []
                    elif isinstance(x, Pat):
                        al = list(x.raw)
                    elif isinstance(x, Fn):
                        al = []
                    else:
                        al = items(x)
                else:
                    al = items(x) if is_iter(x) else []
                r = self.call(f, al)
                if op == "MU":
                    out.append(r)
                elif truth(r):
                    out.append(x)
            return tuple(out)
        if op == "MF":
            raise Unsupported("MF")
        if op == "FI" or op == "FN" or op == "FJ":
            want = op != "FN"
            r = tuple(x for x in its if truth(self.call(f, [x])) == want)
            return self.join(r) if op == "FJ" else r
        if op == "FE":
            return tuple(x for i, x in enumerate(its)
                         if truth(self.call(f, [str(i), x])))
        if op == "FX":
            return tuple(str(i) for i, x in enumerate(its)
                         if truth(self.call(f, [str(i), x])))
        if op in ("SK", "DK"):
            def key(v):
                if is_list(v) or isinstance(v, Rng):
                    raise Unsupported("list key")
                return num(v) if isinstance(v, str) else 0
            keys = []
            try:
                for x in its:
                    keys.append(key(self.call(f, [x])))
            except ModelTypeError:
                raise Unsupported("TypeError in a sort key")
            ks = list(zip(keys, its))
            if op == "DK":
                raise Unsupported("DK")
            ks.sort(key=lambda t: t[0])
            return tuple(x for _, x in ks)
        raise ValueError(op)

    def e_repl(self, n):
        s, p, f = [self.get(x) for x in n[1:4]]
        return self.replace(s, p, f)

    def replace(self, s, p, f):
        if is_list(s):
            return tuple(self.replace(x, p, f) for x in s)
        if is_list(p) and isinstance(f, Fn) and isinstance(s, str):
            for x in p:
                s = self.replace(s, x, f)
            return s
        if not (isinstance(s, str) and isinstance(f, Fn)
                and isinstance(p, (Pat, str))):
            raise Unsupported("R")
        rx = self.regex(p)

        def rp(m):
            gs = self.matchvars(m)
            return text(self.call(f, gs))
        return rx.sub(rp, s)


def same(a, b):
    if isinstance(a, Fn) or isinstance(b, Fn):
        raise Unsupported("function equality")
    if is_list(a) and is_list(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ sessions

def apply_event(state, e, model):
    """State (globals, locals) after one event; None if it is unaffected."""
    if e[0] == "set":
        if e[1] == "G":
            state[0][e[2]] = e[3]
        elif e[1] == "L0":
            state[1][e[2]] = e[3]
    elif e[0] == "grp":
        for tab, n, v in e[1]:
            if tab == "G":
                state[0][n] = v
            elif tab == "L0":
                state[1][n] = v
    elif e[0] == "wg":
        fresh = Model(args=model.args)
        fresh.main = model.main
        fresh.wipe(record=False)
        state[0].clear()
        state[0].update(fresh.globals)


class with_stack:
    """Deep recursion of the model itself is not a verdict."""

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(max(self.old, 12000))

    def __exit__(self, et, ev, tb):
        sys.setrecursionlimit(self.old)
        return False
