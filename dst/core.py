"""Deterministic simulator for the Pip interpreter.

The whole interpreter (real code from /repo, unmodified) runs inside this
process.  Everything it can observe of the outside world is replaced by a
simulated counterpart that is driven by a plain-data "run spec":

  stdin            scripted byte deliveries, delays, EINTR, EIO, soft EOF,
                   Ctrl-C while blocked, a causal peer that only sends the
                   next bytes after it has seen some output
  stdout / stderr  buffered text streams over a raw device with short writes,
                   EINTR, EIO / ENOSPC / EPIPE at any byte offset
  files            open() goes to a simulated file system with open/read
                   faults and short reads
  random, time,    simulated entropy and clock; every draw is logged, draws
  os.urandom       can be scripted adversarially
  execution        sys.monitoring LINE events of the repository's code objects
                   are the simulated clock (1 us per line); at any step a
                   KeyboardInterrupt / MemoryError can be raised, and the
                   stack can be bounded to any depth
One spec (plus the code, plus PYTHONHASHSEED) fully determines a run.
"""

import sys
import os
import io
import errno as _errno
import ast
import glob
import types
import builtins
import signal
import importlib.machinery
import random as _real_random
import time as _real_time
import traceback

REPO = os.environ.get("DST_REPO", "/repo")

# Bound at import time: the simulator must never call a patched function.
_real_open = builtins.open
_real_io_open = io.open
_real_urandom = os.urandom
_ABS = os.path.abspath
_STDLIB = os.path.dirname(os.__file__)


OUT_LIMIT = 1 << 22         # characters one run may print to a stream


class SimStepLimit(BaseException):
    """Step budget of a run used up (raised again at every later step)."""


class SimDeadlock(BaseException):
    """The interpreter blocks for input nobody will ever send."""


class HarnessHang(BaseException):
    """CPU watchdog: no simulated step for a very long time."""


class HarnessError(Exception):
    """The simulator itself is wrong: never a verdict about the code."""


# --------------------------------------------------------------- code loading

# Source lines inside of try statements: (file, line). Faults strike there
# more often than chance would have it.
GUARDED = set()


class RepoCode:
    """Compiled code of the repository's current working tree."""

    def __init__(self, root=REPO):
        self.root = root
        self.codes = {}
        self.files = {}
        for path in sorted(glob.glob(os.path.join(root, "*.py"))):
            name = os.path.basename(path)[:-3]
            if not name.isidentifier():
                continue
            with _real_open(path, "rb") as f:
                src = f.read()
            # A tree that does not compile is an error of the build, which
            # the caller reports as such.
            self.codes[name] = compile(src, path, "exec", dont_inherit=True)
            self.files[name] = path
            for node in ast.walk(ast.parse(src)):
                if isinstance(node, ast.Try) and node.lineno:
                    for st in node.body + node.finalbody:
                        GUARDED.update((os.path.basename(path), n) for n in
                                       range(st.lineno, st.end_lineno + 1))
        # Function bodies only: module bodies run at import time, before the
        # simulated run starts.
        self.all_codes = [c for m in self.codes.values() for c in _walk(m)
                          if c.co_name != "<module>"]
        self.modnames = set(self.codes)

    # meta path finder / loader protocol
    def find_spec(self, name, path=None, target=None):
        if name in self.codes:
            return importlib.machinery.ModuleSpec(
                name, self, origin=self.files[name])
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        module.__file__ = self.files[name]
        exec(self.codes[name], module.__dict__)


def _walk(code):
    yield code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            yield from _walk(const)


# ------------------------------------------------------------------ monitoring

_MON = sys.monitoring
_TOOL = 3


class Monitor:
    """Step counter and fault injector on LINE events of repo code."""

    def __init__(self, code):
        self.code = code
        self.count = 0
        self.limit = 0
        self.inject_at = -1
        self.inject_exc = None
        self.inject_list = []
        self.trace = None
        self.fired = []
        self.in_run = False
        self.pos = None
        _MON.use_tool_id(_TOOL, "dst")
        _MON.register_callback(_TOOL, _MON.events.LINE, self._line)

    def on(self):
        for c in self.code.all_codes:
            _MON.set_local_events(_TOOL, c, _MON.events.LINE)

    def off(self):
        for c in self.code.all_codes:
            _MON.set_local_events(_TOOL, c, 0)

    def _line(self, code, line):
        if not self.in_run:
            return
        self.count += 1
        n = self.count
        if self.trace is not None:
            self.trace.append((code, line))
        if n >= self.inject_at >= 0:
            exc = self.inject_exc
            self.fired.append((n, exc.__name__, code.co_qualname, line))
            self._next_injection()
            raise exc
        if n > self.limit:
            raise SimStepLimit()

    def _next_injection(self):
        if self.inject_list:
            at, name = self.inject_list.pop(0)
            self.inject_at = at
            self.inject_exc = {"KeyboardInterrupt": KeyboardInterrupt,
                               "MemoryError": MemoryError}[name]
        else:
            self.inject_at = -1
            self.inject_exc = None

    def start(self, injections, limit, trace):
        self.count = 0
        self.limit = limit
        self.trace = [] if trace else None
        self.fired = []
        self.inject_list = sorted(map(tuple, injections))
        self._next_injection()
        self.in_run = True

    def stop(self):
        self.in_run = False


# ------------------------------------------------------------------ sim world

class World:
    """Event log, clock and fault counters of one run."""

    def __init__(self, mon):
        self.mon = mon
        self.log = []          # (step, kind, data)
        self.extra_us = 0      # simulated time spent blocked
        self.faults = {}       # fault kind -> times fired
        self.cfg = {}

    @property
    def now_us(self):
        return self.mon.count + self.extra_us

    def ev(self, kind, data=None):
        self.log.append((self.mon.count, kind, data))

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1


def _errno_exc(name):
    if name == "KI":
        return KeyboardInterrupt()
    code = getattr(_errno, name)
    return OSError(code, os.strerror(code))


class SimRawIn(io.RawIOBase):
    """Raw stdin: consumes a script of delivery items.

    ["d", str]       bytes (latin-1 text of the bytes) become available
    ["delay", us]    the reader is blocked for that long
    ["eintr"]        a signal interrupts the read (PEP 475 retry)
    ["err", name]    the read fails with that errno
    ["ki"]           Ctrl-C while blocked in the read
    ["eof"]          end of file (reported once; more data may follow, as on
                     a terminal)
    ["wait", text]   the peer sends nothing more until `text` has reached
                     the stdout device
    After the script: end of file forever.
    """

    def __init__(self, world, script, device=None):
        self.w = world
        self.script = [list(x) for x in script]
        self.device = device
        self.consumed = 0

    def readable(self):
        return True

    def readinto(self, b):
        w = self.w
        while self.script:
            item = self.script[0]
            kind = item[0]
            if kind == "d":
                data = item[1].encode("latin-1")
                if not data:
                    self.script.pop(0)
                    continue
                n = min(len(b), len(data))
                b[:n] = data[:n]
                rest = data[n:]
                if rest:
                    item[1] = rest.decode("latin-1")
                else:
                    self.script.pop(0)
                self.consumed += n
                if n < len(b):
                    w.fault("short-read")
                w.ev("rawin", n)
                return n
            self.script.pop(0)
            if kind == "delay":
                w.extra_us += item[1]
                w.fault("stdin-delay")
            elif kind == "eintr":
                w.fault("stdin-eintr")
                raise InterruptedError(_errno.EINTR, "Interrupted")
            elif kind == "err":
                w.fault("stdin-" + item[1])
                w.ev("rawin-err", item[1])
                raise _errno_exc(item[1])
            elif kind == "ki":
                w.fault("ctrl-c-blocked-read")
                w.ev("ki-read")
                raise KeyboardInterrupt()
            elif kind == "eof":
                w.fault("soft-eof")
                w.ev("rawin-eof")
                return 0
            elif kind == "wait":
                w.fault("peer-wait")
                seen = bytes(self.device.data) if self.device else b""
                if item[1].encode("utf-8") not in seen:
                    w.ev("deadlock", item[1])
                    raise SimDeadlock(item[1])
            else:
                raise HarnessError(f"bad stdin item {item!r}")
        w.ev("rawin-eof")
        return 0


class SimRawOut(io.RawIOBase):
    """Raw stdout / stderr device.

    cfg: {"max": n}         no write accepts more than n bytes
         {"eintr": [i,..]}  the i-th write call is interrupted first
         {"fail": {"at": byte offset, "err": name, "persist": bool}}
    """

    def __init__(self, world, name, cfg=None):
        self.w = world
        self.name = name
        self.cfg = cfg or {}
        self.data = bytearray()
        self.calls = 0
        self.failed = 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        i = self.calls
        self.calls += 1
        if i in self.cfg.get("eintr", ()):
            self.w.fault(self.name + "-eintr")
            raise InterruptedError(_errno.EINTR, "Interrupted")
        n = len(b)
        mx = self.cfg.get("max")
        if mx is not None and n > mx:
            n = mx
            self.w.fault(self.name + "-short-write")
        fail = self.cfg.get("fail")
        if fail and (not self.failed or fail.get("persist", True)):
            room = fail["at"] - len(self.data)
            if room <= 0:
                self.failed += 1
                self.w.fault(self.name + "-" + fail["err"])
                self.w.ev(self.name + "-err", fail["err"])
                raise _errno_exc(fail["err"])
            if n > room:
                n = room
                self.w.fault(self.name + "-short-write")
        self.data += b[:n]
        self.w.ev("raw" + self.name, b[:n])
        return n


class SimTextOut(io.TextIOWrapper):
    """Text layer that logs what the program hands over, in order."""

    _dst_total = 0

    def write(self, s):
        self._dst_log.append((self._dst_mon.count, self._dst_kind, s))
        self._dst_total += len(s)
        if self._dst_total > OUT_LIMIT:
            # as if the step budget were used up
            self._dst_mon.limit = min(self._dst_mon.limit,
                                      self._dst_mon.count - 1)
            raise SimStepLimit()
        return super().write(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)


class SimTextIn(io.TextIOWrapper):
    """Text layer that logs what the program consumes, in order."""

    def readline(self, *args):
        s = super().readline(*args)
        self._dst_log.append((self._dst_mon.count, "read", s))
        return s

    def read(self, *args):
        s = super().read(*args)
        self._dst_log.append((self._dst_mon.count, "read", s))
        return s

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def readlines(self, *args):
        out = []
        while True:
            s = self.readline()
            if not s:
                return out
            out.append(s)


class SimRawFile(io.RawIOBase):
    """A simulated file opened for reading, with scripted read faults."""

    def __init__(self, world, name, spec):
        self.w = world
        self.name = name
        self.data = spec.get("data", "").encode("latin-1")
        self.pos = 0
        self.maxread = spec.get("max")
        self.fail_at = spec.get("fail_at")
        self.fail_err = spec.get("fail_err", "EIO")
        self.eintr = list(spec.get("eintr", ()))
        self.calls = 0

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, b):
        i = self.calls
        self.calls += 1
        if i in self.eintr:
            self.w.fault("file-eintr")
            raise InterruptedError(_errno.EINTR, "Interrupted")
        n = len(b)
        if self.maxread and n > self.maxread:
            n = self.maxread
            if self.pos + n < len(self.data):
                self.w.fault("file-short-read")
        if self.fail_at is not None:
            room = self.fail_at - self.pos
            if room <= 0:
                self.w.fault("file-" + self.fail_err)
                self.w.ev("file-err", self.fail_err)
                raise _errno_exc(self.fail_err)
            n = min(n, room)
        chunk = self.data[self.pos:self.pos + n]
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


class SimRandom(_real_random.Random):
    """The generator behind the simulated `random` module.

    Normal mode: Mersenne Twister; OS entropy is simulated entropy.
    Adversarial mode: the raw outcomes follow a script of extremes, then the
    generator; every outcome is one a real generator could return.
    """

    def __init__(self, proc, explicit=None):
        self._proc = proc
        self._ready = True
        super().__init__(explicit)

    def seed(self, a=None, version=2):
        if not getattr(self, "_ready", False):
            return
        if a is None:
            a = self._proc.next_entropy()
            self._proc.ev("seed-os")
        else:
            self._proc.ev("seed", repr(a)[:200])
        super().seed(a, version)

    def random(self):
        x = super().random()
        adv = self._proc.next_adv()
        if adv is not None:
            if isinstance(adv, float):      # a fraction of the range
                x = int(adv * (1 << 53)) * 2.0 ** -53
            else:
                x = {"lo": 0.0, "hi": 1.0 - 2.0 ** -53,
                     "mid": 0.5, "tiny": 2.0 ** -53}.get(adv, x)
        self._proc.ev("draw", x)
        return x

    def getrandbits(self, k):
        x = super().getrandbits(k)
        adv = self._proc.next_adv()
        if adv is not None and k > 0:
            if isinstance(adv, float):
                x = int(adv * (1 << min(k, 53))) << max(0, k - 53)
            else:
                x = {"lo": 0, "hi": (1 << k) - 1, "mid": 1 << (k - 1),
                     "tiny": 1}.get(adv, x)
        self._proc.ev("draw", (k, x))
        return x

    def randbytes(self, n):
        return self.getrandbits(n * 8).to_bytes(n, "little")


_RANDOM_NAMES = ["seed", "random", "uniform", "triangular", "randint",
                 "choice", "randrange", "sample", "shuffle", "choices",
                 "normalvariate", "lognormvariate", "expovariate",
                 "vonmisesvariate", "gammavariate", "gauss", "betavariate",
                 "binomialvariate", "paretovariate", "weibullvariate",
                 "getstate", "setstate", "getrandbits", "randbytes"]


def _fake_random_module(proc):
    mod = types.ModuleType("random")
    mod.__file__ = _real_random.__file__
    inst = SimRandom(proc)
    mod._inst = inst
    for name in _RANDOM_NAMES:
        setattr(mod, name, getattr(inst, name))

    class Random(SimRandom):
        def __init__(self, x=None):
            super().__init__(proc, x)

    class SystemRandom(SimRandom):
        def __init__(self, x=None):
            super().__init__(proc)

        def seed(self, *a, **k):
            return None

    mod.Random = Random
    mod.SystemRandom = SystemRandom
    mod.__all__ = _RANDOM_NAMES + ["Random", "SystemRandom"]
    return mod


def _fake_time_module(proc):
    mod = types.ModuleType("time")
    for name in dir(_real_time):
        if not name.startswith("__"):
            setattr(mod, name, getattr(_real_time, name))

    def secs():
        return proc.epoch + (proc.world.now_us if proc.world else 0) / 1e6

    for name in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(mod, name, secs)
        setattr(mod, name + "_ns", lambda: int(secs() * 1e9))

    def sleep(s):
        proc.world.extra_us += int(s * 1e6)

    mod.sleep = sleep
    return mod


# ------------------------------------------------------------------ processes

class Result:
    """What one simulated run did."""

    __slots__ = ("status", "exc", "tb", "log", "out", "err", "steps",
                 "sim_us", "faults", "fired", "trace", "unread", "proc",
                 "value", "spec", "line_counts")

    def text(self):
        return self.out.decode("utf-8", "replace")

    def errtext(self):
        return self.err.decode("utf-8", "replace")

    def effects(self, kinds=("print", "read", "draw", "seed", "seed-os")):
        """Program-level effects in order; adjacent output merged."""
        out = []
        for step, kind, data in self.log:
            if kind not in kinds:
                continue
            if kind == "print" and out and out[-1][0] == "print":
                out[-1] = ("print", out[-1][1] + data)
            elif kind == "print" and data == "":
                continue
            else:
                out.append((kind, data))
        return out

    def effect_steps(self, kinds=("print", "read", "draw", "seed")):
        return [s for s, k, d in self.log if k in kinds and d != ""]

    def lines_read(self):
        return [d for _, k, d in self.log if k == "read"]

    def summary(self):
        return {"status": self.status, "exc": self.exc,
                "out": self.text()[:2000], "err": self.errtext()[:2000],
                "steps": self.steps}


class Sim:
    """Owner of the seams; one per (real) process."""

    def __init__(self, root=REPO):
        self.code = RepoCode(root)
        self.mon = Monitor(self.code)
        self.mon.on()
        self.current = None
        self.hang_s = 30
        sys.meta_path.insert(0, self.code)
        sys.dont_write_bytecode = True
        signal.signal(signal.SIGVTALRM, self._alarm)

    def _alarm(self, signum, frame):
        raise HarnessHang()

    def process(self, entropy=0, adv=None, preload=True):
        return SimProcess(self, entropy, adv)


class SimProcess:
    """One operating-system process running the interpreter: module state
    lives as long as this object."""

    def __init__(self, sim, entropy=0, adv=None):
        self.sim = sim
        self.world = None
        self.entropy = entropy
        self._entropy_rng = _real_random.Random(f"entropy:{entropy}")
        self.adv = list(adv or [])
        self.epoch = 1.7e9 + (entropy % 100000) * 3600.0
        self.runs = 0
        self.mods = {}
        self._random = None
        self._random = _fake_random_module(self)
        self._time = _fake_time_module(self)
        self._loaded = False
        self.limit_change = 0       # of the recursion limit, by earlier runs

    def ev(self, kind, data=None):
        if self.world is not None:
            self.world.ev(kind, data)

    def next_entropy(self):
        return self._entropy_rng.getrandbits(256)

    def next_adv(self):
        if self.adv:
            if self.world is not None:
                self.world.fault("adversarial-draw")
            a = self.adv.pop(0)
            return None if a == "prng" else a
        return None

    # -- seam installation -------------------------------------------------

    def _install(self):
        self._saved_mods = {n: sys.modules.get(n)
                            for n in self.sim.code.modnames
                            | {"random", "time"}}
        for n in self.sim.code.modnames:
            sys.modules.pop(n, None)
        sys.modules.update(self.mods)
        sys.modules["random"] = self._random
        sys.modules["time"] = self._time
        self._saved_urandom = os.urandom
        os.urandom = lambda n: self._entropy_rng.randbytes(n)
        if self.sim.code.root not in sys.path:
            sys.path.insert(0, self.sim.code.root)

    def _uninstall(self):
        self.mods = {n: sys.modules[n] for n in self.sim.code.modnames
                     if n in sys.modules}
        for n, m in self._saved_mods.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        os.urandom = self._saved_urandom

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        w = self.world
        if isinstance(file, int):
            w.ev("open-fd", file)
            if file == 0:
                if "b" in mode:
                    return sys.stdin.buffer
                return sys.stdin
            if file in (1, 2):
                st = sys.stdout if file == 1 else sys.stderr
                return st.buffer if "b" in mode else st
            raise OSError(_errno.EBADF, "Bad file descriptor")
        path = os.fspath(file)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path in ("/dev/stdin", "/proc/self/fd/0"):
            return sys.stdin.buffer if "b" in mode else sys.stdin
        w.ev("open", path)
        files = w.cfg.get("files", {})
        spec = files.get(path)
        if spec is None:
            for name, sp in files.items():
                if _ABS(name) == _ABS(path):
                    spec = sp
        if spec is None:
            ap = _ABS(path)
            if ap.startswith(self.sim.code.root + os.sep) and "w" not in mode:
                aux = w.cfg.get("aux")
                if aux and not ap.endswith(".py"):
                    spec = dict(aux)
                    if "data" not in spec and os.path.exists(ap):
                        with _real_open(ap, "rb") as f:
                            spec["data"] = f.read().decode("latin-1")
                else:
                    return _real_open(file, mode, buffering, encoding, errors,
                                      newline, closefd, opener)
            elif ap.startswith(_STDLIB) or "/lib/python" in ap:
                return _real_open(file, mode, buffering, encoding, errors,
                                  newline, closefd, opener)
            else:
                if any(c in mode for c in "wax+"):
                    # Nothing the interpreter runs may write real files.
                    w.ev("open-write", path)
                    spec = {"data": ""}
                    raw = SimRawOut(w, "file:" + path)
                    if "b" in mode:
                        return io.BufferedWriter(raw)
                    return io.TextIOWrapper(io.BufferedWriter(raw), "utf-8")
                raise FileNotFoundError(_errno.ENOENT,
                                        os.strerror(_errno.ENOENT), path)
        if spec.get("open_eintr"):
            w.fault("file-open-eintr")
        if spec.get("open_err"):
            w.fault("file-open-" + spec["open_err"])
            w.ev("file-open-err", spec["open_err"])
            raise _errno_exc(spec["open_err"])
        raw = SimRawFile(w, path, spec)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, spec.get("buf", 8192))
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    # -- running -----------------------------------------------------------

    def run(self, spec, trace=False):
        """Run one entry into the interpreter under `spec`; returns Result.

        spec keys (all optional except what the entry needs):
          argv: [..]            command-line arguments (entry "main")
          entry: "main" (pip.py as a script) | "mainfn" (pip.main())
                 | "run" | "pip" (the Python API)
          code, args, interactive: parameters of entry "run"
          stdin, stdout, stderr, files, aux
          inject: [[step, "KeyboardInterrupt"|"MemoryError"], ..]
          depth: additional Python stack frames available
          max_steps: step budget
          ki_at_limit: deliver Ctrl-C instead of stopping at the budget
        """
        sim = self.sim
        mon = sim.mon
        w = World(mon)
        w.cfg = spec
        self.world = w
        self.runs += 1
        out_cfg = spec.get("stdout", {})
        err_cfg = spec.get("stderr", {})
        raw_out = SimRawOut(w, "stdout", out_cfg)
        raw_err = SimRawOut(w, "stderr", err_cfg)
        raw_in = SimRawIn(w, spec.get("stdin", []), raw_out)
        so = SimTextOut(io.BufferedWriter(raw_out, out_cfg.get("buf", 8192)),
                        encoding=out_cfg.get("encoding", "utf-8"),
                        errors=out_cfg.get("errors", "strict"),
                        newline="\n",
                        line_buffering=out_cfg.get("tty", False))
        so._dst_log, so._dst_mon, so._dst_kind = w.log, mon, "print"
        se = SimTextOut(io.BufferedWriter(raw_err),
                        encoding=err_cfg.get("encoding", "utf-8"),
                        errors="backslashreplace", newline="\n",
                        line_buffering=True, write_through=True)
        se._dst_log, se._dst_mon, se._dst_kind = w.log, mon, "errprint"
        si = SimTextIn(io.BufferedReader(raw_in,
                                         spec.get("stdin_buf", 8192)),
                       encoding="utf-8",
                       errors=spec.get("stdin_errors", "strict"))
        si._dst_log, si._dst_mon = w.log, mon
        saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv,
                 builtins.open, io.open, sys.getrecursionlimit())
        saved_under = (sys.__stdin__, sys.__stdout__, sys.__stderr__)
        res = Result()
        res.spec = spec
        res.exc = None
        res.tb = False
        res.value = None
        status = 0
        self._install()
        limit = None
        sys.stdin, sys.stdout, sys.stderr = si, so, se
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = si, so, se
        sys.argv = ["pip.py"] + list(spec.get("argv", []))
        builtins.open = self._open
        io.open = self._open
        cwd = None
        if spec.get("files") is not None and spec.get("scratch"):
            cwd = os.getcwd()
            os.chdir(spec["scratch"])
        signal.setitimer(signal.ITIMER_VIRTUAL, sim.hang_s)
        try:
            try:
                # Import is not counted: faults are for the program's run.
                import pip as pipmod
                self._loaded = True
                entry = spec.get("entry", "main")
                mon.start(spec.get("inject", ()),
                          spec.get("max_steps", 400000), trace)
                if spec.get("depth"):
                    limit = _depth() + spec["depth"] + self.limit_change
                    sys.setrecursionlimit(limit)
                if entry == "main":
                    # what `python3 pip.py ...` does
                    exec(sim.code.codes["pip"],
                         {"__name__": "__main__", "__doc__": None,
                          "__file__": sim.code.files["pip"],
                          "__builtins__": builtins})
                elif entry == "mainfn":
                    res.value = pipmod.main()
                elif entry == "run":
                    res.value = pipmod.run(spec.get("code"),
                                           spec.get("args"))
                elif entry == "pip":
                    res.value = pipmod.pip(spec.get("code"),
                                           spec.get("args"))
                else:
                    raise HarnessError(f"bad entry {entry!r}")
            finally:
                mon.stop()
                if limit:
                    # a change made by the run outlives it
                    self.limit_change = max(-200, min(
                        600, self.limit_change + sys.getrecursionlimit()
                        - limit))
                sys.setrecursionlimit(saved[6])
        except SystemExit as e:
            if e.code is None:
                status = 0
            elif isinstance(e.code, int):
                status = e.code
            else:
                status = 1
        except SimStepLimit:
            status = "steplimit"
        except SimDeadlock:
            status = "deadlock"
        except HarnessHang:
            status = "hang"
        except HarnessError:
            raise
        except KeyboardInterrupt:
            status = 130
            res.exc = "KeyboardInterrupt"
            res.tb = True
        except BaseException as e:
            status = 1
            res.exc = type(e).__name__
            res.tb = True
            w.ev("traceback", res.exc)
            w.log_tb = _short_tb(e)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            mon.stop()
            # interpreter shutdown: flush standard streams
            try:
                so.flush()
            except BaseException as e:
                w.ev("final-flush-error", type(e).__name__)
                if isinstance(status, int):
                    status = 120
            try:
                se.flush()
            except BaseException:
                pass
            (sys.stdin, sys.stdout, sys.stderr, sys.argv,
             builtins.open, io.open) = saved[:6]
            sys.__stdin__, sys.__stdout__, sys.__stderr__ = saved_under
            sys.setrecursionlimit(saved[6])
            if cwd is not None:
                os.chdir(cwd)
            self._uninstall()
            for st in (so, se, si):
                try:
                    st.detach()
                except BaseException:
                    pass
        res.status = status
        res.log = w.log
        res.out = bytes(raw_out.data)
        res.err = bytes(raw_err.data)
        if res.tb:
            res.err += ("\n<traceback " + str(res.exc) + ": "
                        + getattr(w, "log_tb", "") + ">").encode()
        res.steps = mon.count
        res.sim_us = w.now_us
        res.faults = w.faults
        for f in mon.fired:
            res.faults[f[1]] = res.faults.get(f[1], 0) + 1
        res.fired = list(mon.fired)
        res.trace = mon.trace
        mon.trace = None
        res.unread = raw_in.script
        self.world = None
        return res


def _short_tb(e):
    try:
        return traceback.format_exception_only(type(e), e)[-1].strip()[:300]
    except BaseException:
        return type(e).__name__


def _depth():
    f = sys._getframe(1)
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def trace_key(entry):
    """Stable identity of a traced source line."""
    code, line = entry
    return (os.path.basename(code.co_filename), line)
