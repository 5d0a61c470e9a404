"""REPL sessions and programs judged against the reference model.

A session case is a list of entries; each entry is a list of statements of
the model's mini-language.  The real interpreter runs the session in the
simulator; this module splits its event log into entries and compares each
with the model.  An entry that was cut short (injected Ctrl-C or failed
allocation, exhausted stack) must have printed a prefix of its output, and
the state it leaves - which the entry after it displays - must be one of the
states between the last output that happened and the first one that did not.
"""

from . import model as M
from .model import Model, Unsupported, ModelFatal, ModelDeep, NOVAL

PROMPT = ">> "


class Mismatch(Exception):
    def __init__(self, cls, detail):
        self.cls = cls
        self.detail = detail


def source(entry):
    return ";".join(M.render(s) for s in entry)


def segments(result):
    """Split a REPL run's log at the lines it took.

    -> list of dicts: line, text, err, steps (first, last)"""
    segs = [{"line": None, "text": "", "err": "", "first": 0, "last": 0,
             "prints": []}]
    for step, kind, data in result.log:
        if kind == "read":
            segs[-1]["last"] = step
            segs.append({"line": data, "text": "", "err": "", "first": step,
                         "last": step, "prints": []})
        elif kind == "print":
            segs[-1]["text"] += data
            segs[-1]["last"] = step
            if data:
                segs[-1]["prints"].append((step, data))
        elif kind == "errprint":
            segs[-1]["err"] += data
    segs[-1]["last"] = result.steps
    return segs


class Predict:
    """Model side of a session; `model` carries the state."""

    def __init__(self, args=(), lines=()):
        self.model = Model(args=args, lines=lines)

    def entry(self, stmts):
        """Run one REPL entry -> (events, outcome)."""
        m = self.model
        m.events = []
        m.work = 60000
        outcome = "ok"
        try:
            for s in stmts:
                v = m.stmt(s)
                if v is not NOVAL:
                    m.ev(("out", M.rep(v) + "\n"))
                    m.history(v)
        except ModelDeep:
            outcome = "deep"
        except ModelFatal as e:
            outcome = "fatal:" + str(e)
        except RecursionError:
            raise Unsupported("model recursion")
        m.scopes = m.scopes[:1]
        m.funcs = [None]
        return m.events, outcome

    def program(self, stmts, args):
        m = self.model
        m.args = list(args)
        m.main = m.make(stmts)
        m.wipe(record=False)
        m.events = []
        m.work = 200000
        try:
            v = m.call(m.main, list(args))
            if v is not None:
                m.ev(("out", M.text(v) + "\n"))
            return m.events, "ok"
        except ModelDeep:
            return m.events, "deep"
        except ModelFatal as e:
            return m.events, "fatal:" + str(e)
        except RecursionError:
            raise Unsupported("model recursion")


def out_text(events):
    return "".join(e[1] for e in events if e[0] == "out")


def copy_state(st):
    return dict(st[0]), dict(st[1])


def cut_candidates(start, events, printed, model):
    """States a run may leave that was cut after printing `printed`.

    Yields (state, open_group): with open_group, any subset of its bindings
    may have been made on top of the state.  None if `printed` is not a
    prefix of the output at all."""
    if not out_text(events).startswith(printed):
        return None
    cands = []
    st = copy_state(start)
    done = 0
    n = len(printed)
    for i in range(len(events) + 1):
        e = events[i] if i < len(events) else None
        if done == n or (e is not None and e[0] == "out"
                         and done < n < done + len(e[1])):
            cands.append((copy_state(st),
                          e[1] if e is not None and e[0] == "grp" else None))
        if e is None:
            break
        if e[0] == "out":
            done += len(e[1])
            if done > n:
                break
        else:
            M.apply_event(st, e, model)
    return cands


def probe_options(names, cand):
    """Per name the texts its display may have."""
    (glob, loc), grp = cand
    opts = []
    over = {}
    for tab, n, v in grp or ():
        if tab in ("G", "L0"):
            over[n] = v
    for n in names:
        t = loc if n in M.LOCALS else glob
        o = [(M.rep(t.get(n)), t.get(n), n in t)]
        if n in over:
            o.append((M.rep(over[n]), over[n], True))
        opts.append(o)
    return opts


def match_probe(text, opts):
    """Choose one option per name so that the list display is `text`."""
    def go(i, pos):
        if i == len(opts):
            return [] if text[pos:] == "]\n" else None
        for k, (s, _, _) in enumerate(opts[i]):
            t = s if i == 0 else ";" + s
            if text.startswith(t, pos):
                r = go(i + 1, pos + len(t))
                if r is not None:
                    return [k] + r
        return None
    if not text.startswith("["):
        return None
    return go(0, 1)


def adopted(names, cand, choice):
    """State with the chosen bindings; names outside of the probe that the
    open group may have bound or not are unknown."""
    (glob, loc), grp = cand
    glob, loc = dict(glob), dict(loc)
    opts = probe_options(names, cand)
    for tab, n, v in grp or ():
        if tab in ("G", "L0") and n not in names:
            t = loc if n in M.LOCALS else glob
            if n not in t or not alike(t[n], v):
                t[n] = M.UNKNOWN
    for n, o, k in zip(names, opts, choice):
        if k:
            (loc if n in M.LOCALS else glob)[n] = o[k][1]
    return glob, loc


def alike(a, b):
    return type(a) is type(b) and (a is b or a == b)


def merge(st, other):
    for t, o in zip(st, other):
        for n in set(t) | set(o):
            if n not in t or n not in o or not alike(t[n], o[n]):
                if t.get(n) is None and o.get(n) is None:
                    continue
                t[n] = M.UNKNOWN


class Checker:
    """Compare a run of a session with the model."""

    def __init__(self, entries, probes, args=(), lines=(), names=()):
        self.entries = entries
        self.probes = probes       # entry index -> list of probed names
        self.pred = Predict(args, lines)
        self.cuts = 0
        self.cut_states = 0

    def compare(self, r, fired_steps=(), may_cut=(), plain=True):
        """Raises Mismatch.  `may_cut`: indexes of entries that the
        environment may have cut short without an injection (stack)."""
        segs = segments(r)
        if r.status != 0:
            raise Mismatch("session-ended",
                           {"status": r.status, "err": r.errtext()[-600:]})
        body = segs[1:]
        if len(body) != len(self.entries) + 1:
            raise Mismatch("entries-executed",
                           {"read": len(body) - 1,
                            "entries": len(self.entries)})
        if body[-1]["text"] != "Bye!\n":
            raise Mismatch("no-farewell", body[-1]["text"])
        pending = None
        for k, (ent, seg) in enumerate(zip(self.entries, body)):
            src = source(ent)
            if seg["line"].rstrip("\n") != src:
                raise Mismatch("line", [seg["line"], src])
            if not seg["text"].endswith(PROMPT):
                raise Mismatch("prompt", {"entry": src, "text": seg["text"]})
            got = seg["text"][:-len(PROMPT)]
            if pending is not None:
                self.resolve(pending, k, got, seg)
                pending = None
                continue
            start = self.pred.model.snapshot()
            events, outcome = self.pred.entry(ent)
            want = out_text(events)
            hit = [s for s in fired_steps if seg["first"] < s <= seg["last"]]
            erred = bool(seg["err"].strip())
            if hit or outcome == "deep" or (k in may_cut and erred):
                if not erred:
                    raise Mismatch("unreported",
                                   {"entry": src, "text": got,
                                    "outcome": outcome})
                cands = cut_candidates(start, events, got, self.pred.model)
                if cands is None:
                    raise Mismatch("output-not-prefix",
                                   {"entry": src, "got": got, "full": want})
                self.cuts += 1
                pending = (cands, events, src, got)
                continue
            if got != want:
                raise Mismatch("output", {"entry": src, "got": got,
                                          "want": want, "k": k,
                                          "err": seg["err"][-300:]})
            if outcome.startswith("fatal") and not erred:
                raise Mismatch("unreported", {"entry": src,
                                              "outcome": outcome})
            if outcome == "ok" and "atal error" in seg["err"]:
                raise Mismatch("spurious-error",
                               {"entry": src, "err": seg["err"][-300:]})
        return self

    def resolve(self, pending, k, got, seg):
        cands, events, src, printed = pending
        names = self.probes.get(k)
        if names is None:
            raise Unsupported("cut entry without a probe after it")
        self.cut_states += len(cands)
        tried = []
        state = None
        for c in reversed(cands):
            opts = probe_options(names, c)
            ch = match_probe(got, opts)
            if ch is not None:
                st = adopted(names, c, ch)
                if state is None:
                    state = st
                else:
                    merge(state, st)
                continue
            tried.append("[" + ";".join(o[0][0] for o in opts) + "]")
        if state is not None:
            self.pred.model.restore(state)
            ev, outcome = self.pred.entry(self.entries[k])
            if out_text(ev) != got:
                raise Unsupported("probe text")
            return
        raise Mismatch("state-after-failure",
                       {"entry": src, "printed": printed, "probe": got,
                        "allowed": tried[:4], "candidates": len(tried)})


def probe_entry(names):
    return [["ls", [["v", n] for n in names]]]
