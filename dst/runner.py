"""Check driver.

  python3 -m dst.runner check <ID>          quick or thorough by VERIF_TIER
  python3 -m dst.runner replay <file>       reproduce a recorded violation
  python3 -m dst.runner worker <ID> ...     (internal)

A check is split into SHARDS shards, each a worker interpreter with its own
PYTHONHASHSEED; case i belongs to shard i mod SHARDS and is generated from
(VERIF_SEED, property, i) alone, so neither the number of cores nor timing
influences what is executed in the quick tier.
"""

import hashlib
import importlib
import json
import os
import resource
import random
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SHARDS = 8
PY = sys.executable or "python3"


def load_prop(pid):
    mod = importlib.import_module("dst.props." + pid.lower())
    return mod.PROP


class Prop:
    """Base class of the per-property checks."""

    id = None
    level = "exploration"
    quick_cases = 800
    rule = ""
    assumptions = []
    real_components = ("pip.py, scanning.py, parsing.py, operators.py, "
                       "execution.py, ptypes.py, errors.py, tokens.py: real "
                       "code of /repo's working tree; CPython's io, re, "
                       "argparse and random algorithms: real")
    stub_components = ("stdin/stdout/stderr devices, file system behind "
                       "open(), OS entropy, clock, Ctrl-C and memory "
                       "exhaustion (raised at simulated steps): simulated")

    def gen(self, rng, i):
        raise NotImplementedError

    def check(self, case, ctx):
        """Returns None or {"class":.., "detail":..}; counts via ctx."""
        raise NotImplementedError

    def shrink(self, case):
        return ()

    def size(self, case):
        return len(json.dumps(case))


class Ctx:
    """Per-worker context: the simulator plus coverage counters."""

    def __init__(self, sim, prop):
        self.sim = sim
        self.prop = prop
        self.runs = 0
        self.cases = 0
        self.sim_us = 0
        self.steps = 0
        self.faults = {}
        self.nontrivial = set()
        self.traces = set()
        self.lines = set()
        self.probes = {}
        self.skipped = 0
        self.samples = []
        self.log_digest = hashlib.sha256()
        self.digesting = False

    def run(self, proc, spec, trace=False):
        r = proc.run(spec, trace)
        self.runs += 1
        self.sim_us += r.sim_us
        self.steps += r.steps
        for k, v in r.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for f in r.fired:
            self.lines.add((f[2], f[3]))
        if r.status == "hang":
            raise HangViolation(spec)
        h = hashlib.sha1(repr((r.effects(), r.status)).encode()).digest()[:8]
        self.traces.add(h)
        if self.digesting:
            self.log_digest.update(repr(
                (r.log, r.status, r.exc, r.out, r.err, r.steps, r.sim_us,
                 sorted(r.faults.items()), r.fired)).encode())
        return r

    def one(self, spec, entropy=0, adv=None, trace=False):
        return self.run(self.sim.process(entropy, adv), spec, trace)

    _peer = None

    def peer(self, specs, entropy=0, adv=None):
        """The same runs in a process with another hash seed."""
        if Ctx._peer is None:
            from .peer import Peer
            hs = int(os.environ.get("PYTHONHASHSEED", "0") or 0)
            Ctx._peer = Peer((hs * 7 + 12345) % 2 ** 31)
        res = Ctx._peer.runs(specs, entropy, adv)
        self.runs += len(res)
        self.probe("runs under a second hash seed", len(res))
        return res

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def nontriv(self, key):
        if not isinstance(key, bytes):
            key = hashlib.sha1(repr(key).encode()).digest()[:8]
        self.nontrivial.add(key)


class HangViolation(Exception):
    def __init__(self, spec):
        self.spec = spec


def evaluate(prop, case, ctx):
    """check() with simulator hangs turned into a violation class."""
    try:
        return prop.check(case, ctx)
    except HangViolation as e:
        return {"class": "no-progress",
                "detail": "the interpreter made no simulated step for "
                          f"{ctx.sim.hang_s} s of CPU time on "
                          + json.dumps(e.spec)[:500]}
    except (IndexError, KeyError, ValueError, TypeError, AttributeError):
        # The record of a run has a form that no run of the unchanged tree
        # has (an expected prompt, marker or entry is missing altogether).
        return {"class": "malformed-run",
                "detail": traceback.format_exc()[-1500:]}


def case_rng(seed, pid, i):
    return random.Random(f"{seed}/{pid}/{i}")


# --------------------------------------------------------------------- worker

def worker(argv):
    pid, seed, shard, n, limit_s, outfile = argv[:6]
    digest = len(argv) > 6 and argv[6] == "digest"
    start_i = int(argv[7]) if len(argv) > 7 else 0
    seed, shard, n, limit_s = int(seed), int(shard), int(n), float(limit_s)
    from . import core
    # a runaway program must not take the machine down
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    prop = load_prop(pid)
    sim = core.Sim()
    ctx = Ctx(sim, prop)
    ctx.digesting = digest
    t0 = time.monotonic()
    found = []
    classes = set()
    i = shard + start_i
    last_i = i
    case_digests = []
    while i < n:
        rng = case_rng(seed, pid, i)
        case = prop.gen(rng, i)
        # A case must be exactly what its JSON says.
        case = json.loads(json.dumps(case))
        ctx.cases += 1
        v = evaluate(prop, case, ctx)
        if digest:
            case_digests.append((i, ctx.log_digest.hexdigest()[:16],
                                 repr(v)[:200]))
            ctx.log_digest = hashlib.sha256()
        if len(ctx.samples) < 2 and ctx.cases in (1, 7):
            ctx.samples.append(case)
        if v is not None:
            cls = v["class"]
            if cls not in classes or len(found) < 4:
                classes.add(cls)
                found.append((prop.size(case), i, case, v))
            if len(found) >= 6:
                break
        last_i = i
        i += SHARDS
        if limit_s and time.monotonic() - t0 > limit_s:
            break
    found.sort(key=lambda f: f[0])
    out = {"cases": ctx.cases, "runs": ctx.runs, "sim_us": ctx.sim_us,
           "steps": ctx.steps, "faults": ctx.faults,
           "nontrivial": [h.hex() for h in ctx.nontrivial],
           "traces": [h.hex() for h in ctx.traces],
           "lines": sorted(map(list, ctx.lines)),
           "probes": ctx.probes, "skipped": ctx.skipped,
           "samples": ctx.samples, "wall": time.monotonic() - t0,
           "last_i": last_i, "hashseed": os.environ.get("PYTHONHASHSEED"),
           "found": [{"i": f[1], "case": f[2], "v": f[3]} for f in found],
           "digests": case_digests}
    with open(outfile, "w") as f:
        json.dump(out, f)


def minimise(argv):
    """Shrink one failing case within a time limit (internal)."""
    pid, infile, outfile, limit_s = argv
    from . import core
    prop = load_prop(pid)
    with open(infile) as f:
        data = json.load(f)
    sim = core.Sim()
    case, v = data["case"], data["v"]
    t0 = time.monotonic()
    ctx = Ctx(sim, prop)
    # Re-establish in this process first.
    v0 = evaluate(prop, case, ctx)
    if v0 is None:
        out = {"ok": False, "case": case, "v": v}
    else:
        v = v0
        tries = 0
        improved = True
        while improved and time.monotonic() - t0 < float(limit_s):
            improved = False
            for cand in prop.shrink(case):
                if time.monotonic() - t0 > float(limit_s):
                    break
                cand = json.loads(json.dumps(cand))
                if cand == case:
                    continue
                tries += 1
                try:
                    vc = evaluate(prop, cand, Ctx(sim, prop))
                except core.HarnessError:
                    continue
                except Exception:
                    continue
                if vc is not None and vc["class"] == v["class"]:
                    case, v = cand, vc
                    improved = True
                    break
        # The verdict of the final case, once more, with the schedule that
        # was found written out.
        v2 = evaluate(prop, case, Ctx(sim, prop))
        fz = v2 and v2.get("frozen")
        if fz:
            fz = json.loads(json.dumps(fz))
            v3 = evaluate(prop, fz, Ctx(sim, prop))
            if v3 is not None and v3["class"] == v2["class"]:
                case, v2 = fz, v3
        out = {"ok": v2 is not None and v2["class"] == v["class"],
               "case": case, "v": v2 or v, "tries": tries}
    out["v"].pop("frozen", None)
    with open(outfile, "w") as f:
        json.dump(out, f)


def replay(argv):
    """Reproduce a replay file: exit 1 and the violation, or exit 0."""
    path = argv[0]
    with open(path) as f:
        data = json.load(f)
    hs = str(data.get("hashseed", "0"))
    if os.environ.get("PYTHONHASHSEED") != hs:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        os.execve(PY, [PY, "-B", "-m", "dst.runner", "replay",
                       os.path.abspath(path)], env)
    from . import core
    prop = load_prop(data["property"])
    sim = core.Sim()
    v = evaluate(prop, data["case"], Ctx(sim, prop))
    if v is None:
        print("no violation")
        return 0
    v.pop("frozen", None)
    print(json.dumps(v, indent=1))
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1


# ----------------------------------------------------------------------- main

def env_for(hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["COLUMNS"] = "80"
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONUTF8", "PYTHONWARNINGS"):
        env.pop(k, None)
    env["PYTHONUTF8"] = "1"
    return env


def shard_hashseed(seed, shard):
    return random.Random(f"hash/{seed}/{shard}").randrange(1, 2 ** 31)


def load_known():
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def check(argv):
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    print(f"check {pid} tier={tier} VERIF_SEED={seed}", flush=True)
    t0 = time.monotonic()
    prop = load_prop(pid)
    work = tempfile.mkdtemp(prefix="dst-" + pid + "-")
    try:
        return _check(prop, pid, tier, seed, work, t0)
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, pid, tier, seed, work, t0):
    if tier == "thorough":
        n, limit = 10 ** 9, float(os.environ.get("DST_THOROUGH_S", "600"))
    else:
        # a count, for the same cases everywhere; the time only matters on
        # a machine far slower than this one
        n, limit = prop.quick_cases, 480
    procs = []
    for s in range(SHARDS):
        out = os.path.join(work, f"out{s}.json")
        hs = shard_hashseed(seed, s)
        p = subprocess.Popen(
            [PY, "-B", "-m", "dst.runner", "worker", pid, str(seed), str(s),
             str(n), str(limit), out],
            cwd=ROOT, env=env_for(hs), stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        procs.append((s, p, out, hs))
    budget = (limit + 240) if limit else 700
    results = []
    failed = None
    for s, p, out, hs in procs:
        left = max(1, budget - (time.monotonic() - t0))
        try:
            txt, _ = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            failed = f"worker {s} exceeded its wall-clock budget"
            continue
        if p.returncode != 0 or not os.path.exists(out):
            failed = (f"worker {s} ended with {p.returncode}:\n"
                      + txt.decode("utf-8", "replace")[-4000:])
            continue
        with open(out) as f:
            r = json.load(f)
        r["hs"] = hs
        results.append(r)
    violations = []
    for r in results:
        for f in r["found"]:
            violations.append((prop.size(f["case"]), f, r["hs"]))
    violations.sort(key=lambda v: v[0])
    reported = []
    known_hit = []
    seen = set()
    for _, f, hs in violations:
        cls = f["v"]["class"]
        if cls in seen:
            continue
        if len(reported) >= 3:
            break
        k = match_known(pid, f)
        if k:
            known_hit.append(k)
            continue
        seen.add(cls)
        path = report(prop, pid, f, hs, seed, work)
        if path is None:
            failed = (f"violation of class {cls} (case {f['i']}) did not "
                      "replay in a fresh process")
            print("NOT REPRODUCED:", json.dumps(f)[:3000])
            continue
        reported.append(path)
    wall = time.monotonic() - t0
    write_evidence(prop, pid, tier, seed, results, wall, len(reported))
    for k in sorted({json.dumps(k) for k in known_hit}):
        print(f"KNOWN-FINDING: property={pid} {json.loads(k)['what']}")
    if reported:
        for path in reported:
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if failed:
        print("HARNESS ERROR:", failed)
        return 2
    cases = sum(r["cases"] for r in results)
    runs = sum(r["runs"] for r in results)
    print(f"ok: {cases} cases, {runs} simulated runs, {wall:.1f} s")
    return 0


def match_known(pid, f):
    for k in load_known():
        if k.get("property") == pid and k.get("status") != "fixed" \
                and k.get("match") and k["match"] in json.dumps(f["v"]):
            return k
    return None


def report(prop, pid, f, hs, seed, work):
    """Minimise, write the replay file, confirm it in a fresh process."""
    src = os.path.join(work, "min-in.json")
    dst = os.path.join(work, "min-out.json")
    with open(src, "w") as fh:
        json.dump(f, fh)
    if os.path.exists(dst):
        os.unlink(dst)
    case, v = f["case"], f["v"]
    try:
        subprocess.run([PY, "-B", "-m", "dst.runner", "minimise", pid, src,
                        dst, "25"], cwd=ROOT, env=env_for(hs), timeout=120,
                       stdin=subprocess.DEVNULL, capture_output=True)
        with open(dst) as fh:
            m = json.load(fh)
        if m["ok"]:
            case, v = m["case"], m["v"]
    except (subprocess.TimeoutExpired, OSError, ValueError):
        pass
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    for c, vv in ((case, v), (f["case"], f["v"])):
        h = hashlib.sha1(json.dumps(c, sort_keys=True).encode()) \
            .hexdigest()[:10]
        path = os.path.join(rdir, f"{pid}-{seed}-{f['i']}-{h}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "seed": seed, "index": f["i"],
                       "hashseed": hs, "violation": vv, "case": c}, fh,
                      indent=1)
        try:
            p = subprocess.run([PY, "-B", "-m", "dst.runner", "replay", path],
                               cwd=ROOT, env=env_for(hs), timeout=120,
                               stdin=subprocess.DEVNULL, capture_output=True)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 1 and b"VIOLATION" in p.stdout:
            print(json.dumps(vv)[:3000])
            print("minimised case:", json.dumps(c)[:3000])
            return path
        os.unlink(path)
    return None


def write_evidence(prop, pid, tier, seed, results, wall, nviol):
    faults, probes = {}, {}
    nontriv, traces, lines = set(), set(), set()
    samples = []
    for r in results:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        nontriv.update(r["nontrivial"])
        traces.update(r["traces"])
        lines.update(tuple(x) for x in r["lines"])
        if len(samples) < 3:
            samples.extend(r["samples"][:1])
    cases = sum(r["cases"] for r in results)
    runs = sum(r["runs"] for r in results)
    sim_us = sum(r["sim_us"] for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(nontriv),
            "rule": prop.rule,
            "samples": samples,
            "simulated_runs": runs,
            "simulated_runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(cases / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(sim_us / 1e6, 3),
            "executed_steps": sum(r["steps"] for r in results),
            "faults_fired": dict(sorted(faults.items())),
            "distinct_effect_histories": len(traces),
            "distinct_injection_lines": len(lines),
            "probes": dict(sorted(probes.items())),
            "skipped_cases": sum(r["skipped"] for r in results),
            "hash_seeds": sorted(int(r["hs"]) for r in results),
            "components_real": prop.real_components,
            "components_simulated": prop.stub_components,
        },
        "assumptions": list(prop.assumptions),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)


def main():
    cmd, argv = sys.argv[1], sys.argv[2:]
    if cmd == "check":
        return check(argv)
    if cmd == "worker":
        worker(argv)
        return 0
    if cmd == "minimise":
        minimise(argv)
        return 0
    if cmd == "replay":
        return replay(argv)
    raise SystemExit("usage: dst.runner check|replay")


if __name__ == "__main__":
    sys.exit(main())
