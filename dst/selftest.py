"""Self-tests of the machinery.

  python3 -m dst.selftest quick     the simulator loads and repeats itself
  python3 -m dst.selftest digests [SEEDS [CASES]]
                                    every check's event logs are identical
                                    when run again, in other process layouts
  python3 -m dst.selftest real [N]  simulated runs against real processes
"""

import hashlib
import json
import os
import subprocess
import sys
import tempfile

from . import core, util


def quick():
    sim = core.Sim()
    spec = {"argv": ["-e", "Pq;PRR100;P[SH,9;r];CS0"],
            "stdin": util.lines_to_items(["hello"])}
    logs = []
    for _ in range(2):
        r = sim.process(7).run(spec)
        logs.append((r.log, r.out, r.err, r.status, r.steps))
    assert logs[0] == logs[1], "a repeated run differs"
    assert logs[0][1].startswith(b"hello\n"), logs[0]
    print("selftest quick: ok")


def digests(seeds=4, cases=40):
    """Each case's event log, run twice in differently laid out workers:
    once as a part of its shard, once started in the middle."""
    from . import runner
    bad = 0
    total = 0
    pdir = os.path.join(runner.HERE, "props")
    pids = sorted(f[:-3].upper() for f in os.listdir(pdir)
                  if f.startswith("c") and f.endswith(".py"))
    with tempfile.TemporaryDirectory() as tmp:
        for pid in pids:
            for seed in range(1, seeds + 1):
                got = []
                for start in (0, 8 * (cases // 16)):
                    out = os.path.join(tmp, "o.json")
                    hs = runner.shard_hashseed(seed, 0)
                    subprocess.run(
                        [runner.PY, "-B", "-m", "dst.runner", "worker", pid,
                         str(seed), "0", str(cases), "0", out, "digest",
                         str(start)],
                        cwd=runner.ROOT, env=runner.env_for(hs), check=True)
                    got.append({d[0]: d[1:] for d in
                                json.load(open(out))["digests"]})
                for i in got[1]:
                    total += 1
                    if got[0][i] != got[1][i]:
                        bad += 1
                        print("DIFFERS", pid, "seed", seed, "case", i,
                              got[0][i], got[1][i])
            print(pid, "done", flush=True)
    print(f"selftest digests: {total} cases compared, {bad} differ")
    return bad


def real(n=200):
    """The same generated programs in a real python3 process: output, status
    and consumed input must agree with the simulated run."""
    import random
    from .gen import G
    sim = core.Sim()
    bad = 0
    for i in range(n):
        rng = random.Random(f"real{i}")
        g = G(rng, effects=.3, depth=3, draws=False)
        src = ";".join(g.program())
        lines = ["l1", "22", "a b", "x", "5"]
        args = rng.choice([[], ["abc"], ["3", "b a"]])
        repl = rng.random() < .3
        if repl:
            argv = ["-R"]
            data = "\n".join(src.split(";")) + "\n"
        else:
            argv = rng.choice([[], ["-w"], ["-r"]]) + ["-e", src, "--"] + args
            data = "\n".join(lines) + "\n"
        s = sim.process(3).run({"argv": argv, "max_steps": 60000,
                                "stdin": [["d", util.b2s(data)]]})
        if s.status in ("steplimit", "deadlock", "hang"):
            continue
        p = subprocess.run(
            [sys.executable, "-B", os.path.join(core.REPO, "pip.py")] + argv,
            input=data.encode(), capture_output=True, timeout=60,
            env=dict(os.environ, PYTHONUTF8="1"))
        if p.stdout != s.out or p.returncode != s.status:
            if b"recursion" in p.stderr or b"recursion" in s.err:
                continue
            bad += 1
            print("DIFFERS", i, argv, p.returncode, s.status,
                  p.stdout[-200:], s.out[-200:], p.stderr[-200:])
    print(f"selftest real: {n} programs, {bad} differ")
    return bad


if __name__ == "__main__":
    what = sys.argv[1] if len(sys.argv) > 1 else "quick"
    rest = [int(x) for x in sys.argv[2:]]
    sys.exit(1 if {"quick": quick, "digests": digests,
                   "real": real}[what](*rest) else 0)
