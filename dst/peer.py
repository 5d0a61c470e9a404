"""A second interpreter process with another Python hash seed.

Simulated runs are sent to it as data and their histories come back, so that
the same runs can be compared under two hash seeds.
"""

import json
import os
import subprocess
import sys

PY = sys.executable or "python3"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def encode(r):
    return {"status": r.status, "exc": r.exc, "err": r.errtext()[-2000:],
            "effects": [list(e) for e in r.effects()],
            "out": r.out.decode("latin-1"), "fired": len(r.fired),
            "unread": r.unread, "steps": r.steps}


class Peer:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([PY, "-B", "-m", "dst.peer"], cwd=ROOT,
                                  env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE)

    def runs(self, specs, entropy=0, adv=None):
        msg = json.dumps({"specs": specs, "entropy": entropy, "adv": adv})
        self.p.stdin.write(msg.encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("peer process ended")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait(10)


def serve():
    from . import core
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    sim = core.Sim()
    for line in inp:
        msg = json.loads(line)
        proc = sim.process(msg["entropy"], msg["adv"])
        res = [encode(proc.run(s)) for s in msg["specs"]]
        out.write(json.dumps(res).encode() + b"\n")
        out.flush()


if __name__ == "__main__":
    serve()
