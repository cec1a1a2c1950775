#!/opt/venv/bin/python
"""Same seed, same history: determinism.py C01 N [BASE]

Each scenario is executed three times (twice in one OS process, in which other scenarios
are executed in between, once in another OS process); the histories are compared event by
event.
"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
from simfi import boot
boot.prepare()
from simfi import engine, probe, runner, seams, world
seams.install(); seams.install_deepcopy(); probe.install()
check = runner.load_check(sys.argv[1])
n = int(sys.argv[2]); base = int(sys.argv[3]) if len(sys.argv) > 3 else 5_000_000
kept = {}
old = engine.Run.__exit__
def ex(self, *a):
    kept["ev"] = [repr(e) for e in self.kernel.events]
    return old(self, *a)
engine.Run.__exit__ = ex
def one(seed):
    kept["ev"] = []
    sc = runner.scenario_of(check, seed, "quick")
    out = runner.run_one(check, sc)
    return out.get("hash"), kept["ev"], sc, out
def sweep(order):
    ret = {}
    for i in order:
        ret[i] = one(base + i)
    return ret
def in_child(order):
    r, w = os.pipe()
    pid = seams.real.os_fork()
    if pid == 0:
        os.close(r)
        ret = {i: v[:2] for i, v in sweep(order).items()}
        with os.fdopen(w, "w") as f:
            json.dump(ret, f)
        world.remove_scratch_base()
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return {int(k): v for k, v in json.loads(data).items()}
devnull = os.open(os.devnull, os.O_WRONLY)
save = os.dup(1); os.dup2(devnull, 2)
a = in_child(range(n)); b = in_child(reversed(range(n)))
bad = 0
for i in range(n):
    if a[i][0] != b[i][0]:
        bad += 1
        if bad <= 5:
            print("DIFFERENT", base + i, runner.scenario_of(check, base + i, "quick"))
            for j, (x, y) in enumerate(zip(a[i][1], b[i][1])):
                if x != y:
                    print("  event", j, "\n   ", x[:300], "\n   ", y[:300]); break
            else:
                print("  same events, lengths", len(a[i][1]), len(b[i][1]))
print(sys.argv[1], n, "seeds,", bad, "not deterministic")
os._exit(1 if bad else 0)
