#!/opt/venv/bin/python
"""Debugging: run one seed in this process: one.py C01 SEED [tier]"""
import faulthandler, json, os, signal, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
faulthandler.register(signal.SIGUSR1, all_threads=True)
sys.path.insert(0, HERE)
from simfi import boot
boot.prepare()
from simfi import probe, runner, seams
seams.install(); seams.install_deepcopy(); probe.install()
check = runner.load_check(sys.argv[1])
if os.path.exists(sys.argv[2]):
    data = json.load(open(sys.argv[2]))
    sc = data["scenario"]; replay = {int(k): v for k, v in data["decisions"].items()} or None  # (no decisions: seeded)
else:
    sc = runner.scenario_of(check, int(sys.argv[2]), "quick"); replay = None
print(json.dumps(sc))
from simfi import engine
old = engine.Run.__exit__
def ex(self, *a):
    k = self.kernel
    n = int(os.environ.get("EV", "40"))
    for e in k.events[-n:]:
        print(e)
    for ph in self.phases:
        print(ph.name, ph.describe(), ph.node.error_text[-3000:])
    for nd in k.nodes:
        print(nd, nd.pid, nd.exitcode, "STDERR", nd.stderr.getvalue()[-1500:], "STDOUT" , nd.stdout.getvalue()[-1500:] if os.environ.get("OUT") else "")
    if os.environ.get("TREE"):
        for p in sorted(self.root.rglob("*")): print(p.relative_to(self.root), p.stat().st_size if p.is_file() else "")
    if os.environ.get("CAT"):
        for p in sorted(self.root.rglob(os.environ["CAT"])): print("=====", p); print(p.read_text())
    if os.environ.get("PROF"):
        import collections
        print(collections.Counter((e[1], e[2]) for e in k.events).most_common(30))
    return old(self, *a)
engine.Run.__exit__ = ex
t = time.time()
out = runner.run_one(check, sc, replay)
print({k: v for k, v in out.items() if k not in ("nonzero", "scenario")})
print("time", time.time() - t)
os._exit(0)
