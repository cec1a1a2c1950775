"""Runs a check: many seeds over several processes, minimisation, replays, evidence"""

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import select
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPLAYS = VERIF / "replays"
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"
WATCHDOG = 100.0  # seconds of real time without an answer of a worker
RECYCLE_RUNS = 150
RECYCLE_LEAKED = 400


def load_check(check_id):
    return importlib.import_module(f"checks.{check_id.lower()}")


def known_findings(check_id):
    if not KNOWN.exists():
        return []
    data = json.loads(KNOWN.read_text())
    return [f for f in data["findings"] if f["property"] == check_id]


def matches_known(finding, violation, sc):
    """A finding is identified by its signature and the conditions of the scenario"""
    m = finding["match"]
    if violation["sig"] != m["sig"]:
        return False
    text = m.get("message_contains")
    if text and text not in violation["message"]:
        return False
    for path, allowed in m.get("scenario", {}).items():
        value = sc
        for part in path.split("."):
            value = value.get(part) if isinstance(value, dict) else None
        if isinstance(allowed, list):
            if value not in allowed:
                return False
        elif value != allowed:
            return False
    return True


# ---------------------------------------------------------------- one run


def scenario_of(check, seed, tier):
    rng = random.Random(f"{check.ID}-{seed}")
    sc = check.generate(rng, seed, tier)
    sc["seed"] = seed
    return sc


WARM = False


def warm_up():
    """What is done only once per OS process (caches...) is done before the runs"""
    global WARM
    if WARM:
        return
    WARM = True
    from . import engine

    for i, (kind, executor) in enumerate(
        [
            ("im2im", "multi_exec_async"), ("lite", "exec_async_multi"),
            ("piv", "exec_sequential"), ("bos", "exec_async"),
            ("preproc", "multi_exec_subproc_sync"), ("mean", "exec_async_sequential"),
            ("im2im", "exec_async_servers"),
        ]
    ):
        spec = {"kind": kind, "seed": 0, "n": 2}
        sc = {
            "case": spec, "executor": executor, "nb_max_workers": 1, "seed": i,
            "config": {"p_slow_start": 0.0}, "max_steps": 20_000,
        }
        try:
            with engine.Run(sc) as run:
                run.compute()
                run.finish()
        except Exception:
            pass


def run_one(check, sc, replay=None):
    """Execute a scenario; everything in a JSON dictionary"""
    from .kernel import HarnessError

    warm_up()
    t = time.time()
    out = {"seed": sc["seed"], "scenario": sc}
    try:
        run = check.execute(sc, replay)
    except HarnessError as error:
        out["harness"] = str(error)[-3000:]
        return out
    out.update(
        violations=[v.as_dict() for v in run.violations],
        hash=run.hash,
        interleaving=run.interleaving,
        nonzero={str(k): v for k, v in run.nonzero.items()},
        ndecisions=run.ndecisions,
        virtual=run.virtual,
        steps=run.steps,
        nodes=run.nodes,
        stats=run.stats,
        fired=run.fired,
        tags=getattr(run, "tags", {}),
        leaked=run.leaked,
        real=time.time() - t,
    )
    if run.harness_errors:
        out["harness"] = "\n".join(run.harness_errors)[-3000:]
    return out


# ---------------------------------------------------------------- workers


def worker_main(check, tasks, results):
    """Loop of a worker: read a JSON line (seed or scenario), answer a JSON line"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SIMFI_DEBUG"):
        os.dup2(devnull, 2)
    else:
        import faulthandler

        faulthandler.register(signal.SIGUSR1, all_threads=True)
    from . import world

    fin = os.fdopen(tasks, "r")
    fout = os.fdopen(results, "w")
    nruns = leaked = 0
    for line in fin:
        task = json.loads(line)
        if task is None:
            break
        try:
            if "seed" in task:
                sc = scenario_of(check, task["seed"], task["tier"])
                replay = None
            else:
                sc = task["scenario"]
                replay = task.get("nonzero")
                if replay is not None:
                    replay = {int(k): v for k, v in replay.items()}
            out = run_one(check, sc, replay)
        except BaseException as error:
            out = {
                "seed": task.get("seed"),
                "scenario": task.get("scenario"),
                "harness": "".join(traceback.format_exception(error))[-3000:],
            }
        nruns += 1
        leaked += out.get("leaked", 0)
        bye = nruns >= RECYCLE_RUNS or leaked >= RECYCLE_LEAKED
        out["bye"] = bye
        fout.write(json.dumps(out) + "\n")
        fout.flush()
        if bye:
            break
    world.remove_scratch_base()
    os._exit(0)


class Worker:
    def __init__(self, check, others=()):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        from . import seams

        fork = getattr(seams.real, "os_fork", os.fork)
        pid = fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for other in others:
                os.close(other.w)
                os.close(other.r)
            try:
                worker_main(check, r1, w2)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.w = w1
        self.r = r2
        self.buffer = b""
        self.task = None
        self.since = None

    def send(self, task):
        self.task = task
        self.since = time.time()
        os.write(self.w, (json.dumps(task) + "\n").encode())

    def receive(self):
        """One answer, or None if not complete, or False if the worker died"""
        data = os.read(self.r, 1 << 20)
        if not data:
            return False
        self.buffer += data
        if b"\n" in self.buffer:
            line, self.buffer = self.buffer.split(b"\n", 1)
            self.task = None
            return json.loads(line)
        return None

    def close(self, kill=False):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        if kill:
            try:
                os.kill(self.pid, 9)
            except ProcessLookupError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        if kill:
            remove_scratch_of(self.pid)


def remove_scratch_of(pid):
    """Nothing stays on /dev/shm after a worker was killed"""
    import shutil

    from . import world

    shutil.rmtree(world.scratch_path(pid), ignore_errors=True)


class Pool:
    def __init__(self, check, nproc):
        self.check = check
        self.nproc = nproc
        self.workers = []
        self.scratch = None

    def map(self, tasks, on_result, deadline=None):
        """tasks: iterator; on_result(task, out) -> False to stop feeding"""
        tasks = iter(tasks)
        feeding = True
        pending = 0
        while True:
            # feed
            while feeding and len([w for w in self.workers if w.task is None]) + (
                self.nproc - len(self.workers)
            ) > 0:
                if deadline is not None and time.time() > deadline:
                    feeding = False
                    break
                try:
                    task = next(tasks)
                except StopIteration:
                    feeding = False
                    break
                idle = [w for w in self.workers if w.task is None]
                if idle:
                    w = idle[0]
                else:
                    w = Worker(self.check, self.workers)
                    self.workers.append(w)
                w.send(task)
                pending += 1
            if not pending:
                return
            busy = [w for w in self.workers if w.task is not None]
            ready, _, _ = select.select([w.r for w in busy], [], [], 1.0)
            for w in busy:
                if w.r in ready:
                    task = w.task
                    out = w.receive()
                    if out is None:
                        continue
                    pending -= 1
                    if out is False:
                        w.close(kill=True)
                        self.workers.remove(w)
                        out = {"harness": "the worker died", "died": True,
                               "seed": task.get("seed"),
                               "scenario": task.get("scenario")}
                    elif out.get("bye"):
                        w.close()
                        self.workers.remove(w)
                    if on_result(task, out) is False:
                        feeding = False
                elif time.time() - w.since > WATCHDOG:
                    task = w.task
                    pending -= 1
                    w.close(kill=True)
                    self.workers.remove(w)
                    out = {"harness": "no answer: worker killed", "stuck": True,
                           "seed": task.get("seed"),
                           "scenario": task.get("scenario")}
                    if on_result(task, out) is False:
                        feeding = False

    def close(self):
        for w in self.workers:
            w.close(kill=w.task is not None)
        self.workers = []


# ---------------------------------------------------------------- minimisation


def exec_tasks(pool, tasks):
    outs = [None] * len(tasks)

    def on_result(task, out):
        outs[task["i"]] = out

    pool.map([dict(t, i=i) for i, t in enumerate(tasks)], on_result)
    return outs


def has_sig(out, sig):
    return any(v["sig"] == sig for v in out.get("violations", ()))


def shrink(pool, check, out, sig, budget=40.0):
    """Smaller scenario and fewer non-default decisions with the same violation"""
    t_end = time.time() + budget
    best = out
    n_exec = 0

    def try_many(cands):
        nonlocal best, n_exec
        outs = exec_tasks(pool, cands)
        n_exec += len(cands)
        for o in outs:
            if o and has_sig(o, sig):
                best = o
                return True
        return False

    # 1. scenario
    progress = True
    while progress and time.time() < t_end:
        progress = False
        cands = []
        for sc in simpler_scenarios(check, best["scenario"]):
            cands.append({"scenario": sc, "nonzero": best["nonzero"]})
            cands.append({"scenario": sc})
        for start in range(0, len(cands), pool.nproc):
            if time.time() > t_end:
                break
            if try_many(cands[start:start + pool.nproc]):
                progress = True
                break
    # 2. decisions: ddmin
    if time.time() < t_end:
        try_many([{"scenario": best["scenario"], "nonzero": {}}])
    keys = sorted(best["nonzero"], key=int)
    n = 2
    while len(keys) >= 1 and time.time() < t_end:
        size = max(1, len(keys) // n)
        chunks = [keys[i:i + size] for i in range(0, len(keys), size)]
        cands = []
        for chunk in chunks:
            rest = {k: best["nonzero"][k] for k in keys if k not in set(chunk)}
            cands.append({"scenario": best["scenario"], "nonzero": rest})
        found = False
        for start in range(0, len(cands), pool.nproc):
            if time.time() > t_end:
                break
            if try_many(cands[start:start + pool.nproc]):
                found = True
                break
        if found:
            keys = sorted(best["nonzero"], key=int)
            n = max(2, n - 1)
        else:
            if size == 1:
                break
            n = min(len(keys), 2 * n)
    return best, n_exec


def simpler_scenarios(check, sc):
    """Candidates: one simplification each"""
    import copy

    def variant(fn):
        new = copy.deepcopy(sc)
        try:
            if fn(new) is False:
                return None
        except (KeyError, TypeError, IndexError):
            return None
        if new == sc:
            return None
        return new

    out = []
    for key in ("faults", "fail"):
        for i in range(len(sc.get(key) or ())):
            out.append(variant(lambda s: s[key].pop(i)))

    def set_(path, value):
        def fn(s):
            for p in path[:-1]:
                s = s[p]
            if path[-1] not in s or s[path[-1]] == value:
                return False
            s[path[-1]] = value
        return fn

    out.append(variant(set_(("config", "preempt"), 0)))
    out.append(variant(set_(("config", "hot"), 0)))
    out.append(variant(set_(("config", "clock_jumps"), [])))
    out.append(variant(set_(("config", "p_slow_start"), 0.0)))
    out.append(variant(set_(("config", "shuffle_dirs"), False)))
    out.append(variant(set_(("nb_max_workers",), 1)))
    if sc.get("nb_max_workers", 0) > 2:
        out.append(variant(set_(("nb_max_workers",), 2)))
    out.append(variant(lambda s: s.pop("kwargs_executor")))
    case = sc.get("case") or {}
    if case.get("n", 0) > 2 and "ind_stop" not in case and "subset" not in case:
        out.append(variant(set_(("case", "n"), case["n"] - 1)))
        out.append(variant(set_(("case", "n"), 2)))
    for key in ("preproc", "tps", "d", "ind_step", "ind_start", "first"):
        if key in case:
            out.append(variant(lambda s: s["case"].pop(key)))
    extra = getattr(check, "simpler", None)
    if extra is not None:
        out.extend(extra(sc))
    ok = []
    valid = getattr(check, "valid", None)
    for s in out:
        if s is not None and (valid is None or valid(s)):
            ok.append(s)
    return ok


# ---------------------------------------------------------------- main


def write_replay(check, out, sig, note):
    REPLAYS.mkdir(exist_ok=True)
    v = [v for v in out["violations"] if v["sig"] == sig][0]
    name = f"{check.ID}-seed{out['seed']}-{sig[:60].replace('/', '_').replace(' ', '_')}.json"
    path = REPLAYS / name
    data = {
        "property": check.ID,
        "title": check.TITLE,
        "violation": v,
        "all_violations": out["violations"],
        "seed": out["seed"],
        "scenario": out["scenario"],
        "decisions": out["nonzero"],
        "faults_fired": out["fired"],
        "history_hash": out["hash"],
        "virtual_seconds": out["virtual"],
        "steps": out["steps"],
        "note": note,
        "how_to_replay": f"PYTHONHASHSEED=0 /opt/venv/bin/python /verif/check.py "
                         f"{check.ID} --replay {path}",
    }
    path.write_text(json.dumps(data, indent=1))
    return path


class Stats:
    def __init__(self):
        self.runs = 0
        self.harness = []
        self.virtual = 0.0
        self.steps = 0
        self.decisions = 0
        self.hashes = set()
        self.interleavings = set()
        self.faults = {}
        self.tags = {}
        self.nodes = 0
        self.real = 0.0
        self.nonzero = 0
        self.stuck = []
        self.slowest = (0, None)
        self.nontrivial = set()
        self.samples = []

    def add(self, out):
        self.runs += 1
        if "harness" in out:
            self.harness.append((out.get("seed"), out["harness"]))
            if out.get("stuck"):
                self.stuck.append(out.get("seed"))
            return
        self.virtual += out["virtual"]
        self.steps += out["steps"]
        self.decisions += out["ndecisions"]
        self.nonzero += len(out["nonzero"])
        self.hashes.add(out["hash"])
        self.interleavings.add(out["interleaving"])
        if out["steps"] >= 20 and (out["nonzero"] or out["fired"]):
            self.nontrivial.add(out["hash"])
            if len(self.samples) < 4:
                self.samples.append({
                    "scenario": out["scenario"],
                    "steps": out["steps"],
                    "non_default_decisions": len(out["nonzero"]),
                    "simulated_seconds": round(out["virtual"], 3),
                    "faults_fired": out["fired"][:5],
                    "history": out["hash"],
                })
        self.nodes += out["nodes"]
        self.real += out["real"]
        if out["real"] > self.slowest[0]:
            self.slowest = (out["real"], out["seed"])
        for key, n in out["stats"].items():
            if key.startswith("fault:"):
                self.faults[key[6:]] = self.faults.get(key[6:], 0) + n
        for key, n in (out.get("tags") or {}).items():
            self.tags[key] = self.tags.get(key, 0) + n


def main_check(check_id, tier, n_runs=None, seconds=None, nproc=None, base=None,
               verbose=False):
    t0 = time.time()
    check = load_check(check_id)
    nproc = nproc or int(os.environ.get("SIMFI_PROCS", os.cpu_count() or 1))
    if base is None:
        base = int(os.environ.get("VERIF_SEED", "1") or 1) * 1_000_000
    plan = check.BUDGET[tier]
    n_runs = n_runs or plan["runs"]
    seconds = seconds or plan["seconds"]
    pool = Pool(check, nproc)
    stats = Stats()
    findings = known_findings(check_id)
    known_seen = {}
    bad = []
    known_lines = []

    def note_violations(task, out):
        new = []
        for v in out.get("violations", ()):
            for f in findings:
                if matches_known(f, v, out["scenario"]):
                    known_seen[f["id"]] = known_seen.get(f["id"], 0) + 1
                    break
            else:
                new.append(v)
        if new:
            bad.append((out["seed"] if out["seed"] is not None else -1, new, out))
            return False
        return True

    def on_result(task, out):
        stats.add(out)
        if verbose and "harness" in out:
            print("HARNESS", out.get("seed"), out["harness"][-1500:])
        elif verbose:
            sc = out["scenario"]
            print(out["seed"], sc.get("executor"), sc.get("case"),
                  f"{out['real']:.2f} s, {out['steps']} steps, "
                  f"{out['virtual']:.1f} virtual", out["violations"], flush=True)
        return note_violations(task, out)

    # 1. the known findings are executed again
    for f in findings:
        if not f.get("replay"):
            continue
        outs = exec_tasks(
            pool, [{"scenario": f["replay"]["scenario"],
                    "nonzero": f["replay"].get("decisions", {})}]
        )
        for out in outs:
            stats.add(out)
            note_violations(None, out)
    # 2. the directed scenarios of the check
    directed = list(check.directed(tier)) if hasattr(check, "directed") else []
    tasks = []
    for i, sc in enumerate(directed):
        sc = dict(sc)
        sc.setdefault("seed", -1 - i)
        tasks.append({"scenario": sc})
    tasks += [{"seed": base + i, "tier": tier} for i in range(n_runs)]
    if not bad:
        pool.map(tasks, on_result, deadline=t0 + seconds)
    # a worker which does not answer: is it reproducible?
    elapsed = time.time() - t0
    code = 0
    lines = []
    for f in findings:
        if f["id"] in known_seen:
            known_lines.append(
                f"KNOWN-FINDING: property={check_id} {f['what']}"
            )
    if bad:
        bad.sort(key=lambda b: (b[0] < 0, b[0]))
        seed, new, out = bad[0]
        sig = new[0]["sig"]
        note = {"original_seed": seed, "original_decisions": len(out["nonzero"])}
        best, n_exec = shrink(pool, check, out, sig, plan.get("shrink", 40.0))
        # exact reproduction
        outs = exec_tasks(
            pool,
            [{"scenario": best["scenario"], "nonzero": best["nonzero"]}] * 2,
        )
        same = all(o.get("hash") == best["hash"] for o in outs)
        note.update(
            minimised_decisions=len(best["nonzero"]), executions=n_exec,
            reproduced_exactly=same,
        )
        path = write_replay(check, best, sig, note)
        v = [v for v in best["violations"] if v["sig"] == sig][0]
        lines.append(f"VIOLATION property={check_id} replay={path}")
        lines.append(f"  {sig}: {v['message']}")
        lines.append(f"  scenario: {json.dumps(best['scenario'])}")
        lines.append(f"  {json.dumps(note)}")
        code = 1
    pool.close()
    cleanup_scratch()
    write_evidence(check, tier, stats, known_seen, len(bad), elapsed,
                   time.time() - t0, len(directed), base, nproc)
    for line in known_lines:
        print(line)
    if stats.harness:
        print(
            f"note: {len(stats.harness)} runs could not be simulated, e.g. seed "
            f"{stats.harness[0][0]}: ...{stats.harness[0][1][-400:]}"
        )
    good = stats.runs - len(stats.harness)
    print(
        f"{check_id}: {good} simulated runs in {elapsed:.1f} s, "
        f"{stats.virtual:.0f} s of simulated time, {len(stats.interleavings)} distinct "
        f"interleavings, faults: {json.dumps(stats.faults)}"
    )
    for line in lines:
        print(line)
    if code == 0 and good < max(1, stats.runs // 2):
        print("ERROR: the simulator could not run the code")
        code = 2
    return code


def cleanup_scratch():
    import shutil
    from . import world

    world.remove_scratch_base()


def write_evidence(check, tier, stats, known_seen, nbad, elapsed, total, ndirected,
                   base, nproc):
    EVIDENCE.mkdir(exist_ok=True)
    good = stats.runs - len(stats.harness)
    hours = max(elapsed, 1e-9) / 3600.0
    data = {
        "property": check.ID,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": check.LEVEL,
        "coverage": {
            "evaluations": good,
            "distinct_nontrivial": len(stats.nontrivial),
            "rule": (
                "one evaluation = one seed = one generated scenario (workload, "
                "executor, scheduler settings, fault plan) executed completely in the "
                "simulator; counted once per distinct history (hash of every event "
                "with its virtual time); non-trivial: at least 20 scheduling steps, "
                "and at least one decision of the seeded scheduler differing from the "
                "default order or one injected fault"
            ),
            "samples": stats.samples,
            "runs_not_simulated": len(stats.harness),
            "first_seed": base,
            "directed_scenarios": ndirected,
            "runs_per_hour": round(good / hours),
            "simulated_seconds": round(stats.virtual, 1),
            "scheduling_steps": stats.steps,
            "decisions": stats.decisions,
            "non_default_decisions": stats.nonzero,
            "distinct_interleavings": len(stats.interleavings),
            "measure_of_interleavings": (
                "hash of the sequence of threads of simulated processes given the "
                "baton over the whole run"
            ),
            "simulated_processes": stats.nodes,
            "faults_injected": dict(sorted(stats.faults.items())),
            "situations": dict(sorted(stats.tags.items())),
            "oracle": check.ORACLE,
            "real_code": getattr(check, "REAL", REAL),
            "stubs": getattr(check, "STUBS", STUBS),
            "known_findings_seen": known_seen,
            "os_processes": nproc,
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", ())) + ASSUMPTIONS,
        "wall_s": round(total, 1),
        "violations": nbad,
    }
    (EVIDENCE / f"{check.ID}.json").write_text(json.dumps(data, indent=1))


ASSUMPTIONS = [
    "a clean batch of seeds is evidence, not a proof: schedules are sampled",
    "threads are preempted at seams (I/O, locks, queues, sleeps, starts) and, in a "
    "third of the runs, between lines of fluidimage code; not inside C code",
    "compiled (pythran) kernels are replaced by their Python originals",
    "a killed process loses its buffered data; completed system calls are durable",
]


REAL = (
    "fluidimage executors, topologies, works, splitters, data objects, logs, monitor, "
    "run_from_xml (pure Python, working tree of /repo); trio; h5py; PIL/OpenCV; "
    "fluiddyn"
)
STUBS = (
    "time, thread scheduling, multiprocessing/subprocess/pipes/signals, file system "
    "operations (on a real scratch directory behind seams), rich progress bar, "
    "compiled (pythran) variants of the kernels"
)


def main_replay(check_id, path):
    check = load_check(check_id)
    data = json.loads(Path(path).read_text())
    replay = {int(k): v for k, v in data["decisions"].items()}
    pool = Pool(check, 1)
    outs = exec_tasks(
        pool, [{"scenario": data["scenario"], "nonzero": data["decisions"]}]
    )
    pool.close()
    out = outs[0]
    if "harness" in out:
        print("could not be simulated:", out["harness"][-2000:])
        return 2
    same = out["hash"] == data["history_hash"]
    print(f"history reproduced exactly: {same}")
    findings = known_findings(check_id)
    new = []
    for v in out["violations"]:
        for f in findings:
            if matches_known(f, v, out["scenario"]):
                print(f"KNOWN-FINDING: property={check_id} {f['what']}")
                break
        else:
            new.append(v)
    for v in new:
        print(f"  {v['sig']}: {v['message']}")
    if new:
        print(f"VIOLATION property={check_id} replay={path}")
        return 1
    print("no violation")
    return 0
