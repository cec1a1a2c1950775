"""One execution: a world, a workload, one or several phases (computations)"""

import contextlib
import errno
import io
import json
import os
import random
from pathlib import Path

from . import cases, probe, seams, world
from .kernel import HarnessError

MAX_IDLE = 120.0  # virtual seconds without any progress: hang


class Violation:
    def __init__(self, sig, message):
        self.sig = sig
        self.message = message

    def as_dict(self):
        return {"sig": self.sig, "message": self.message}


class Phase:
    """One computation (what happened during one `compute`)"""

    status = None
    node = None
    topology = None
    returned = False
    error = None
    results = None
    result_dir = None

    def describe(self):
        if self.status != "until":
            return f"status {self.status}"
        if self.returned:
            return "returned"
        return f"raised {type(self.error).__name__}: {str(self.error)[:300]}"


class Run:
    def __init__(self, sc, replay=None):
        self.sc = sc
        self.case = cases.make(sc["case"]) if "case" in sc else None
        config = dict(sc.get("config", {}))
        if self.case is not None and self.case.content_idents:
            config["contents"] = {}
        fail = sc.get("fail")
        if fail:
            config["fail"] = {(w, i): mode for w, i, mode in fail}
        self.world = world.World(sc["seed"], config, replay)
        self.root = self.world.root
        self.kernel = self.world.kernel
        self.kernel.max_idle = MAX_IDLE
        if self.case is not None:
            self.case.setup(self.root)
        self.phases = []
        self.violations = []

    def __enter__(self):
        return self

    def __exit__(self, *args):
        k = self.kernel
        self.hash = k.hash.hexdigest()
        self.interleaving = k.interleave_hash.hexdigest()
        self.stats = dict(k.stats)
        self.nonzero = dict(k.chooser.nonzero)
        self.ndecisions = k.chooser.index
        self.virtual = k.now
        self.steps = k.steps
        self.nodes = len(k.nodes)
        self.fired = list(k.fired)
        self.harness_errors = list(k.harness_errors)
        self.leaked = self.world.close()

    # ------------------------------------------------------------ helpers
    def violate(self, sig, message):
        self.violations.append(Violation(sig, message))

    def events(self, kind=None, since=0):
        ev = self.kernel.events[since:]
        if kind is None:
            return ev
        return [e for e in ev if e[2] == kind]

    # ------------------------------------------------------------ phases
    def prepare(self, name="main", how="recompute", executor=None, setup=None,
                params_hook=None, delay=0.0, nb_max_workers=None, at_end=None, **kw):
        """Start (without running) a process calling `compute`"""
        sc = self.sc
        case = self.case
        phase = Phase()
        phase.name = name
        phase.how = how
        phase.start_index = len(self.kernel.events)
        executor = executor or sc["executor"]
        phase.executor = executor
        root = self.root

        def main():
            params = case.make_params(root)
            params.saving.how = how
            if params_hook is not None:
                params_hook(params)
            phase.params = params
            topo = phase.topology = case.topology_cls()(
                params, logging_level=sc.get("logging_level", "info")
            )
            phase.result_dir = Path(topo.path_dir_result)
            kwargs = dict(sc.get("kwargs_executor") or {})
            if kw.get("kwargs_executor"):
                kwargs.update(kw["kwargs_executor"])
            self.kernel.event("compute-call", name)
            try:
                compute(topo, kwargs)
            except BaseException as error:
                self.kernel.event("compute-raise", name)
                if at_end is not None:
                    at_end(phase, f"raised {type(error).__name__}")
                raise
            self.kernel.event("compute-return", name)
            phase.returned = True
            phase.results = list(getattr(topo, "results", []))
            if at_end is not None:
                at_end(phase, "returned")

        def compute(topo, kwargs):
            topo.compute(
                executor,
                nb_max_workers=(
                    sc.get("nb_max_workers", 2)
                    if nb_max_workers is None else nb_max_workers
                ),
                sleep_time=sc.get("sleep_time", 0.01),
                stop_if_error=kw.get("stop_if_error", sc.get("stop_if_error", False)),
                kwargs_executor=kwargs or None,
            )

        phase.node = self.world.start(main, name, delay)
        self.phases.append(phase)
        return phase

    def run(self, *phases, until=None, max_time=None, max_steps=None):
        sc = self.sc
        k = self.kernel
        k.progress()
        status = self.world.run(
            *[ph.node for ph in phases],
            max_time=max_time or sc.get("max_time", 3600.0),
            max_steps=max_steps or sc.get("max_steps", 300_000),
            until=until,
        )
        for ph in phases:
            ph.status = status
            ph.error = ph.node.error
            ph.end_index = len(k.events)
        return status

    def compute(self, name="main", how="recompute", **kw):
        phase = self.prepare(name, how, **kw)
        self.run(phase)
        return phase

    def finish(self):
        """Let the orphans end, or kill them"""
        k = self.kernel
        if any(n.alive for n in k.nodes):
            k.progress()
            try:
                self.world.drain(max_time=30.0, max_steps=50_000)
            except HarnessError:
                raise
            self.world.kill_all()

    # ------------------------------------------------------------ checks
    def executions(self, phase=None):
        """list of (item, outcome) in order, from the events"""
        lo, hi = 0, None
        if phase is not None:
            lo, hi = phase.start_index, phase.end_index
        out = []
        for t, node, kind, detail in self.kernel.events[lo:hi]:
            if kind in ("work_start", "work_end", "work_error"):
                work, ident = detail.split("|")[:2]
                out.append((kind, (work, ident), node))
        return out

    def check_results(self, expected, directory=None, prefix="", allowed=None,
                      refs=None):
        """Names and contents of the results are exactly the expected ones"""
        case = self.case
        directory = directory or case.result_dir(self.root)
        found = set(case.list_results(directory))
        expected = set(expected)
        missing = sorted(expected - found)
        extra = sorted(found - expected)
        if missing:
            self.violate(
                prefix + "missing-result",
                f"results missing in {Path(directory).name}: {missing[:5]} "
                f"({len(missing)} of {len(expected)})",
            )
        if extra:
            self.violate(
                prefix + "extra-result",
                f"unexpected results in {Path(directory).name}: {extra[:5]}",
            )
        self.check_contents(sorted(found & expected), directory, prefix, refs)

    def check_contents(self, names, directory=None, prefix="", refs=None):
        case = self.case
        directory = Path(directory or case.result_dir(self.root))
        for name in names:
            content = cases.read_result(directory / name)
            ref = case.reference_cached(name) if refs is None else refs[name]
            diff = cases.same(content, ref)
            if diff and case.other_contents(name, content):
                self.violate(
                    prefix + "content-depends-on-schedule",
                    f"result {name}: saved by several works, the last one wins",
                )
                diff = None
            if diff:
                sig = "wrong-content"
                if isinstance(content, cases.Unreadable):
                    sig = "unreadable-result"
                self.violate(prefix + sig, f"result {name}: {diff}")

    def check_executions(self, phase, executed, prefix=""):
        """Each expected item started exactly once, nothing else

        With the multi executors, an image needed by two processes is read by both.
        """
        count = {}
        per_node = {}
        for kind, item, node in self.executions(phase):
            if kind == "work_start":
                count[item] = count.get(item, 0) + 1
                per_node[node, item] = per_node.get((node, item), 0) + 1
        shared = set()
        if phase.executor.startswith("multi_exec"):
            shared = self.case.input_items()
        elif (
            phase.executor == "exec_async_multi"
            and self.kernel.stats.get("fault:slow_start")
        ):
            # a process which does not start in 1 s is terminated and another one is
            # started: what the first could do just before is lost
            shared = {i for (n, i) in per_node if n != phase.node.name}
        twice = {i for i, c in count.items() if c > 1 and i not in shared}
        twice |= {i for (n, i), c in per_node.items() if c > 1}
        twice = sorted(twice)
        if twice:
            self.violate(
                prefix + "executed-twice", f"works executed several times: {twice[:5]}"
            )
        missing = sorted(set(executed) - set(count))
        extra = sorted(set(count) - set(executed))
        if missing:
            self.violate(prefix + "not-executed", f"works not executed: {missing[:5]}")
        if extra:
            self.violate(prefix + "unexpected-work", f"unexpected works: {extra[:5]}")

    def check_reported(self, phase, results, prefix=""):
        """topology.results names exactly the results"""
        if self.case.kind == "mean":
            return
        names = [self.case.canonical(n) for n in self.reported_names(phase.results)]
        expected = sorted(self.case.reported(results))
        if sorted(names) != expected:
            dup = sorted({n for n in names if names.count(n) > 1})
            missing = sorted(set(expected) - set(names))
            extra = sorted(set(names) - set(expected))
            self.violate(
                prefix + "reported-results",
                f"topology.results: missing {missing[:4]}, unexpected {extra[:4]}, "
                f"several times {dup[:4]}",
            )

    @staticmethod
    def reported_names(results):
        names = []
        for r in results:
            if isinstance(r, str):
                names.append(Path(r).name)
            else:
                names.append(str(getattr(r, "name", r)))
        return names

    def snapshot_results(self, directory=None):
        """name -> (content, identity of the file)"""
        directory = Path(directory or self.case.result_dir(self.root))
        ret = {}
        for name in self.case.list_results(directory):
            st = os.stat(directory / name)
            ret[name] = ((directory / name).read_bytes(), st.st_ino, st.st_mtime_ns)
        return ret

    def exception_files(self, directory=None):
        """list of the texts of the exception files"""
        texts = []
        for log_dir in self.log_dirs(directory):
            for path in sorted(log_dir.iterdir()):
                if path.name.startswith("exception_"):
                    texts.append((path.name, path.read_text(errors="replace")))
        return texts

    def check_exception_files(self, failed, exact=True, prefix=""):
        """Each failure is in a file naming the work and the key"""
        keys = self.case.keys()
        files = self.exception_files()
        used = set()
        modes = {(w, i): m for w, i, m in self.sc.get("fail", ())}
        for item in failed:
            work = item[0].replace(" ", "_")
            key = str(keys[item])
            text_error = {
                "oserror": "OSError", "memory": "MemoryError", "type": "TypeError"
            }.get(modes[item], "PlannedFailure")
            found = [
                name for name, text in files
                if work in text.split("\n")[0] and key in text.split("\n")[0]
                and text_error in text and "planned" in text
            ]
            if not found:
                self.violate(
                    prefix + "no-exception-file",
                    f"no exception file for work {item[0]}, key {key} (files: "
                    f"{[n for n, _ in files]})",
                )
            used.update(found)
        if exact:
            extra = [name for name, _ in files if name not in used]
            if extra:
                self.violate(
                    prefix + "extra-exception-file",
                    f"unexpected exception files: {extra}",
                )

    def check_exceptions_of_images(self, corrupt):
        """An image which cannot be used: at least one exception file"""
        if not corrupt:
            return
        needed = {
            item[1] for item in self.case.dag() if item[0] in self.case.read_works
        }
        if any(name in needed for name, _ in corrupt) and not self.exception_files():
            self.violate(
                "no-exception-file", f"no exception file, unreadable images {corrupt}"
            )

    def check_mean(self, prefix=""):
        case = self.case
        if case.kind != "mean":
            return
        path = self.root / "Images.mean.png"
        if not path.exists():
            self.violate(prefix + "missing-mean", "the mean image is not saved")
            return
        content = cases.read_result(path)
        diff = cases.same(content, {"image": case.expected_mean()}, tol=0)
        if diff:
            self.violate(prefix + "wrong-mean", f"mean image: {diff}")

    def job_dirs(self, directory=None):
        d = Path(directory or self.case.result_dir(self.root))
        if not d.exists():
            return []
        return sorted(p for p in d.iterdir() if p.name.startswith("job_"))

    def log_dirs(self, directory=None):
        d = Path(directory or self.case.result_dir(self.root))
        if not d.exists():
            return []
        return sorted(
            p for p in d.iterdir() if p.name.startswith("log_") and p.is_dir()
        )


# ---------------------------------------------------------------- generation


def gen_config(rng, quick=True):
    """Swarm: how the scheduler behaves in this run"""
    cfg = {}
    r = rng.random()
    if r < 0.15:
        cfg.update(p_switch=0.0, p_delay=0.0, jitter=0.0)
    elif r < 0.6:
        cfg.update(
            p_switch=rng.choice([0.1, 0.3, 0.5, 0.8]),
            p_delay=rng.choice([0.02, 0.1, 0.3]),
            delay_max=rng.choice([0.01, 0.1, 0.5, 1.0]),
            jitter=rng.choice([0.1, 0.5, 0.9]),
        )
    else:
        cfg.update(
            p_switch=rng.random(), p_delay=rng.random() * 0.4,
            delay_max=10 ** rng.uniform(-2.5, 0.3), jitter=rng.random(),
        )
    if rng.random() < 0.3:
        cfg["preempt"] = rng.choice([32, 128, 512, 2048])
    if rng.random() < 0.45:
        # lines of the code where the threads are preempted (1 line over n)
        cfg["hot"] = [rng.choice([5, 15, 50]), rng.randrange(1_000_000)]
    cfg["p_duration"] = rng.choice([0.0, 0.3, 0.7, 0.95])
    cfg["p_stall"] = rng.choice([0.0, 0.0, 0.05, 0.3])
    cfg["p_slow_start"] = rng.choice([0.0, 0.05, 0.3])
    if rng.random() < 0.3:
        cfg["shuffle_dirs"] = False
    if rng.random() < 0.1:
        cfg["clock_jumps"] = gen_clock_jumps(rng)
    return cfg


def gen_clock_jumps(rng):
    """The wall clock is adjusted (NTP, resumed virtual machine)"""
    return [
        [
            round(10 ** rng.uniform(-2, 1.3), 4),
            round(rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-1, 4.5), 3),
        ]
        for _ in range(rng.choice([1, 1, 2]))
    ]


def gen_fail(rng, sc):
    """Items which raise"""
    items = sorted(cases.make(sc["case"]).dag())
    if not items:
        return []
    n = rng.choice([1, 1, 1, 2, 3])
    if rng.random() < 0.08:
        n = len(items)
    chosen = rng.sample(items, min(n, len(items)))
    return [
        [w, i, rng.choice(["value", "value", "oserror", "memory", "type"])]
        for w, i in sorted(chosen)
    ]


def gen_corrupt(rng, sc):
    """Images which cannot be read"""
    case = cases.make(sc["case"])
    names = sorted({i for w, i in case.dag() if w in case.read_works})
    if not names:
        return []
    chosen = rng.sample(names, min(len(names), rng.choice([1, 1, 2])))
    return [
        [name, rng.choice(["garbage", "empty", "truncated"])]
        for name in sorted(chosen)
    ]


def log_uniform(rng, lo, hi):
    return int(round(lo * (hi / lo) ** rng.random()))


def gen_crash(rng, node="main", hi=2500):
    """The process `node` and all its children are killed at some point"""
    at = {}
    r = rng.random()
    if r < 0.3:
        at = {"op": "fs.", "path": rng.choice([".png", ".h5", ".tmp"])}
        n = log_uniform(rng, 1, 120)
    elif r < 0.5:
        at = {"op": rng.choice(["fs.write", "fs.write", "fs.opened", "fs.rep"])}
        n = log_uniform(rng, 1, 200)
    elif r < 0.65:
        at = {"op": rng.choice(["work_start", "work_end"])}
        n = rng.randint(1, 12)
    elif r < 0.72:
        at = {"path": rng.choice([
            "job_", "params.xml", "info.xml", "len_results", "results", "is_running",
            "tmp_sum", "indices", "exiting",
        ])}
        n = log_uniform(rng, 1, 30)
    else:
        n = log_uniform(rng, 1, hi)
    if rng.random() < 0.3:
        at["after"] = 0.0
    return {
        "kind": "kill", "at": at, "n": n, "target": node, "group": True,
        "torn": round(rng.random(), 2),
    }


def gen_write_error(rng, sc, names=None):
    """The writing of one result fails (I/O error, disk full)"""
    case = cases.make(sc["case"])
    names = sorted(names or case.results())
    if not names:
        return []
    name = rng.choice(names)
    h5 = name.endswith(".h5")
    op = rng.choice(
        ["fs.h5open.w", "fs.h5write", "fs.h5close", "fs.rep"] if h5
        else ["fs.open.w", "fs.write", "fs.write", "fs.close", "fs.rep"]
    )
    return [{
        "kind": "oserror", "errno": rng.choice([errno.ENOSPC, errno.EIO]),
        "at": {"op": op, "path": name, "path_not": "exception_"},
        "n": rng.randint(1, 4) if op in ("fs.h5write", "fs.write") else 1,
        "torn": round(rng.random(), 2), "repeat": rng.random() < 0.4,
    }]


def corrupt_images(run, sc):
    for name, how in sc.get("corrupt", ()):
        path = run.root / "Images" / name
        data = path.read_bytes()
        if how == "garbage":
            data = b"\x00garbage" * 10
        elif how == "empty":
            data = b""
        else:
            data = data[: len(data) // 2]
        path.write_bytes(data)
        run.kernel.count("fault:corrupted_image")


def contains_planned(error):
    """The planned failure is the error, its cause or is in the group"""
    todo, seen = [error], set()
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if "planned" in str(e) and not isinstance(e, BaseExceptionGroup):
            return True
        todo.extend([e.__cause__, e.__context__])
        if isinstance(e, BaseExceptionGroup):
            todo.extend(e.exceptions)
    return False


def gen_executor(rng, names):
    weights = [0.45 if "servers" in n else 1.0 for n in names]
    return rng.choices(names, weights)[0]


def gen_piv_selection(rng, spec, max_items=6):
    """Selection of couples (n, d, ind_start, ind_stop, ind_step)"""
    mode = rng.choices(["succ", "double", "three"], [6, 2, 1])[0]
    spec["mode"] = mode
    spec["first"] = rng.choice([0, 0, 0, 1, 3])
    n = rng.randint(2, max_items + 1) if mode == "succ" else rng.randint(1, max_items)
    spec["n"] = n
    if mode == "succ" and n > 2 and rng.random() < 0.35:
        spec["d"] = rng.randint(1, min(n - 1, 5))
    if rng.random() < 0.4:
        step = rng.choice([2, 2, 3])
        spec["ind_step"] = step
    d = spec.get("d", 1) if mode == "succ" else 0
    last = spec["first"] + n - d
    if rng.random() < 0.3 and last - 1 > spec["first"]:
        spec["ind_start"] = rng.randint(spec["first"], last - 1)
    if rng.random() < 0.3:
        lo = spec.get("ind_start", spec["first"]) + 1
        if lo <= last:
            spec["ind_stop"] = rng.randint(lo, last)
    return spec


def gen_images_selection(rng, spec, max_items=7, min_items=1):
    spec["n"] = n = rng.randint(min_items, max_items)
    if rng.random() < 0.35:
        a = rng.randint(0, max(0, n - min_items))
        b = rng.randint(a + 1, n)
        s = rng.choice([1, 1, 2, 3])
        while len(range(a, b, s)) < min_items:
            a, b, s = 0, n, 1
        spec["subset"] = f"{a}:{b}:{s}" if s != 1 else f"{a}:{b}"
    return spec


def gen_two_indices(rng, spec, max_items=5):
    """Images with two indices"""
    spec["double"] = k = rng.choice([1, 1, 3, 4, 5])
    k = max(2, k)
    spec["n"] = n = rng.randint(1, max_items)
    spec.pop("subset", None)
    if rng.random() < 0.6:
        a = rng.randint(0, n - 1)
        first = f"{a}:{rng.randint(a + 1, n)}"
        if rng.random() < 0.3:
            first += rng.choice([":1", ":2", ":3"])
        b = rng.randint(0, k - 1)
        second = f"{b}:{rng.randint(b + 1, k)}"
        if rng.random() < 0.4:
            second += rng.choice([":1", ":2", ":3"])
        spec["subset"] = f"{first}, {second}"


def gen_case(rng, kinds, weights=None, max_items=6):
    kind = rng.choices(kinds, weights)[0] if weights else rng.choice(kinds)
    kind = os.environ.get("SIMFI_ONLY_KIND", kind)  # (debugging)
    spec = {"kind": kind, "seed": rng.randint(0, 2)}
    if kind == "im2im":
        spec["func"] = rng.choice(["class", "class", "function", "example"])
        gen_images_selection(rng, spec, max_items)
        if rng.random() < 0.1:
            gen_two_indices(rng, spec, max(1, max_items // 2))
    elif kind == "mean":
        gen_images_selection(rng, spec, 13 if max_items >= 6 else max_items)
        if rng.random() < 0.3:
            spec["image_kind"] = "wide"
    elif kind in ("lite", "piv", "optflow"):
        gen_piv_selection(rng, spec, max_items if kind == "lite" else
                          min(max_items, 4))
        if rng.random() < 0.25:
            spec["preproc"] = 1
        if kind == "piv":
            spec["passes"] = rng.choice([1, 1, 2])
            if spec["passes"] == 2 and rng.random() < 0.3:
                spec["tps"] = True
    elif kind == "bos":
        gen_images_selection(rng, spec, min(max_items, 4), 2)
        if rng.random() < 0.3:
            spec["preproc"] = 1
        if rng.random() < 0.4:
            names = cases.make(spec).selected()
            i = rng.randrange(len(names))
            spec["reference"] = rng.choice([i, names[i]])
    elif kind == "surface":
        gen_images_selection(rng, spec, min(max_items, 5), 2)
        if rng.random() < 0.3:
            spec["first"] = first = rng.choice([1, 3])
            if "subset" in spec:
                sl = cases.parse_slice(spec["subset"])
                spec["subset"] = f"{sl.start + first}:{sl.stop + first}"
                if sl.step:
                    spec["subset"] += f":{sl.step}"
        if rng.random() < 0.3:
            spec["preproc"] = 1
        elif rng.random() < 0.4:
            spec["crop_edge"] = 1
        if rng.random() < 0.2:
            spec["correct_height"] = 1
    elif kind == "preproc":
        spec["w"] = w = rng.choice([1, 1, 2, 3])
        spec["n"] = rng.randint(w, max_items + 2)
        spec["tool"] = rng.choice(["rescale", "temporal"])
        if rng.random() < 0.25:
            cases.gen_tools(rng, spec)
        if rng.random() < 0.25:
            spec["preproc"] = 1
        if rng.random() < 0.25:
            spec["format"] = rng.choice(["h5", "h5", "hdf5", "tiff", "jpeg"])
            if spec["format"] == "jpeg":
                # 8 bits only
                for key in ("backend", "tools", "image_kind"):
                    spec.pop(key, None)
        if rng.random() < 0.2:
            spec["first"] = rng.choice([1, 3])
        first = spec.get("first", 0)
        if rng.random() < 0.2:
            spec["ind_start"] = first + rng.randint(0, spec["n"] - w)
        if rng.random() < 0.2:
            start = spec.get("ind_start", first)
            spec["ind_stop"] = rng.randint(start + 1, first + spec["n"] - w + 1)
        if rng.random() < 0.15:
            spec["step"] = w + rng.randint(1, 2)
    return spec


def gen_base(rng, kinds, executors=None, weights=None, max_items=6):
    sc = {}
    sc["case"] = gen_case(rng, kinds, weights, max_items)
    names = executors or cases.ALL_EXECUTORS
    if sc["case"]["kind"] == "surface":
        names = [n for n in names if n in cases.SINGLE] or cases.SINGLE
    sc["executor"] = gen_executor(rng, names)
    sc["nb_max_workers"] = rng.choice([1, 2, 2, 3, 4])
    if "servers" in sc["executor"]:
        sc["nb_max_workers"] = rng.choice([1, 2, 2, 3])
    sc["config"] = gen_config(rng)
    sc["sleep_time"] = rng.choice([0.01, 0.01, 0.003, 0.1])
    if rng.random() < 0.3:
        sc["kwargs_executor"] = {"nb_items_queue_max": rng.choice([1, 2, 4, 8])}
    return sc
