"""C07: job files always tell the truth about the job"""

from pathlib import Path

from simfi import cases, engine, seams

ID = "C07"
TITLE = "Job files always tell the truth about the job"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "at each event of the simulation concerning a job: files of the job compared with "
    "the results on disk and with their previous state; at the end of `compute`: names "
    "and counts compared with topology.results, saved parameters compared with those used"
)
KINDS = ["im2im", "lite", "bos", "preproc", "piv", "mean", "surface"]
WEIGHTS = [4, 4, 1.5, 2, 1, 1.5, 1]
STOP_EXECUTORS = [
    "exec_sequential", "exec_async", "exec_async_sequential", "exec_async_multi",
]
# executors saving the names of the results in the job directory
WITH_NAMES = cases.MULTI + ["exec_sequential"]


def generate(rng, seed, tier):
    sc = engine.gen_base(
        rng, KINDS, WITH_NAMES + ["exec_sequential"] * 2 + cases.SINGLE,
        weights=WEIGHTS, max_items=rng.choice([3, 6, 9]),
    )
    r = rng.random()
    if r < 0.35 and sc["case"]["kind"] != "mean":
        sc["fail"] = engine.gen_fail(rng, sc)
        if sc["executor"] in STOP_EXECUTORS and rng.random() < 0.5:
            sc["stop_if_error"] = True
    elif r < 0.45:
        sc["corrupt"] = engine.gen_corrupt(rng, sc)
    elif r < 0.6 and sc["executor"] in cases.MULTI:
        letter = "s" if "subproc" in sc["executor"] else "f"
        name = f"main/{letter}{rng.randrange(sc['nb_max_workers'])}"
        sc["faults"] = [{
            "kind": "kill", "target": name, "at": {"node_is": name},
            "n": engine.log_uniform(rng, 1, 300),
        }]
    elif r < 0.75 and sc["case"]["kind"] != "mean":
        sc["faults"] = engine.gen_write_error(rng, sc)
    if sc["case"]["kind"] != "mean" and rng.random() < 0.25:
        names = sorted(cases.make(sc["case"]).results())
        sc["present"] = [n for n in names if rng.random() < 0.4]
        sc["how"] = "complete"
    return sc


def valid(sc):
    return set(sc.get("present", ())) <= set(cases.make(sc["case"]).results())


class Watcher:
    """Sees all the events"""

    def __init__(self, run):
        self.run = run
        self.result_dir = run.case.result_dir(run.root)
        self.named = {}
        self.counts = {}
        self.bad = set()
        self.nreads = 0

    def violate(self, sig, message):
        if sig not in self.bad:
            self.bad.add(sig)
            self.run.violate(sig, message)

    def __call__(self, kind, node, detail):
        if kind in ("work_start", "work_end"):
            self.check_lock(kind, detail)
            if kind == "work_start":
                return
        elif kind in ("fs.open.w", "fs.replace") and "mean.png" in str(detail):
            # the final work is still the computation
            self.check_lock(kind, detail)
            return
        elif "job_" not in str(detail):
            return
        self.check_files()

    def jobs(self):
        try:
            names = seams.real.os_listdir(self.result_dir)
        except OSError:
            return []
        return [self.result_dir / n for n in sorted(names) if n.startswith("job_")]

    def check_lock(self, kind, detail):
        jobs = self.jobs()
        if not jobs:
            self.violate("no-job-dir", f"{kind} {detail} but no job directory")
        elif not self.locked(jobs[-1]):
            self.violate("no-lock", f"{kind} {detail} but no lock file")

    @staticmethod
    def locked(job):
        return "is_running.lock" in seams.real.os_listdir(job)

    def on_disk(self):
        try:
            return set(seams.real.os_listdir(self.result_dir))
        except OSError:
            return set()

    def read(self, path):
        self.nreads += 1
        with seams.real.open(path, encoding="utf-8") as file:
            return file.read()

    def check_files(self):
        mean = self.run.case.kind == "mean"
        for job in self.jobs():
            try:
                names = sorted(seams.real.os_listdir(job))
            except OSError:
                continue
            if "info.xml" in names and "params.xml" not in names:
                self.violate("no-params", f"{job.name}: info.xml but no params.xml")
            named = []
            total = 0
            for name in names:
                path = job / name
                if name.startswith("results"):
                    text = self.read(path)
                    lines = [
                        line[:-1] for line in text.splitlines(True)
                        if line.endswith("\n")
                    ]
                    old = self.named.get(path, [])
                    if lines[: len(old)] != old:
                        self.violate(
                            "names-changed", f"{name}: was {old[-3:]}, now {lines[-3:]}"
                        )
                    self.named[path] = lines
                    named.extend(lines)
                elif name.startswith("len_results"):
                    text = self.read(path)
                    try:
                        value = int(text)
                    except ValueError:
                        self.violate("count-unreadable", f"{name} contains {text!r}")
                        continue
                    if value < self.counts.get(path, 0):
                        self.violate(
                            "count-decreases",
                            f"{name}: {self.counts[path]} then {value}",
                        )
                    self.counts[path] = value
                    total += value
            if mean:
                continue
            disk = self.on_disk()
            ghosts = sorted(set(named) - disk)
            if ghosts:
                self.violate(
                    "named-not-on-disk", f"named in {job.name}, not on disk: {ghosts[:4]}"
                )
            dup = sorted({n for n in named if named.count(n) > 1})
            if dup:
                self.violate("named-twice", f"named several times: {dup[:4]}")
            if total:
                case = self.run.case
                done = {
                    case.canonical(n) for n in disk if case.is_result(n)
                } - self.present
                if total > len(done):
                    self.violate(
                        "count-too-large", f"{job.name}: {total} results announced, "
                        f"{len(done)} on disk",
                    )

    present = frozenset()


def params_text(params):
    return params._make_xml_text()


def execute(sc, replay=None):
    from checks.c05 import make_present

    with engine.Run(sc, replay) as run:
        case = run.case
        executor = sc["executor"]
        run.tags = {executor: 1, case.kind: 1}
        engine.corrupt_images(run, sc)
        make_present(run, sc.get("present", ()))
        watcher = Watcher(run)
        if sc.get("present"):
            todo = case.to_complete(sc["present"])
            watcher.present = frozenset(
                case.canonical(n) for n in set(sc["present"]) - todo
            )
        run.kernel.observers.append(watcher)
        run.world.set_faults(sc.get("faults", ()))
        locks = {}

        def at_end(phase, outcome):
            locks["end"] = [
                job.name for job in watcher.jobs()
                if watcher.locked(job)
            ]
            locks["outcome"] = outcome

        phase = run.prepare(how=sc.get("how", "recompute"), at_end=at_end)
        run.run(phase)
        what = f"{executor} on {case.kind}"
        if phase.status != "until":
            run.violate("not-terminated", f"{what}: {phase.describe()}")
            return run
        if locks.get("end"):
            run.violate(
                "lock-not-released",
                f"{what}: compute {locks['outcome']}, lock still there",
            )
        if not phase.returned:
            run.tags["raised"] = 1
        jobs = watcher.jobs()
        if phase.topology is not None and jobs:
            check_saved(run, phase, jobs[-1], what)
        if phase.returned and jobs and case.kind != "mean":
            watcher.check_files()
            if executor in WITH_NAMES:
                check_names(run, phase, watcher, what)
        run.kernel.observers.remove(watcher)
        run.tags["job files read"] = watcher.nreads
        run.finish()
    return run


def check_names(run, phase, watcher, what):
    names = [n for lines in watcher.named.values() for n in lines]
    reported = run.reported_names(phase.results)
    if sorted(names) != sorted(reported):
        run.violate(
            "names-at-end", f"{what}: job files {sorted(names)[:6]}, topology.results "
            f"{sorted(reported)[:6]}",
        )
    total = sum(watcher.counts.values())
    if total != len(reported):
        run.violate(
            "count-at-end", f"{what}: counts {list(watcher.counts.values())}, "
            f"{len(reported)} results",
        )
    case = run.case
    disk = {case.canonical(n) for n in case.list_results(watcher.result_dir)}
    expected = disk - watcher.present
    got = {case.canonical(n) for n in names}
    if run.sc.get("fail") or run.sc.get("corrupt") or run.sc.get("faults"):
        # existing results which had to be computed again
        expected -= {case.canonical(n) for n in run.sc.get("present", ())} - got
    if case.kind == "preproc" and run.sc.get("faults"):
        # some images of a subset which could not be completely written
        expected -= {
            case.canonical(n) for f in run.kernel.fired for n in case.results()
            if n in f.get("path", "")
        } - got
    if got != expected:
        run.violate(
            "names-not-results", f"{what}: named {sorted(got)[:6]}, on disk "
            f"{sorted(expected)[:6]}",
        )


def check_saved(run, phase, job, what):
    from fluidimage import ParamContainer

    executor = phase.topology.executor
    if not (job / "info.xml").exists():
        return
    try:
        params = ParamContainer(path_file=str(job / "params.xml"))
        info = ParamContainer(path_file=str(job / "info.xml"))
    except Exception as error:
        run.violate("job-unreadable", f"{what}: {type(error).__name__}: {error}")
        return
    diffs = differences(phase.topology.params, params)
    if diffs:
        run.violate("params-differ", f"{what}: {diffs[:4]}")
    expected = {
        "num_expected_results": executor.num_expected_results,
        "topology": f"{type(phase.topology).__module__}.{type(phase.topology).__name__}",
        "nb_max_workers": executor.nb_max_workers,
        "time_start": executor.time_start_str,
        "path_dir_result": executor.path_dir_result,
    }
    for key, value in expected.items():
        saved = getattr(info, key, None)
        if str(saved) != str(value):
            run.violate("info-differs", f"{what}: {key}: {saved!r} != {value!r}")
    if type(executor).__name__ not in str(info.executor):
        run.violate("info-differs", f"{what}: executor: {info.executor!r}")


def normalized(value):
    if isinstance(value, Path):
        return str(value)
    if isinstance(value, (tuple, list)):
        return [normalized(v) for v in value]
    return value


def differences(a, b, prefix="params"):
    """Differences between two ParamContainer"""
    out = []
    keys_a, keys_b = set(a._get_key_attribs()), set(b._get_key_attribs())
    if keys_a != keys_b:
        out.append(f"{prefix}: attributes {sorted(keys_a ^ keys_b)}")
    for key in sorted(keys_a & keys_b):
        va, vb = normalized(a[key]), normalized(b[key])
        if va != vb:
            out.append(f"{prefix}.{key}: {va!r} / {vb!r}")
    tags_a, tags_b = set(a._tag_children), set(b._tag_children)
    if tags_a != tags_b:
        out.append(f"{prefix}: children {sorted(tags_a ^ tags_b)}")
    for tag in sorted(tags_a & tags_b):
        out.extend(differences(a[tag], b[tag], f"{prefix}.{tag}"))
    return out
