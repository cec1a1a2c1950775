"""C08: the monitor can be opened at any time and shows the truth"""

import argparse
import asyncio

from simfi import aio, cases, engine, seams

ID = "C08"
TITLE = "The monitor can be opened at any time and shows the truth"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "what the widgets of the application display, compared at each refresh with the "
    "results on disk and, after the end of the job, with topology.results"
)
NOTE = (
    "the real Textual application runs headless on a simulated asyncio loop (virtual "
    "clock); its refreshes interleave with the processes of the computation"
)
KINDS = ["im2im", "lite", "bos", "preproc", "piv", "surface"]
WEIGHTS = [4, 4, 1, 1.5, 0.7, 0.5]
WITH_COUNTS = cases.MULTI + ["exec_sequential"]


def generate(rng, seed, tier):
    executors = WITH_COUNTS * 3 + cases.SINGLE
    sc = engine.gen_base(
        rng, KINDS, executors, weights=WEIGHTS, max_items=rng.choice([3, 6, 12])
    )
    # long works: the computation lasts several refreshes
    sc["config"]["p_duration"] = rng.choice([0.3, 0.7, 0.95])
    r = rng.random()
    if r < 0.2:
        sc["fail"] = engine.gen_fail(rng, sc)
    elif r < 0.35 and sc["executor"] in cases.MULTI:
        letter = "s" if "subproc" in sc["executor"] else "f"
        name = f"main/{letter}{rng.randrange(sc['nb_max_workers'])}"
        sc["faults"] = [{
            "kind": "kill", "target": name, "at": {"node_is": name},
            "n": engine.log_uniform(rng, 1, 300),
        }]
    elif r < 0.42:
        sc["faults"] = [engine.gen_crash(rng)]
    if rng.random() < 0.3:
        names = sorted(cases.make(sc["case"]).results())
        sc["present"] = [n for n in names if rng.random() < 0.4]
        sc["how"] = "complete"
    # a former computation in the same directory (its job is not the last one)
    sc["former_job"] = rng.random() < 0.2
    if sc["former_job"]:
        # the jobs of a directory are ordered with the dates in their names
        sc["config"].pop("clock_jumps", None)
    # the monitor is opened: at the n-th event concerning the job, or later
    sc["open_n"] = engine.log_uniform(rng, 1, 60)
    sc["open_delay"] = rng.choice([0, 0, 0.5, 2.0, rng.random() * 8])
    sc["period"] = rng.choice([0.1, 0.5, 1.0, 1.7])
    return sc


def valid(sc):
    return set(sc.get("present", ())) <= set(cases.make(sc["case"]).results())


class Monitor:
    """Opens the application and looks at it until the end of the job"""

    def __init__(self, run, sc):
        self.run = run
        self.sc = sc
        self.result_dir = run.case.result_dir(run.root)
        self.n = 0
        self.node = None
        self.seen = []  # (time, number, running, times, results on disk)
        self.opened = False
        self.not_found = 0
        self.stop_at = None
        self.looks = 0
        self.armed = False

    def __call__(self, kind, node, detail):
        if self.node is not None or not self.armed:
            return
        if "/job_" in str(detail):
            self.n += 1
            if self.n >= self.sc.get("open_n", 1):
                self.start()

    def start(self):
        self.node = self.run.world.start(
            self.main, "monitor", self.sc.get("open_delay", 0)
        )

    def jobs(self):
        """The jobs which have announced themselves"""
        listdir = seams.real.os_listdir
        return sorted(
            n for n in listdir(self.result_dir)
            if n.startswith("job_") and "info.xml" in listdir(self.result_dir / n)
        )

    def num_disk(self):
        case = self.run.case
        return len({
            case.canonical(n) for n in seams.real.os_listdir(self.result_dir)
            if case.is_result(n)
        })

    def main(self):
        from fluidimage.gui.monitor import MonitorApp

        k = self.run.kernel
        while not self.opened:
            self.jobs_at_open = self.jobs()
            app = MonitorApp(
                argparse.Namespace(
                    path=str(self.result_dir), verbose=None, version=None
                )
            )
            if getattr(app, "info_job", None) is None:
                # "No job info folder found.", try again
                self.not_found += 1
                if self.not_found > 200:
                    return
                k.sleep(0.1)
                continue
            self.opened = True
            aio.run(self.use(app))

    async def use(self, app):
        async with app.run_test():
            period = self.sc.get("period", 0.5)
            while True:
                self.look(app)
                k = self.run.kernel
                if self.stop_at is not None and k.now > self.stop_at:
                    return
                await asyncio.sleep(period)

    def look(self, app):
        from textual.widgets import Digits, Label, ProgressBar

        # the count displayed was read before: the results on disk only increase
        texts = [str(label.renderable) for label in app.query(Label)]
        number = int(app.query_one(Digits).value)
        bar = app.query_one(ProgressBar)
        running = [t for t in texts if t.startswith("Running:")]
        times = [t for t in texts if "Started since" in t or "Total duration" in t]
        self.total = bar.total
        self.job = app.path_job_info.name
        self.looks += 1
        self.seen.append(
            (self.run.kernel.now, number, bar.progress, running[0], times[0],
             self.num_disk())
        )


def execute(sc, replay=None):
    from checks.c05 import make_present

    with engine.Run(sc, replay) as run:
        case = run.case
        executor = sc["executor"]
        run.tags = {executor: 1, case.kind: 1}
        make_present(run, sc.get("present", ()))
        kernel = run.kernel
        monitor = Monitor(run, sc)
        kernel.observers.append(monitor)
        if sc.get("former_job"):
            phase = run.compute("former", how=sc.get("how", "recompute"))
            if phase.status != "until":
                return run
            make_present(run, sc.get("present", ()))
            kernel.now += 2.0
        monitor.armed = True
        run.world.set_faults(sc.get("faults", ()))
        phase = run.prepare(how=sc.get("how", "recompute"))
        run.run(phase)
        what = f"{executor} on {case.kind}"
        if phase.status != "until":
            run.violate("not-terminated", f"{what}: {phase.describe()}")
            return run
        run.world.clear_faults()
        jobs = run.job_dirs()
        jobs = [job for job in jobs if (job / "info.xml").exists()]
        if monitor.node is None and jobs:
            monitor.start()
        if monitor.node is not None:
            monitor.stop_at = kernel.now + 8.0 + sc.get("open_delay", 0)
            kernel.progress()
            status = run.world.run(
                monitor.node, max_time=600.0, max_steps=100_000,
            )
            check(run, phase, monitor, what, jobs, status)
        kernel.observers.remove(monitor)
        run.tags["looks at the monitor"] = monitor.looks
        run.tags["monitor opened during the job"] = int(
            bool(monitor.seen) and monitor.seen[0][0] < monitor.stop_at - 8.0
        ) if monitor.node is not None else 0
        run.finish()
    return run


def check(run, phase, monitor, what, jobs, status):
    node = monitor.node
    if node.error is not None:
        run.violate(
            "monitor-crash", f"{what}: {type(node.error).__name__}: "
            f"{str(node.error)[:200]}",
        )
        return
    if status != "until":
        run.violate("monitor-hangs", f"{what}: {status}")
        return
    if not monitor.seen:
        if jobs:
            run.violate("monitor-not-opened", f"{what}: job {jobs[-1].name} not found")
        return
    previous = 0
    for t, number, progress, running, times, on_disk in monitor.seen:
        where = f"{what}, t={t:.2f}: {number} displayed"
        if number != progress:
            run.violate("progress-bar", f"{where}, progress bar: {progress}")
        if number > on_disk:
            run.violate("too-many", f"{where}, {on_disk} results on disk")
        if number < previous:
            run.violate("decreases", f"{where}, {previous} before")
        previous = number
    executor = phase.topology.executor if phase.topology is not None else None
    if phase.node.exitcode not in (0, 1) or executor is None:
        return
    if not any(job.name == executor.path_job_data.name for job in jobs):
        # nothing to be computed
        return
    _, number, _, running, times, on_disk = monitor.seen[-1]
    where = f"{what}, job ended since several seconds"
    if running != "Running: False":
        run.violate("still-running", f"{where}: {running}")
    if not times.startswith("Total duration"):
        run.violate("times", f"{where}: {times}")
    job = jobs[-1].name
    if monitor.job != executor.path_job_data.name:
        if job in monitor.jobs_at_open:
            run.violate("wrong-job", f"{where}: {monitor.job} displayed, last {job}")
        return
    if monitor.total != executor.num_expected_results:
        run.violate(
            "total", f"{where}: total {monitor.total}, expected "
            f"{executor.num_expected_results}",
        )
    if run.sc["executor"] in WITH_COUNTS and phase.returned:
        if number != len(phase.results):
            run.violate(
                "final-count", f"{where}: {number} displayed, {len(phase.results)} "
                "results",
            )
        if not run.sc.get("fail") and number != monitor.total:
            run.violate(
                "final-total", f"{where}: {number} displayed, total {monitor.total}"
            )
