"""C13: the limits on workers and waiting items are respected"""

from simfi import cases, engine

ID = "C13"
TITLE = "The limits on workers and waiting items are respected"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "at each event: number of works being executed (instrumented functions of the "
    "works), number of living processes, lengths of the queues of the topology and, "
    "independently of them, number of items produced whose consumer did not start"
)
KINDS = ["lite", "im2im", "preproc", "bos", "mean", "piv"]
WEIGHTS = [5, 4, 3, 1.5, 2, 0.7]
LIMIT_MULTI = 8  # for each process of a multi executor
MAX_ITEMS_IN_SERVER = 4


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS)
    spec = sc["case"]
    kind = spec["kind"]
    n = rng.choice([6, 12, 25, 40])
    if kind in ("bos", "piv"):
        n = 6
    if kind in ("lite", "piv"):
        spec = sc["case"] = {"kind": kind, "seed": spec["seed"], "n": n}
        spec["mode"] = rng.choice(["succ", "succ", "double"])
        if spec["mode"] == "double":
            spec["n"] = n = n // 2
        elif rng.random() < 0.5:
            spec["d"] = rng.randint(1, min(10, n - 1))
        if rng.random() < 0.3:
            spec["ind_step"] = rng.choice([2, 3])
        if rng.random() < 0.3:
            spec["preproc"] = 1
        if kind == "piv":
            spec["passes"] = 1
    else:
        spec.pop("subset", None)
        spec["n"] = n
        if kind == "preproc":
            spec["w"] = rng.choice([1, 2, 3, 5])
            for key in ("ind_start", "ind_stop", "step"):
                spec.pop(key, None)
    sc["nb_max_workers"] = rng.choice([1, 2, 3, 4, 6])
    sc["kwargs_executor"] = {}
    if rng.random() < 0.6:
        sc["kwargs_executor"] = {"nb_items_queue_max": rng.choice([1, 2, 3, 5, 8])}
    slow = rng.choice(["cpu", "io", None])
    if slow:
        sc["config"]["p_duration_of"] = {slow: 0.97, "cpu io".replace(slow, "").strip(): rng.choice([0.0, 0.2])}
    if rng.random() < 0.25:
        sc["fail"] = engine.gen_fail(rng, sc)
    return sc


def directed(tier):
    """Many items, slow works: the limits are reached with each executor"""
    out = []
    for executor in cases.ALL_EXECUTORS:
        for i, (slow, fast) in enumerate((("cpu", "io"), ("io", "cpu"))):
            for spec in (
                {"kind": "im2im", "seed": 0, "n": 30, "func": "class"},
                {"kind": "lite", "seed": 0, "n": 24, "mode": "succ", "d": 4},
            ):
                if slow == "io" and spec["kind"] == "lite":
                    continue
                out.append({
                    "case": spec, "executor": executor, "nb_max_workers": 1 + i,
                    "config": {
                        "p_switch": 0.3, "p_delay": 0.1, "delay_max": 0.1,
                        "p_duration_of": {slow: 0.97, fast: 0.1}, "p_slow_start": 0.0,
                    },
                    "sleep_time": 0.01,
                    "kwargs_executor": {"nb_items_queue_max": 2 - i},
                })
    return out


def gather(case):
    """Number of items needed together by a work, and produced by each"""
    spec = case.spec
    if case.kind in ("lite", "piv", "optflow"):
        if spec.get("mode", "succ") == "double":
            return 2
        return spec.get("d", 1) + 1
    if case.kind == "preproc":
        return spec.get("w", 1)
    return 1


class Watcher:
    def __init__(self, run, sc):
        self.run = run
        self.k = run.kernel
        self.case = run.case
        self.executor = sc["executor"]
        self.n = sc["nb_max_workers"]
        self.limit = sc["kwargs_executor"].get("nb_items_queue_max")
        if self.limit is None:
            self.limit = max(4 * self.n, 8)
        self.bad = set()
        self.dag = self.case.dag()
        self.consumers = {}
        for item, needs in self.dag.items():
            for need in needs:
                self.consumers.setdefault(need, set()).add(item)
        self.waiting = {}
        # when an item fails, those which need it never start
        self.count_items = not (
            self.executor.startswith("multi_exec") or sc.get("fail")
        )
        self.max_cpu = self.max_io = self.max_proc = self.max_queue = self.max_items = 0

    def violate(self, sig, message):
        if sig not in self.bad:
            self.bad.add(sig)
            self.run.violate(sig, f"{self.executor} on {self.case.kind}: {message}")

    def __call__(self, kind, node, detail):
        if kind == "work_start":
            self.check_workers()
            self.check_processes()
            self.check_queues()
            self.items_started(tuple(detail.split("|")[:2]))
        elif kind in ("work_end", "global", "work_error"):
            self.check_queues()
            if kind == "work_end":
                self.items_ended(tuple(detail.split("|")[:2]))

    # -------------------------------------------------------- workers
    def check_workers(self):
        cpu = [v for v in self.k.running.values() if v[0] == "cpu"]
        io = [v for v in self.k.running.values() if v[0] == "io"]
        n = self.n
        if self.executor == "exec_sequential":
            n = 1
            if len(cpu) + len(io) > 1:
                self.violate("sequential", f"{cpu + io}")
        self.max_cpu = max(self.max_cpu, len(cpu))
        self.max_io = max(self.max_io, len(io))
        for name, works in (("cpu", cpu), ("io", io)):
            if len(works) > n:
                what = [v[1:3] for v in works][:8]
                self.violate(
                    f"too-many-{name}", f"{len(works)} {name} works at the same time, "
                    f"nb_max_workers={self.n}: {what}",
                )

    def check_processes(self):
        if self.executor in cases.IN_PROCESS:
            return
        alive = [x for x in self.k.nodes if x.alive and x.parent is not None]
        self.max_proc = max(self.max_proc, len(alive))
        if self.executor == "exec_async_multi":
            # a process which gave its result may be ending
            return
        if len(alive) > self.n:
            self.violate(
                "too-many-processes", f"{len(alive)} processes, nb_max_workers="
                f"{self.n}",
            )

    # -------------------------------------------------------- queues
    def check_queues(self):
        servers = self.executor.startswith("exec_async_servers")
        for node, executor in self.k.executors:
            if node is None or not node.alive:
                continue
            n, limit = self.n, self.limit
            if self.executor.startswith("multi_exec"):
                if node.parent is None:
                    continue
                n, limit = 1, LIMIT_MULTI
            elif self.executor == "exec_sequential":
                n = 1
            needed = gather(self.case)
            topology = executor.topology
            io = limit + n
            gathered = max(limit, needed) + n
            if self.case.spec.get("preproc"):
                # the needed one can be behind those waiting for image2image
                gathered += io
            cpu = io
            if servers:
                # sent to the servers when there was room
                cpu += MAX_ITEMS_IN_SERVER * n + 1
            for work in topology.works:
                kinds = work.kind
                if kinds is None:
                    kinds = ()
                if "one shot" in kinds or work.output_queue is None:
                    continue
                queues = work.output_queue
                if not isinstance(queues, (tuple, list)):
                    queues = (queues,)
                for queue in queues:
                    length = len(queue)
                    self.max_queue = max(self.max_queue, length)
                    if "global" in kinds:
                        # each waiting item is in at most two couples
                        bound = limit + gathered
                    elif "io" in kinds:
                        bound = max(io, gathered)
                    else:
                        bound = max(cpu, gathered + cpu - io)
                    if length > bound:
                        self.violate(
                            "queue-too-long", f"{length} items wait after the work "
                            f"{work.name} (nb_items_queue_max={limit}, {n} workers, "
                            f"{needed} items needed together, bound {bound})",
                        )

    # -------------------------------------------------------- items in memory
    def items_started(self, item):
        for need in self.dag.get(item, ()):
            left = self.waiting.get(need)
            if left is not None:
                left.discard(item)
                if not left:
                    del self.waiting[need]

    def items_ended(self, item):
        """Counted with the works only, whatever the implementation"""
        if not self.count_items or item not in self.consumers:
            return
        self.waiting[item] = set(self.consumers[item])
        work = item[0]
        items = [other for other in self.waiting if other[0] == work]
        n = 1 if self.executor == "exec_sequential" else self.n
        needed = gather(self.case)
        sent = 0
        if self.executor.startswith("exec_async_servers"):
            sent = (MAX_ITEMS_IN_SERVER + 1) * n
        together = max(len(self.dag[c]) for c in self.consumers[item])
        if together > 1 or (
            # a global work is between them, even for subsets of one image
            self.case.kind == "preproc" and work in self.case.read_works
        ):
            gathered = max(self.limit, needed) + n
            if self.case.spec.get("preproc"):
                gathered += self.limit + n
            bound = gathered + together * (self.limit + gathered + sent + n)
        else:
            bound = self.limit + needed + 2 * n + sent
        self.max_items = max(self.max_items, len(items))
        if len(items) > bound:
            self.violate(
                "too-many-items", f"{len(items)} results of the work {work} wait for "
                f"the next one (nb_items_queue_max={self.limit}, {n} workers, {needed} "
                f"items needed together, bound {bound})",
            )


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        executor = sc["executor"]
        run.tags = {executor: 1, run.case.kind: 1}
        watcher = Watcher(run, sc)
        run.kernel.observers.append(watcher)
        phase = run.compute()
        what = f"{executor} on {run.case.kind}"
        if phase.status != "until":
            run.violate("not-terminated", f"{what}: {phase.describe()}")
        elif not phase.returned and not sc.get("fail"):
            run.violate("compute-failed", f"{what}: {phase.describe()}")
        for key, m in (
            ("several cpu works", watcher.max_cpu), ("several io works", watcher.max_io),
            ("several processes", watcher.max_proc),
        ):
            run.tags[key] = int(m > 1)
        run.tags["queue limit reached"] = int(watcher.max_queue >= watcher.limit)
        run.kernel.observers.remove(watcher)
        run.finish()
    return run
