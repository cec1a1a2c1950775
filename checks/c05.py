"""C05: parallel processes share the work as a disjoint, complete partition"""

from simfi import cases, engine, seams

ID = "C05"
TITLE = "Parallel processes share the work as a disjoint, complete partition"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 35, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "items selected by the scenario (computed from the spec); executions recorded per "
    "simulated process; parameters given to the sub-processes interpreted by the real "
    "series objects; number of expected results saved in info.xml"
)
KINDS = ["lite", "im2im", "bos", "preproc", "piv", "mean", "optflow", "surface"]
WEIGHTS = [4, 4, 3, 2.5, 1, 1.5, 0.5, 0.5]
MULTI_INDEX = 0.3


def generate(rng, seed, tier):
    split = rng.random() < 0.35
    kinds, weights = KINDS, WEIGHTS
    if split:
        kinds, weights = KINDS[:5] + ["optflow"], [4, 4, 3, 3, 1, 1]
    sc = engine.gen_base(
        rng, kinds, cases.MULTI, weights=weights,
        max_items=rng.choice([4, 7, 10]) if not split else 30,
    )
    spec = sc["case"]
    if spec["kind"] in ("im2im", "mean") and rng.random() < MULTI_INDEX:
        engine.gen_two_indices(rng, spec)
    if spec["kind"] == "preproc" and rng.random() < 0.3 and spec["n"] > 2:
        spec["ind_start"] = spec.get("first", 0) + rng.randint(
            0, spec["n"] - spec["w"]
        )
        spec.pop("ind_stop", None)
    if split:
        sc["split"] = 1
    elif rng.random() < 0.15:
        sc["executor"] = engine.gen_executor(rng, cases.SINGLE)
    sc["nb_max_workers"] = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12])
    if spec["kind"] != "mean":
        names = sorted(cases.make(spec).results())
        r = rng.random()
        if r < 0.5 and names:
            sc["how"] = "complete"
            p = rng.random()
            sc["present"] = [n for n in names if rng.random() < p]
            if rng.random() < 0.1:
                sc["present"] = names
    return sc


def valid(sc):
    spec = sc["case"]
    case = cases.make(spec)
    if spec["kind"] == "mean":
        return bool(case.selected())
    return set(sc.get("present", ())) <= set(case.results())


def make_present(run, names):
    d = run.case.result_dir(run.root)
    if names or run.sc.get("how") == "complete":
        d.mkdir(exist_ok=True)
    for name in names:
        with seams.real.open(d / name, "wb") as file:
            file.write(b"present")


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        if sc.get("split"):
            execute_split(run, sc)
        else:
            execute_run(run, sc)
        run.finish()
    return run


def unit_of(case, name, how):
    """what can be split: the first index, or one item if there is a list of items"""
    if case.spec.get("double") and how != "complete":
        return name[:-5]
    return name


def check_sizes(run, sizes, case):
    """sizes: numbers of units of the processes"""
    if sizes and max(sizes) - min(sizes) > 1:
        run.violate("unbalanced", f"numbers of items of the processes: {sizes}")


def execute_run(run, sc):
    case = run.case
    make_present(run, sc.get("present", ()))
    how = sc.get("how", "recompute")
    run.tags = {sc["executor"]: 1, case.kind: 1, how: 1}
    what = f"{sc['executor']} on {case.kind} ({how})"
    if case.kind == "mean":
        todo = None
        units = case.unit_items()
        executed = set(case.dag())
    else:
        todo = case.to_complete(sc.get("present", ()))
        if how == "recompute":
            todo = set(case.results())
        units = case.unit_items(todo)
        executed = case.needed(todo)
    phase = run.compute(how=how)
    if phase.status != "until" or not phase.returned:
        run.violate("compute-failed", f"{what}: {phase.describe()}")
        return
    # which process executed what
    nodes = {}
    for kind, item, node in run.executions(phase):
        if kind == "work_start" and item in units:
            nodes.setdefault(item, []).append(node)
    missing = sorted(units - set(nodes))
    if missing:
        run.violate("item-lost", f"{what}: given to no process: {missing[:5]}")
    several = {i: n for i, n in nodes.items() if len(n) > 1}
    if several:
        run.violate(
            "item-shared", f"{what}: given several times: {list(several.items())[:3]}"
        )
    run.check_executions(phase, executed)
    children = [n for n in run.kernel.nodes if n.parent is phase.node]
    if sc["executor"] in cases.MULTI:
        per_node = {n.name: set() for n in children}
        for item, names in nodes.items():
            for name in names:
                per_node.setdefault(name, set()).add(unit_of(case, item[1], how))
        idle = [n for n, items in per_node.items() if not items]
        if idle:
            run.violate("idle-process", f"{what}: processes with no item: {idle}")
        check_sizes(run, sorted(len(v) for v in per_node.values()), case)
        if len(children) > max(1, sc["nb_max_workers"]):
            run.violate("too-many-processes", f"{what}: {len(children)} processes")
        run.tags[f"{len(children)} processes"] = 1
    # announced number
    if case.kind == "mean":
        run.check_mean()
        return
    announced = getattr(phase.topology.executor, "num_expected_results", None)
    if announced != len(phase.results):
        run.violate(
            "announced-number", f"{what}: {announced} results expected, "
            f"{len(phase.results)} produced",
        )
    infos = [d / "info.xml" for d in run.job_dirs()]
    if units:
        from fluidimage import ParamContainer

        numbers = [
            ParamContainer(path_file=str(p)).num_expected_results for p in infos
            if p.exists()
        ]
        if len(phase.results) not in numbers:
            run.violate(
                "announced-number", f"{what}: info.xml: {numbers}, "
                f"{len(phase.results)} produced",
            )
    run.tags["results"] = len(phase.results)


def execute_split(run, sc):
    """The splitters alone: parameters for each process, read by a new topology"""
    case = run.case
    make_present(run, sc.get("present", ()))
    how = sc.get("how", "recompute")
    run.tags = {"splitter": 1, case.kind: 1, how: 1}
    nb = sc["nb_max_workers"]
    out = {}

    def keys_of(topo):
        if hasattr(topo, "series"):
            topo.init_series()
            return [
                tuple(serie.get_name_arrays()) for serie in topo.series
            ]
        queue = {}
        topo.fill_queue_paths(None, queue)
        return list(queue)

    def main():
        cls = case.topology_cls()
        params = case.make_params(run.root)
        params.saving.how = how
        topo = cls(params)
        splitter = cls.Splitter(params, nb, topo)
        out["announced"] = splitter.num_expected_results
        if splitter.indices_lists is not None:
            d = run.root / "indices"
            d.mkdir()
            splitter.save_indices_files(d)
        parts = []
        for params_part in splitter.iter_over_new_params():
            path = run.root / f"params{len(parts)}.xml"
            params_part._save_as_xml(path)
            from fluidimage import ParamContainer

            params_part = ParamContainer(path_file=str(path))
            if params_part.saving.how != "from_path_indices":
                params_part.saving.how = "recompute"
            parts.append(keys_of(cls(params_part)))
        out["parts"] = parts

    node = run.world.start(main, "main")
    run.world.run(node)
    what = f"splitter of {case.kind} ({how}) for {nb} processes"
    if "parts" not in out:
        run.violate("split-failed", f"{what}: {node.error!r}")
        return
    names = set(case.results())
    if how == "complete":
        names = case.to_complete(sc.get("present", ()))
    expected = {i[1] for i in case.unit_items(names)}
    if case.kind == "bos":
        expected = {i.split("+")[1] for i in expected}
    parts = [
        ["+".join(key) if isinstance(key, tuple) else key for key in part]
        for part in out["parts"]
    ]
    found = [key for part in parts for key in part]
    missing = sorted(expected - set(found))
    extra = sorted(set(found) - expected)
    twice = sorted({k for k in found if found.count(k) > 1})
    if missing:
        run.violate("item-lost", f"{what}: {missing[:5]}")
    if extra:
        run.violate("item-not-selected", f"{what}: {extra[:5]}")
    if twice:
        run.violate("item-shared", f"{what}: {twice[:5]}")
    sizes = [
        len({unit_of(case, key, how) for key in part})
        for part in parts
    ]
    if 0 in sizes:
        run.violate("idle-process", f"{what}: sizes {sizes}")
    check_sizes(run, sizes, case)
    if len(sizes) > nb:
        run.violate("too-many-processes", f"{what}: {len(sizes)} processes")
    if out["announced"] != len(expected):
        run.violate(
            "announced-number", f"{what}: {out['announced']} announced, "
            f"{len(expected)} to do",
        )
