"""C06: a dead or failing worker process is reported and costs only its share"""

from simfi import cases, engine

ID = "C06"
TITLE = "A dead or failing worker process is reported and costs only its share"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "exit codes of the simulated processes, works executed by each of them, results on "
    "disk compared with contents computed outside of the simulation, graph of "
    "dependencies, exception files, error raised by compute"
)
KINDS = ["lite", "im2im", "bos", "preproc", "piv"]
WEIGHTS = [4, 4, 1.5, 2, 1]
EXECUTORS = cases.MULTI + [
    "exec_async_multi", "exec_async_multi", "exec_async_servers",
    "exec_async_servers", "exec_async_servers", "exec_async_servers_threading",
]
MAX_ITEMS_IN_SERVER = 4
PATHS = ["process_0", "params", "len_results_0", "results_0"]


def gen_fault(rng, sc):
    executor = sc["executor"]
    if executor == "exec_async_servers_threading":
        return {
            "kind": "oserror", "errno": rng.choice([13, 28, 24]), "n": rng.randint(1, 3),
            "at": {"op": "fs.open", "path": "process_0"},
        }
    letter = "s" if "subproc" in executor else "f"
    n = sc["nb_max_workers"]
    if executor == "exec_async_multi":
        n = len(cases.make(sc["case"]).results()) + 1
    name = f"main/{letter}{rng.randrange(max(1, n))}"
    r = rng.random()
    if r < 0.2 and executor != "exec_async_multi":
        path = rng.choice(PATHS)
        if executor not in cases.MULTI:
            path = "process_0"
        return {
            "kind": "oserror", "errno": rng.choice([13, 28, 5]),
            "n": engine.log_uniform(rng, 1, 6),
            "at": {"node_is": name, "op": "fs.", "path": path},
        }
    at = {"node_is": name}
    hi = 400
    if executor == "exec_async_multi":
        hi = 20
    if r < 0.45:
        at["op"] = rng.choice(
            ["work_start", "work_end", "pipe.", "fs.write", "fs.rep", "fs.open"]
        )
        hi = {"work": 6, "pipe": 12}.get(at["op"][:4], 30)
    elif r < 0.55:
        at = {"node_is": "main"}
        hi = 600
    return {
        "kind": "kill", "target": name, "at": at, "n": engine.log_uniform(rng, 1, hi),
        "torn": round(rng.random(), 2),
    }


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, EXECUTORS, weights=WEIGHTS)
    sc["faults"] = [gen_fault(rng, sc)]
    while rng.random() < 0.3:
        sc["faults"].append(gen_fault(rng, sc))
    if sc["executor"] == "exec_async_multi" and rng.random() < 0.1:
        # never starts
        sc["config"]["p_slow_start"] = 0.97
    elif rng.random() < 0.2:
        sc["config"]["p_slow_start"] = 0.8
    if rng.random() < 0.08:
        sc["faults"] = []
        sc["config"]["p_slow_start"] = 0.9
    return sc


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        executor = sc["executor"]
        run.tags = {executor: 1, case.kind: 1}
        run.world.set_faults(sc["faults"])
        phase = run.compute()
        run.world.clear_faults()
        what = f"{executor} on {case.kind}"
        if phase.status != "until":
            run.violate("not-terminated", f"{what}: {phase.describe()}")
            run.finish()
            return run
        found = set(case.list_results(case.result_dir(run.root)))
        extra = found - set(case.results())
        if extra:
            run.violate("extra-result", f"{what}: {sorted(extra)[:4]}")
        run.check_contents(sorted(found & set(case.results())))
        topo = phase.topology
        listed = [
            case.canonical(n) for n in run.reported_names(topo.results)
        ] if topo is not None else []
        ghosts = sorted(set(listed) - found)
        if ghosts:
            run.violate(
                "reported-not-on-disk", f"{what}: in topology.results: {ghosts[:4]}"
            )
        missing = set(case.results()) - found
        children = [n for n in run.kernel.nodes if n.parent is phase.node]
        failed = [n for n in children if n.exitcode not in (0, None)]
        if missing:
            run.tags["results lost"] = 1
        if executor in cases.MULTI:
            check_multi(run, phase, what, found, missing, listed, children)
        elif executor == "exec_async_multi":
            check_items(run, phase, what, missing, listed, found, failed, children)
        else:
            check_servers(run, phase, what, missing, listed, found, children)
        run.finish()
    return run


def check_multi(run, phase, what, found, missing, listed, children):
    case = run.case
    bad = [
        (i, n) for i, n in enumerate(children)
        if n.exitcode != 0
    ]
    if bad:
        run.tags["failed process"] = 1
    if phase.returned:
        if missing:
            run.violate(
                "silent-loss", f"{what}: compute returned, lost {sorted(missing)[:4]}"
            )
        if bad:
            run.violate(
                "failure-not-raised",
                f"{what}: exit codes {[n.exitcode for _, n in bad]}, no error",
            )
    else:
        text = str(phase.error)
        if not bad:
            if not run.kernel.fired:
                run.violate("compute-failed", f"{what}: {phase.describe()}")
        for i, node in bad:
            if phase.topology.executor is None or f"idx_process = {i}" not in text:
                run.violate(
                    "process-not-named",
                    f"{what}: process {i} failed ({node.exitcode}); error: "
                    f"{text[:300]}",
                )
    # what the others have done
    items = case.results()
    by_item = {}
    for name, item in items.items():
        by_item.setdefault(item, []).append(name)
    good = {n.name for n in children if n.exitcode == 0}
    done = set()
    for kind, item, node in run.executions(phase):
        if kind == "work_end" and item in by_item and node in good:
            done.update(by_item[item])
    lost = sorted(done - found)
    if lost:
        run.violate("lost-by-others", f"{what}: {lost[:4]}")
    unlisted = sorted({case.canonical(n) for n in done} - set(listed))
    if unlisted:
        run.violate(
            "not-listed", f"{what}: results of the other processes: {unlisted[:4]}"
        )
    # everything except the items of the failed processes
    if not bad and missing and phase.returned is False:
        run.violate("lost-without-failure", f"{what}: {sorted(missing)[:4]}")
    nb = len(case.unit_items())
    nproc = max(1, len(children))
    if children and len(children) == min(run.sc["nb_max_workers"], nb):
        lost_units = len(case.unit_items(missing))
        share = -(-nb // nproc)
        if lost_units > share * len(bad):
            run.violate(
                "lost-too-many",
                f"{what}: {lost_units} items lost, {len(bad)} processes failed over "
                f"{nproc} for {nb} items",
            )


def explained(run, phase, what, missing):
    """Items with an exception file, and whether they explain the missing results"""
    case = run.case
    keys = case.keys()
    titles = [text.split("\n")[0] for _, text in run.exception_files()]
    reported = set()
    for item in case.dag():
        work = item[0].replace(" ", "_")
        if f"Exception for work {work}, key {keys[item]}:" in titles:
            reported.add(item)
    unexplained = [
        name for name in sorted(missing) if not (case.needed([name]) & reported)
    ]
    if unexplained:
        run.violate(
            "loss-not-reported",
            f"{what}: lost without any exception file: {unexplained[:4]} "
            f"(exception files: {titles[:4]})",
        )
    return reported


def check_listed(run, what, listed, found):
    case = run.case
    expected = sorted({case.canonical(n) for n in found})
    if sorted(listed) != expected:
        run.violate(
            "not-listed", f"{what}: results on disk {expected[:6]}, listed "
            f"{sorted(listed)[:6]}",
        )


def check_items(run, phase, what, missing, listed, found, failed, children):
    case = run.case
    if not phase.returned:
        run.violate("compute-failed", f"{what}: {phase.describe()}")
        return
    reported = explained(run, phase, what, missing)
    check_listed(run, what, listed, found)
    # at most one item per dead process
    dead = [
        n for n in failed if n.exitcode != -15
    ]
    allowed = len(dead)
    if run.kernel.stats.get("fault:slow_start"):
        slow = run.kernel.stats["fault:slow_start"]
        allowed += slow // 10
    if len(reported) > allowed:
        run.violate(
            "lost-too-many", f"{what}: {len(reported)} items lost, {len(dead)} processes "
            "died",
        )
    if reported:
        run.tags["item lost with its process"] = 1


def check_servers(run, phase, what, missing, listed, found, children):
    n = run.sc["nb_max_workers"]
    if "threading" in run.sc["executor"]:
        dead = len(run.kernel.fired)
    else:
        # those terminated at the end are not dead before
        dead = sum(
            1 for c in children
            if c.exitcode is not None and c.exitcode not in (-15, 0)
        )
    run.tags[f"{dead} dead servers"] = 1
    if not phase.returned:
        if dead < n:
            run.violate("compute-failed", f"{what}: {phase.describe()}")
        return
    reported = explained(run, phase, what, missing)
    check_listed(run, what, listed, found)
    if dead < n and len(reported) > MAX_ITEMS_IN_SERVER * dead:
        run.violate(
            "lost-too-many",
            f"{what}: {len(reported)} items lost, {dead} dead servers",
        )
