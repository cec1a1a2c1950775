"""C10: a stop request is honoured cleanly"""

from simfi import cases, engine

ID = "C10"
TITLE = "A stop request is honoured cleanly"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "signal 12 or Ctrl+C at any event of the simulation: end within a bounded simulated "
    "time, number of works started after the signal bounded by the number of works in "
    "progress, results complete and with the expected content, no lock file, recorded "
    "names on disk; then 'complete' computes exactly the missing results"
)
KINDS = ["im2im", "lite", "piv", "bos", "preproc", "mean", "surface"]
WEIGHTS = [5, 4, 0.6, 1, 2, 2.5, 0.8]


def gen_signal(rng, sc):
    at = {}
    r = rng.random()
    if r < 0.45:
        at = {"op": rng.choice(["work_start", "work_end"])}
        n = engine.log_uniform(rng, 1, 20)
    elif r < 0.6:
        at = {"op": "fs."}
        n = engine.log_uniform(rng, 1, 150)
    elif r < 0.7:
        at = {"op": rng.choice(["spawned", "forked", "popen", "thread", "pipe"])}
        n = rng.randint(1, 4)
    else:
        n = engine.log_uniform(rng, 1, 800)
    sig = rng.choice([12, 12, 2])
    return {
        "kind": "signal", "sig": sig, "at": at, "n": n, "target": "main",
        # Ctrl+C: all the processes of the terminal
        "group": sig == 2 or rng.random() < 0.15,
    }


def generate(rng, seed, tier):
    sc = engine.gen_base(
        rng, KINDS, weights=WEIGHTS, max_items=rng.choice([6, 16, 30])
    )
    faults = [gen_signal(rng, sc)]
    if rng.random() < 0.15:
        second = gen_signal(rng, sc)
        if second["sig"] == 2 and faults[0]["sig"] == 2:
            second["sig"] = 12
        faults.append(second)
    sc["faults"] = faults
    sc["complete_with"] = (
        sc["executor"] if rng.random() < 0.5
        else engine.gen_executor(rng, cases.executors_for(sc["case"]))
    )
    return sc


def valid(sc):
    return len(sc["faults"]) > 0


def is_in_family(node, main):
    while node is not None:
        if node is main:
            return True
        node = node.parent
    return False


def max_works_after(sc):
    """Works which can be started after the signal

    Those already given to a worker (or to a task which is going to be executed).
    """
    executor = sc["executor"]
    nb = sc["nb_max_workers"]
    if executor.startswith("multi_exec"):
        # time for the signal to be transmitted
        return nb * 12
    if executor == "exec_sequential":
        return 1
    if executor == "exec_async_sequential":
        return nb + 3
    if "servers" in executor:
        return nb * 5 + nb + 3
    return 2 * nb + 3


def max_works_sub(sc):
    """Same for the sub-process of a multi executor"""
    return 1 if sc["executor"].endswith("_sync") else 4


def check_stop(run, phase):
    """What happened after the signal was handled by the processes"""
    sc = run.sc
    case = run.case
    main = phase.node.name
    handled = set()
    signals = set()
    works = []
    count = {}
    for index, (t, node, kind, detail) in enumerate(run.kernel.events):
        if index < phase.start_index:
            continue
        if kind == "signal-handled":
            handled.add(node)
            if node == main:
                signals.add(detail)
        elif kind == "work_start":
            if main in handled:
                works.append((t, node, detail))
            if node in handled:
                count[node] = count.get(node, 0) + 1
    if main not in handled:
        return
    run.tags["signal handled"] = 1
    limit = max_works_after(sc)
    if len(works) > limit:
        run.violate(
            "works-after-signal", f"{sc['executor']} on {case.kind}: {len(works)} works "
            f"started after the signal (at most {limit} were expected)",
        )
    if works:
        run.tags["works after the signal"] = 1
    if sc["executor"].startswith("multi_exec"):
        limit = max_works_sub(sc)
        for node, number in sorted(count.items()):
            if node != main and number > limit:
                run.violate(
                    "works-after-signal", f"{sc['executor']} on {case.kind}: {number} "
                    f"works started in {node} after the signal (at most {limit} were "
                    "expected)",
                )
    if signals == {"12"} and not phase.returned:
        # a sub-process without handler is ended by the signal
        codes = [n.exitcode for n in run.kernel.nodes]
        if -12 not in codes:
            run.violate(
                "compute-raises", f"{sc['executor']} on {case.kind}: request to stop, "
                f"compute {phase.describe()}",
            )


def check_names(run):
    case = run.case
    if case.kind == "mean":
        return
    result_dir = case.result_dir(run.root)
    found = set(case.list_results(result_dir))
    for job in run.job_dirs():
        for path in sorted(job.glob("results*.txt")):
            names = path.read_text().split()
            ghosts = sorted(n for n in names if not (result_dir / n).exists())
            if ghosts:
                run.violate(
                    "named-not-on-disk", f"{path.name} names {ghosts[:4]}, not on disk"
                )
    return found


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        run.tags = {sc["executor"]: 1, case.kind: 1}
        expected = set(case.results())
        run.world.set_faults(sc["faults"])
        phase = run.compute("main")
        run.world.clear_faults()
        if phase.status != "until":
            run.violate(
                "no-end", f"{sc['executor']} on {case.kind}: does not end after the "
                f"signal ({phase.describe()})",
            )
            run.finish()
            return run
        if any(n.alive for n in run.kernel.nodes):
            run.kernel.progress()
            run.world.drain(max_time=30.0, max_steps=100_000)
            alive = [n.name for n in run.kernel.nodes if n.alive]
            if alive:
                run.violate(
                    "no-end", f"{sc['executor']} on {case.kind}: processes still "
                    f"running after the end: {alive}",
                )
            run.world.kill_all()
        check_stop(run, phase)
        locks = [j.name for j in run.job_dirs() if (j / "is_running.lock").exists()]
        if locks:
            run.violate(
                "lock-left", f"{sc['executor']} on {case.kind}: lock file left after "
                f"the end of the process (exitcode {phase.node.exitcode}, "
                f"{phase.describe()})",
            )
        found = set(case.list_results(case.result_dir(run.root)))
        extra = sorted(found - expected)
        if extra:
            run.violate("extra-result", f"after a signal: {extra[:4]}")
        run.check_contents(sorted(found & expected), prefix="after-signal-")
        check_names(run)
        if case.kind == "mean" and (run.root / "Images.mean.png").exists():
            run.check_mean("after-signal-")
        if run.violations:
            return run

        fired = bool(run.kernel.fired)
        if not fired:
            run.tags["no signal"] = 1
            if not phase.returned:
                run.violate("compute-failed", phase.describe())
                return run
        todo = case.to_complete(found)
        before = run.snapshot_results()
        final = run.compute("final", how="complete", executor=sc["complete_with"])
        if final.status != "until" or not final.returned:
            run.violate(
                "complete-failed",
                f"{sc['complete_with']} on {case.kind}: {final.describe()}",
            )
        else:
            run.check_results(expected)
            after = run.snapshot_results()
            for name in sorted(found - todo):
                if after.get(name) != before[name]:
                    run.violate("rewritten", f"{name} was complete, but rewritten")
            if case.kind == "mean":
                run.check_mean()
            else:
                run.check_executions(final, case.needed(todo))
                run.check_reported(final, todo)
            if found and todo:
                run.tags["partial results completed"] = 1
        run.finish()
    return run
