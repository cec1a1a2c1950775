"""C04: crash at any point, then 'complete', gives the uninterrupted results"""

from simfi import cases, engine

ID = "C04"
TITLE = "Crash at any point, then 'complete', gives the uninterrupted results"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "after each crash: every file under the name of a result is complete and has the "
    "expected content; after 'complete': exactly the results of an uninterrupted "
    "computation (computed outside of the simulation); identity and time of the files "
    "complete before 'complete'; executed works = works needed for the missing results"
)
KINDS = ["im2im", "lite", "piv", "bos", "preproc", "mean", "optflow", "surface"]
WEIGHTS = [4, 4, 1.5, 1.5, 2.5, 1, 0.3, 1.5]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS)
    phases = []
    for i in range(rng.choice([1, 1, 1, 2, 2, 3])):
        phases.append(
            {
                "executor": sc["executor"] if rng.random() < 0.5
                else engine.gen_executor(rng, cases.executors_for(sc["case"])),
                "crash": engine.gen_crash(rng, f"run{i}"),
                "how": "complete" if i or rng.random() < 0.3 else "recompute",
            }
        )
    sc["phases"] = phases
    if rng.random() < 0.2:
        sc["holes"] = rng.randint(1, 3)
    return sc


def valid(sc):
    return len(sc["phases"]) > 0


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        run.tags = {sc["executor"]: 1, case.kind: 1}
        expected = set(case.results())
        ok = True
        for i, ph in enumerate(sc["phases"]):
            run.world.set_faults([ph["crash"]])
            phase = run.prepare(f"run{i}", ph["how"], executor=ph["executor"])
            run.run(phase)
            run.world.clear_faults()
            crashed = phase.node.exitcode == -9
            run.tags["crashed" if crashed else "not crashed"] = 1
            run.finish()
            if not crashed and not phase.returned:
                run.violate(
                    "compute-failed", f"{ph['executor']} on {case.kind} "
                    f"({ph['how']}): {phase.describe()}",
                )
                ok = False
                break
            found = set(case.list_results(case.result_dir(run.root)))
            extra = sorted(found - expected)
            if extra:
                run.violate("extra-result", f"after a crash: {extra[:4]}")
            run.check_contents(sorted(found & expected), prefix="after-crash-")
            if run.violations:
                ok = False
                break
        if ok:
            present = set(case.list_results(case.result_dir(run.root)))
            if sc.get("holes"):
                for name in sorted(present)[: sc["holes"]]:
                    (case.result_dir(run.root) / name).unlink()
                present = set(case.list_results(case.result_dir(run.root)))
            before = run.snapshot_results()
            todo = case.to_complete(present)
            phase = run.compute("final", how="complete")
            if phase.status != "until" or not phase.returned:
                run.violate(
                    "complete-failed",
                    f"{sc['executor']} on {case.kind}: {phase.describe()}",
                )
            else:
                run.check_results(expected)
                after = run.snapshot_results()
                for name in sorted(present - todo):
                    if after.get(name) != before[name]:
                        run.violate("rewritten", f"{name} was complete, but rewritten")
                if case.kind == "mean":
                    run.check_mean()
                else:
                    run.check_executions(phase, case.needed(todo))
                    run.check_reported(phase, todo)
                if present and todo:
                    run.tags["partial results completed"] = 1
        run.finish()
    return run
