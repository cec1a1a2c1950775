"""C01: every executor gives the sequential result, each item exactly once"""

from simfi import engine

ID = "C01"
TITLE = "Every executor gives the sequential result, each item exactly once"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 35, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "dependency graph, names and contents derived from the scenario by the harness; "
    "contents computed item by item with fresh work objects outside of the simulation"
)
KINDS = ["im2im", "lite", "piv", "bos", "preproc", "mean", "optflow", "surface"]
WEIGHTS = [4, 5, 1.2, 1, 2, 1.5, 0.4, 1.2]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS)
    spec = sc["case"]
    if spec["kind"] == "preproc" and spec["w"] > 1 and rng.random() < 0.3:
        # overlapping windows
        spec["step"] = rng.randint(1, spec["w"] - 1)
        spec["n"] += 2
    return sc


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        phase = run.compute()
        run.tags = {sc["executor"]: 1, case.kind: 1}
        if phase.status != "until" or not phase.returned:
            run.violate(
                "compute-failed",
                f"{sc['executor']} on {case.kind}: {phase.describe()}",
            )
        else:
            executed, _, results = case.evaluate()
            run.check_results(results)
            run.check_executions(phase, executed)
            run.check_reported(phase, results)
            run.check_mean()
        run.finish()
    return run
