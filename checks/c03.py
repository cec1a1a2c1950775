"""C03: a failing item only costs the results that depend on it"""

from simfi import cases, engine

ID = "C03"
TITLE = "A failing item only costs the results that depend on it"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 35, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "dependency graph of the scenario evaluated with the failing items; contents "
    "computed item by item outside of the simulation; exception files"
)
KINDS = ["im2im", "lite", "piv", "bos", "preproc", "surface"]
WEIGHTS = [4, 5, 1, 1.5, 2, 1.5]
STOP_EXECUTORS = [
    "exec_sequential", "exec_async", "exec_async_sequential", "exec_async_multi",
]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS)
    if rng.random() < 0.25:
        sc["corrupt"] = engine.gen_corrupt(rng, sc)
    if rng.random() < 0.8 or not sc.get("corrupt"):
        sc["fail"] = engine.gen_fail(rng, sc)
    if sc["executor"] in STOP_EXECUTORS and rng.random() < 0.2:
        sc["stop_if_error"] = True
        sc.pop("corrupt", None)
        sc["fail"] = engine.gen_fail(rng, sc)
    return sc


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        run.tags = {sc["executor"]: 1, case.kind: 1}
        engine.corrupt_images(run, sc)
        phase = run.compute()
        fail = [tuple(f[:2]) for f in sc.get("fail", ())]
        corrupt = [
            item for item in case.dag()
            if item[0] in case.read_works
            and item[1] in [c[0] for c in sc.get("corrupt", ())]
        ]
        executed, ok, results = case.evaluate(fail + corrupt)
        what = f"{sc['executor']} on {case.kind}"
        if phase.status != "until":
            run.violate("not-terminated", f"{what}: {phase.describe()}")
        elif sc.get("stop_if_error"):
            run.tags["stop_if_error"] = 1
            expected = [i for i in fail if i in executed]
            if expected:
                if phase.returned:
                    run.violate("error-not-raised", f"{what}: stop_if_error ignored")
                elif not engine.contains_planned(phase.error):
                    run.violate(
                        "wrong-error", f"{what}: raised {type(phase.error).__name__}: "
                        f"{str(phase.error)[:200]}",
                    )
            elif not phase.returned:
                run.violate("compute-failed", f"{what}: {phase.describe()}")
        elif not phase.returned:
            run.violate("compute-failed", f"{what}: {phase.describe()}")
        else:
            run.check_results(results)
            if not corrupt:
                run.check_executions(phase, executed)
            run.check_reported(phase, results)
            run.check_exception_files(
                [i for i in fail if i in executed], exact=not corrupt
            )
            run.check_exceptions_of_images(sc.get("corrupt", ()))
        run.finish()
    return run
