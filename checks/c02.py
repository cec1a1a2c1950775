"""C02: compute always terminates"""

from simfi import cases, engine

ID = "C02"
TITLE = "compute always terminates"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 35, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "the simulator: no strand can go on (deadlock), no work starts or ends during 120 "
    "simulated seconds (30 s and 15000 steps), endless loop without any yield point; "
    "nothing to compute: returned in less than 60 simulated seconds, results unchanged"
)
KINDS = ["im2im", "lite", "piv", "bos", "preproc", "mean", "surface"]
WEIGHTS = [3, 6, 0.5, 1, 4, 1.5, 1.5]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS)
    case = sc["case"]
    kind = case["kind"]
    r = rng.random()
    if kind == "lite" and r < 0.5:
        # couples of images far apart
        d = rng.randint(3, 14)
        case.clear()
        case.update(
            kind="lite", seed=0, mode="succ", first=rng.choice([0, 2]), d=d,
            n=d + rng.randint(1, 12),
        )
        if rng.random() < 0.3:
            case["ind_step"] = rng.choice([2, 3])
        if rng.random() < 0.2:
            case["preproc"] = 1
    elif kind == "preproc" and r < 0.5:
        # wide windows
        w = rng.randint(3, 12)
        case.clear()
        case.update(
            kind="preproc", seed=0, w=w, n=w + rng.randint(0, 8), tool="rescale"
        )
        if rng.random() < 0.6:
            case["step"] = rng.randint(1, w)
        if rng.random() < 0.2:
            case["preproc"] = 1
    elif kind in ("im2im", "lite") and r > 0.8:
        # more items than any limit
        case["n"] = rng.randint(10, 20)
        case.pop("subset", None)
        case.pop("ind_stop", None)
    if rng.random() < 0.3:
        sc["kwargs_executor"] = {"nb_items_queue_max": rng.choice([1, 1, 2, 3])}
    r = rng.random()
    if r < 0.2 and kind != "mean":
        sc["already_done"] = True
    elif r < 0.5 and kind != "mean":
        sc["fail"] = engine.gen_fail(rng, sc)
    return sc


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        run.tags = {sc["executor"]: 1, case.kind: 1}
        done = sc.get("already_done")
        if done:
            run.tags["nothing_to_compute"] = 1
            first = run.compute("first", executor="exec_sequential")
            if first.returned:
                run.finish()
                before = run.snapshot_results()
                t0 = run.kernel.now
        if not done or first.returned:
            phase = run.compute(how="complete" if done else "recompute")
            if phase.status != "until":
                run.violate(
                    "not-terminated",
                    f"{sc['executor']} on {case.kind}: {phase.describe()}",
                )
            elif done:
                if not phase.returned:
                    run.violate(
                        "nothing-to-compute",
                        f"nothing to compute: {sc['executor']} on {case.kind} "
                        f"{phase.describe()}",
                    )
                elif run.kernel.now - t0 > 60.0:
                    run.violate(
                        "nothing-to-compute-slow",
                        f"nothing to compute: {run.kernel.now - t0:.0f} s",
                    )
                if run.snapshot_results() != before:
                    run.violate("results-changed", "nothing to compute: results changed")
        run.finish()
    return run
