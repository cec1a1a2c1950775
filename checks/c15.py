"""C15: a failed write never leaves a result that looks finished"""

import errno

from simfi import cases, engine

ID = "C15"
TITLE = "A failed write never leaves a result that looks finished"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 35, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "results computed item by item outside of the simulation, minus those whose "
    "writing failed; exception files; complete computation once the fault is gone"
)
KINDS = ["im2im", "lite", "piv", "bos", "preproc", "surface"]
WEIGHTS = [4, 3, 2, 1.5, 2, 1]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS)
    if rng.random() < 0.7:
        sc["faults"] = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            sc["faults"] += engine.gen_write_error(rng, sc)
    else:
        # nothing can be written any more, until the end of the computation
        sc["disk_full"] = {
            "kind": "oserror", "errno": errno.ENOSPC, "repeat": True,
            "at": {"op": rng.choice(["fs.write", "fs.open.w", "fs.rep", "fs.h5"])},
            "n": engine.log_uniform(rng, 1, 150), "torn": round(rng.random(), 2),
        }
    return sc


def valid(sc):
    names = cases.make(sc["case"]).results()
    return all(
        any(f["at"]["path"] == n for n in names) for f in sc.get("faults", ())
    )


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        executor = sc["executor"]
        run.tags = {executor: 1, case.kind: 1}
        what = f"{executor} on {case.kind}"
        full = sc.get("disk_full")
        run.world.set_faults([full] if full else sc["faults"])
        phase = run.compute()
        run.world.clear_faults()
        expected = set(case.results())
        if phase.status != "until":
            run.violate("not-terminated", f"{what}: {phase.describe()}")
            return run
        run.finish()
        failed = set()
        for fired in run.kernel.fired:
            path = fired.get("path")
            if path and not full:
                failed |= {n for n in expected if n in path}
        found = set(case.list_results(case.result_dir(run.root)))
        if full:
            run.tags["disk full"] = 1
            extra = sorted(found - expected)
            if extra:
                run.violate("extra-result", f"{what}, disk full: {extra[:4]}")
            run.check_contents(sorted(found & expected), prefix="disk-full-")
            if phase.returned:
                names = {case.canonical(n) for n in run.reported_names(phase.results)}
                ghosts = sorted(names - {case.canonical(n) for n in found})
                if ghosts:
                    run.violate("reported-not-on-disk", f"{what}: {ghosts[:4]}")
        elif not phase.returned:
            run.violate("compute-failed", f"{what}: {phase.describe()}")
        else:
            check_failed(run, phase, failed, found, expected, what)
        if not run.violations:
            check_complete(run, expected, what)
        run.finish()
    return run


def check_failed(run, phase, failed, found, expected, what):
    """Only the results which could not be written are missing; it is reported"""
    case = run.case
    # a subset which is saved as several images: those written before the error
    units = {case.canonical(n) for n in failed}
    lost = {n for n in expected if case.canonical(n) in units}
    missing = sorted(expected - lost - found)
    if missing:
        run.violate(
            "missing-result", f"{what}: {missing[:5]} missing, errors for "
            f"{sorted(failed)}",
        )
    extra = sorted(found - expected)
    if extra:
        run.violate("extra-result", f"{what}: {extra[:5]}")
    there = sorted(failed & found)
    if there:
        run.violate("written-though-error", f"{what}: {there[:5]}")
    run.check_contents(sorted(found & expected))
    names = sorted({case.canonical(n) for n in run.reported_names(phase.results)})
    ok = sorted({case.canonical(n) for n in expected} - units)
    if names != ok:
        run.violate(
            "reported-results", f"{what}: topology.results {names[:6]}, expected "
            f"{ok[:6]}",
        )
    files = run.exception_files()
    if len(files) != len(units):
        run.violate(
            "exception-files", f"{what}: {len(units)} items not written, exception "
            f"files: {[n for n, _ in files]}",
        )
    for name, text in files:
        if "OSError" not in text or "save" not in text:
            run.violate("exception-files", f"{what}: {name}: {text[-200:]}")


def check_complete(run, expected, what):
    case = run.case
    present = set(case.list_results(case.result_dir(run.root)))
    before = run.snapshot_results()
    todo = case.to_complete(present)
    phase = run.compute("final", how="complete")
    if phase.status != "until" or not phase.returned:
        run.violate("complete-failed", f"{what}: {phase.describe()}")
        return
    run.check_results(expected, prefix="complete-")
    after = run.snapshot_results()
    for name in sorted(present - todo):
        if after.get(name) != before[name]:
            run.violate("rewritten", f"{name} was complete, but rewritten")
    run.check_executions(phase, case.needed(todo), prefix="complete-")
    if todo:
        run.tags["missing results completed"] = 1
