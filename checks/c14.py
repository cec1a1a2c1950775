"""C14: a mean image is the exact mean of the selected images"""

import errno

from checks import c10
from simfi import cases, engine, seams

ID = "C14"
TITLE = "A mean image is the exact mean of the selected images"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "exact mean (64-bit integers) of the selected images computed outside of the "
    "simulation; at each creation of the file and at the end"
)
EXECUTORS = cases.ALL_EXECUTORS


def gen_fault(rng, sc):
    executor = sc["executor"]
    r = rng.random()
    if r < 0.45 and executor not in cases.IN_PROCESS and "threading" not in executor:
        letter = "s" if "subproc" in executor else "f"
        n = sc["nb_max_workers"]
        if executor == "exec_async_multi":
            n = 4
        name = f"main/{letter}{rng.randrange(max(1, n))}"
        at = {"node_is": name}
        hi = 300
        if rng.random() < 0.5:
            at["op"] = rng.choice(
                ["work_start", "work_end", "fs.h5", "pipe.", "fs.open", "fs.write"]
            )
            hi = 8
        return {
            "kind": "kill", "target": name, "at": at,
            "n": engine.log_uniform(rng, 1, hi), "torn": round(rng.random(), 2),
        }
    if r < 0.75:
        path, ops = rng.choice([
            ("mean.png", ["fs.open.w", "fs.write", "fs.close", "fs.rep"]),
            ("tmp_sum", ["fs.h5open", "fs.h5write", "fs.h5close"]),
        ])
        return {
            "kind": "oserror", "errno": rng.choice([errno.ENOSPC, errno.EIO]),
            "at": {"op": rng.choice(ops), "path": path}, "n": rng.choice([1, 1, 2]),
            "torn": round(rng.random(), 2), "repeat": rng.random() < 0.4,
        }
    # an image which cannot be read once
    name = rng.choice(cases.make(sc["case"]).selected())
    return {
        "kind": "oserror", "errno": rng.choice([errno.EIO, errno.EMFILE]),
        "at": {"op": "fs.imread", "path": name}, "n": rng.choice([1, 1, 2, 3]),
    }


def generate(rng, seed, tier):
    n = rng.choice([3, 6, 9, 13, 20])
    sc = engine.gen_base(rng, ["mean"], EXECUTORS, max_items=n)
    sc["case"] = spec = {"kind": "mean", "seed": rng.randint(0, 2)}
    engine.gen_images_selection(rng, spec, n)
    if rng.random() < 0.3:
        spec["image_kind"] = rng.choice(["wide", "bright", "widebright"])
    sc["nb_max_workers"] = rng.choice([1, 2, 2, 3, 4, 6])
    r = rng.random()
    if r < 0.15:
        sc["fail"] = engine.gen_fail(rng, sc)
    elif r < 0.3:
        sc["corrupt"] = engine.gen_corrupt(rng, sc)
    elif r < 0.65:
        sc["faults"] = [gen_fault(rng, sc)]
        if rng.random() < 0.2:
            sc["faults"].append(gen_fault(rng, sc))
    elif r < 0.73:
        sc["faults"] = [engine.gen_crash(rng)]
    elif r < 0.88:
        sc["faults"] = [c10.gen_signal(rng, sc)]
    if rng.random() < 0.25:
        sc["how"] = rng.choice(["complete", "complete", "new_dir"])
    return sc


def directed(tier):
    """Many bright images"""
    scs = []
    sizes = [(300, "bright"), (300, "widebright")]
    if tier == "thorough":
        sizes += [(1200, "bright"), (700, "widebright")]
    for n, image_kind in sizes:
        for i, executor in enumerate(EXECUTORS):
            fast = executor in ("exec_sequential", "multi_exec_sync")
            if tier == "quick" and not (
                fast or (executor == "exec_async" and image_kind == "bright")
            ):
                continue
            scs.append({
                "case": {"kind": "mean", "seed": 0, "n": n, "image_kind": image_kind},
                "executor": executor, "nb_max_workers": 4,
                "config": {"p_switch": 0.05, "p_delay": 0.0, "jitter": 0.0},
                "sleep_time": 0.001, "max_steps": 3_000_000, "seed": 500 + i,
            })
    return scs


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        executor = sc["executor"]
        run.tags = {executor: 1}
        engine.corrupt_images(run, sc)
        run.world.set_faults(sc.get("faults", ()))
        looked = []

        def watch(kind, node, detail):
            # the file appears: it has to be the mean
            if kind == "fs.replace.done" and str(detail).endswith("mean.png"):
                looked.append(1)
                check_file(run, f"{executor}, at its creation")

        run.kernel.observers.append(watch)
        phase = run.compute(how=sc.get("how", "recompute"))
        run.world.clear_faults()
        run.kernel.observers.remove(watch)
        check(run, sc, phase, executor)
        if not run.violations:
            run.finish()
            again(run, sc, phase, executor)
        run.finish()
    return run


def path_mean(run):
    return run.root / "Images.mean.png"


def check_file(run, where):
    """There is no mean image, or the exact mean; returns whether there is one"""
    path = path_mean(run)
    if not path.exists():
        return False
    content = cases.read_result(path)
    diff = cases.same(content, {"image": run.case.expected_mean()}, tol=0)
    if diff:
        run.violate("wrong-mean", f"{where}: {diff}")
    return True


def check(run, sc, phase, what):
    case = run.case
    if phase.status != "until":
        run.violate("not-terminated", f"{what}: {phase.describe()}")
        return
    exists = check_file(run, what)
    unreadable = bool(sc.get("fail") or sc.get("corrupt"))
    if sc.get("corrupt"):
        names = {n for n, _ in sc["corrupt"]}
        unreadable = bool(names & set(case.selected()))
    fired = [f for f in run.kernel.fired]
    if any(f["fault"].startswith("signal") for f in fired):
        # no mean image, or the right one
        run.tags["stop request"] = 1
    elif phase.returned:
        if unreadable:
            run.violate(
                "failure-not-reported", f"{what}: images cannot be read, no error"
            )
        if not exists:
            run.violate("no-mean", f"{what}: no error and no mean image")
            return
        topo = phase.topology
        if str(topo.path_result) != str(path_mean(run)):
            run.violate("path", f"{what}: path_result is {topo.path_result}")
        diff = cases.same(
            {"image": topo.result}, {"image": case.expected_mean()}, tol=0
        )
        if diff:
            run.violate("wrong-attribute", f"{what}: topology.result: {diff}")
        total = len(case.selected())
        if phase.results and phase.results[-1] != total:
            run.violate(
                "number-of-images", f"{what}: mean of {phase.results[-1]} images, "
                f"{total} selected",
            )
    else:
        if unreadable and exists:
            run.violate("mean-although-failure", f"{what}: {phase.describe()}")
        if not unreadable and not fired and not run.kernel.stats.get("fault:slow_start"):
            run.violate("compute-failed", f"{what}: {phase.describe()}")
    if unreadable:
        run.tags["images which cannot be read"] = 1
    if fired:
        run.tags["fault " + ("reported" if not phase.returned else "without effect")] = 1


def again(run, sc, phase, what):
    """Once the images can be read, the mean is computed"""
    images = run.root / "Images"
    case = run.case
    for name, index in case.image_names().items():
        with seams.real.open(images / name, "wb") as file:
            file.write(cases.encode_png(case.image_kind, case.seed, index))
    run.kernel.config.pop("fail", None)
    phase = run.compute("again", how="recompute")
    if phase.status != "until" or not phase.returned:
        run.violate("again-failed", f"{what}: {phase.describe()}")
        return
    if not check_file(run, f"{what}, again"):
        run.violate("no-mean", f"{what}, again: no mean image")
