"""C17: running again from the saved parameter file reproduces the results"""

import os
from pathlib import Path

from simfi import cases, engine, seams

ID = "C17"
TITLE = "Running again from the saved parameter file reproduces the results"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "results and executed works of the second computation compared with those expected "
    "for the saving mode (computed outside of the simulation), class and parameters "
    "with those of the first computation; parameters used by each sub-process compared "
    "with those of its parent"
)
KINDS = ["im2im", "lite", "bos", "preproc", "piv", "mean", "optflow", "surface"]
WEIGHTS = [4, 4, 1.5, 1.5, 1, 1, 0.4, 0.8]
SPLIT_KEYS = {
    "params.series.ind_start", "params.series.ind_stop", "params.series.ind_step",
    "params.images.str_subset",
}
DIRS = [
    "Images", "Images", "my images", "it's", "im & <co>", "été_2024", "1e3", "2024",
    "None", "campaign of the autumn, tank number 3, camera of the left, run 12",
]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS, max_items=rng.choice([2, 4]))
    spec = sc["case"]
    if rng.random() < 0.5:
        spec["dir"] = rng.choice(DIRS)
    for key, p in (("relative", 0.25), ("glob", 0.15), ("path_object", 0.15),
                   ("np", 0.2)):
        if rng.random() < p:
            spec[key] = True
    if spec["kind"] in ("im2im", "bos", "mean") and rng.random() < 0.2:
        if spec["kind"] == "bos":
            spec.pop("reference", None)
        elif not spec.get("double"):
            spec["subset"] = str(rng.randrange(spec["n"]))
    sc["how"] = rng.choice(["recompute", "recompute", "complete", "new_dir", "ask"])
    sc["mode"] = mode = rng.choice([None, None, "recompute", "complete", "new_dir"])
    if mode is None and sc["how"] == "ask":
        sc["answers"] = [rng.choice("ncrNCR")]
    if rng.random() < 0.35:
        sc["compute_kwargs"] = {
            "executor": rng.choice(cases.executors_for(sc["case"])),
            "nb_max_workers": rng.choice([1, 2, 3]),
        }
    if spec["kind"] != "mean":
        names = sorted(cases.make(spec).results())
        sc["removed"] = [n for n in names if rng.random() < 0.4]
    if rng.random() < 0.2:
        sc["crash"] = engine.gen_crash(rng, "main")
    return sc


def valid(sc):
    names = set(cases.make(sc["case"]).results())
    return set(sc.get("removed", ())) <= names


def simpler(sc):
    for key in ("crash", "compute_kwargs", "removed", "mode"):
        if sc.get(key):
            new = dict(sc)
            if key == "mode":
                if sc["how"] == "ask":
                    continue
                new[key] = None
            else:
                new.pop(key)
            yield new
    for key in ("dir", "relative", "glob", "path_object", "np"):
        if key in sc["case"]:
            yield dict(
                sc, case={k: v for k, v in sc["case"].items() if k != key}
            )


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        try:
            if sc["case"].get("relative"):
                os.chdir(run.root)
            execute_run(run, sc)
            run.finish()
        finally:
            os.chdir("/")
    return run


def execute_run(run, sc):
    case = run.case
    executor = sc["executor"]
    run.tags = {executor: 1, case.kind: 1}
    what = f"{executor} on {case.kind} ({sc['how']})"

    def add_compute_kwargs(params):
        if sc.get("compute_kwargs"):
            params._set_child("compute_kwargs", attribs=sc["compute_kwargs"])

    if sc["how"] == "new_dir":
        case.result_dir(run.root).mkdir()
    if sc.get("crash"):
        run.world.set_faults([sc["crash"]])
    phase = run.prepare("main", sc["how"], params_hook=add_compute_kwargs)
    run.run(phase)
    run.world.clear_faults()
    crashed = phase.node.exitcode == -9
    if not crashed and not phase.returned:
        run.violate("not-computed", f"{what}: {phase.describe()}")
        return
    run.finish()
    check_sub_processes(run, what)
    if run.violations:
        return
    first_dir = phase.result_dir
    jobs = run.job_dirs(first_dir) if first_dir is not None else []
    if not jobs:
        run.tags["no job"] = 1
        return
    path_params = jobs[-1] / "params.xml"
    if crashed:
        run.tags["crashed"] = 1
        if not (jobs[-1] / "info.xml").exists():
            # the parameters may be incompletely written
            return
    params = phase.topology.params
    for name in sc.get("removed", ()):
        (first_dir / name).unlink(missing_ok=True)
    again(run, sc, phase, first_dir, path_params, params, what)


def again(run, sc, phase, first_dir, path_params, params, what):
    """python -m fluidimage.run_from_xml params.xml [-m mode]"""
    import importlib

    case = run.case
    k = run.kernel
    how = sc["mode"]
    if how is None:
        how = sc["how"]
        if how == "ask":
            how = {"n": "new_dir", "c": "complete", "r": "recompute"}[
                sc["answers"][0].lower()
            ]
    what += f" then run_from_xml -m {sc['mode']} ({how})"
    present = set(case.list_results(first_dir))
    before = run.snapshot_results(first_dir)
    module = importlib.import_module("fluidimage.run_from_xml")
    outcome = {}

    def main():
        outcome["action"] = module.main()

    start = len(k.executors)
    node = run.world.start(main, "again")
    node.argv = ["run_from_xml", str(path_params)]
    if sc["mode"] is not None:
        node.argv += ["-m", sc["mode"]]
    node.globals.argv = list(node.argv)
    node.answers = list(sc.get("answers", ()))
    second = engine.Phase()
    second.name, second.how = "again", how
    second.node = node
    second.start_index = len(k.events)
    run.run(second)
    if second.status != "until" or "action" not in outcome:
        run.violate("again-failed", f"{what}: {second.describe()}")
        return
    action = outcome["action"]
    second.executor = action.executor_name if hasattr(action, "executor_name") else (
        type(action.executor).__module__.rsplit(".", 1)[-1]
    )
    second.results = list(getattr(action, "results", []))
    run.finish()
    if type(action) is not type(phase.topology):
        run.violate(
            "class", f"{what}: {type(action).__name__}, not "
            f"{type(phase.topology).__name__}",
        )
        return
    diffs = [
        d for d in differences(params, action.params)
        if not d.startswith(("params.saving.how:", "params.saving.path:"))
    ]
    if diffs:
        run.violate("parameters", f"{what}: {diffs[:3]}")
    directory = Path(action.path_dir_result)
    if case.kind == "mean":
        check_mean(run, what)
    elif how == "new_dir":
        if directory.resolve() == first_dir.resolve():
            run.violate("directory", f"{what}: not a new directory")
        run.check_results(set(case.results()), directory)
        if run.snapshot_results(first_dir) != before:
            run.violate("first-results-changed", what)
        run.check_executions(second, set(case.dag()))
    else:
        if directory.resolve() != first_dir.resolve():
            run.violate("directory", f"{what}: results in {directory}")
        run.check_results(set(case.results()), directory)
        todo = set(case.results())
        if how == "complete":
            todo = case.to_complete(present)
            now = run.snapshot_results(directory)
            for name in sorted(present - todo):
                if now.get(name) != before[name]:
                    run.violate("changed", f"{what}: {name} was present")
        run.check_executions(second, case.needed(todo))
    run.tags["mode " + how] = 1
    check_sub_processes(run, what, start)


def check_mean(run, what):
    # the path of the result is made from the path of the images
    paths = sorted(run.root.glob("*.mean*.png"))
    expected = {"image": run.case.expected_mean()}
    if not paths:
        run.violate("missing-mean", what)
    for path in paths:
        diff = cases.same(cases.read_result(path), expected, tol=0)
        if diff:
            run.violate("wrong-mean", f"{what}: {path.name}: {diff}")


def check_sub_processes(run, what, start=0):
    """Each sub-process works with the parameters of its parent"""
    executors = run.kernel.executors[start:]
    for node, executor in executors:
        name = node.name.rsplit("/", 1)[-1]
        if not name.startswith("s") or node.parent is None:
            continue
        parents = [ex for n, ex in executors if n is node.parent]
        if not parents:
            continue
        mine, his = executor.topology.params, parents[-1].topology.params
        diffs = [
            d for d in differences(his, mine)
            if d.split(":")[0] not in SPLIT_KEYS
            and not (run.case.kind == "bos" and same_reference(run, d))
            and not d.startswith("params.saving.how:")
        ]
        if diffs:
            run.violate("parameters-of-sub-process", f"{what}: {diffs[:3]}")
            return
        run.tags["sub-processes"] = run.tags.get("sub-processes", 0) + 1


def same_reference(run, text):
    """The reference (index or name) can be replaced by the path of the image"""
    name = run.case.reference_name()
    return text.startswith("params.reference:") and text.rstrip("'\"").endswith(f"/{name}")


def normalized(value):
    import numpy as np

    if isinstance(value, Path):
        return str(value)
    if isinstance(value, np.generic):
        return value.item()
    if isinstance(value, (tuple, list)):
        return [normalized(v) for v in value]
    return value


def differences(a, b, prefix="params"):
    """Differences between two ParamContainer"""
    out = []
    ignored = {"path_indices_file"}
    keys_a = set(a._get_key_attribs()) - ignored
    keys_b = set(b._get_key_attribs()) - ignored
    if keys_a != keys_b:
        out.append(f"{prefix}: attributes {sorted(keys_a ^ keys_b)}")
    for key in sorted(keys_a & keys_b):
        va, vb = normalized(a[key]), normalized(b[key])
        if va != vb or type(va) is not type(vb) and not (
            isinstance(va, (int, float)) and isinstance(vb, (int, float))
        ):
            out.append(f"{prefix}.{key}: {va!r} / {vb!r}")
    ignored = {"compute_kwargs"}
    tags_a = set(a._tag_children) - ignored
    tags_b = set(b._tag_children) - ignored
    if tags_a != tags_b:
        out.append(f"{prefix}: children {sorted(tags_a ^ tags_b)}")
    for tag in sorted(tags_a & tags_b):
        out.extend(differences(a[tag], b[tag], f"{prefix}.{tag}"))
    return out
