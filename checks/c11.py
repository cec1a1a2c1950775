"""C11: shared work objects can be used from several threads"""

import threading
from copy import copy
from pathlib import Path

from simfi import cases, engine

ID = "C11"
TITLE = "Shared work objects can be used from several threads"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "for each item: content of the result of the shared work object compared with the "
    "content obtained with a fresh work object processing this item alone, outside of "
    "the simulation (displacements, positions, correlations, errors, all passes)"
)
NOTE = (
    "the threads are preempted between any two lines of the Python code of fluidimage "
    "(works, calcul, data_objects); a call of compiled code is one step"
)
METHODS = ["fftw", "np.fft", "scipy.signal", "scipy.ndimage", "fftw"]


def gen_piv(rng, spec):
    spec["seed"] = rng.randint(0, 3)
    spec["mode"] = "succ"
    spec["n"] = rng.randint(3, 6)
    spec["passes"] = rng.choice([1, 1, 2])
    spec["overlap"] = rng.choice([0.0, 0.0, 0.25])
    spec["correl"] = rng.choice(METHODS)
    if spec["passes"] == 2:
        spec["tps"] = rng.choice([False, True, "last"])
        if spec["tps"]:
            spec["subdom_size"] = rng.choice([20, 200])
    if rng.random() < 0.3:
        spec["displacement_max"] = rng.choice(["50%", "30%"])
        if not spec["correl"].endswith("fft") and spec["correl"] != "fftw":
            del spec["displacement_max"]
    if rng.random() < 0.3:
        spec["peaks"] = 2
    if rng.random() < 0.3:
        spec["threshold"] = 1
    if rng.random() < 0.3:
        spec["mask"] = rng.choice(["4:44, 2:46", "0:40, :"])


def generate(rng, seed, tier):
    sc = {"config": engine.gen_config(rng)}
    kind = rng.choices(
        ["piv", "bos", "optflow", "preproc", "surface"], [6, 2, 1.2, 1.6, 0.3]
    )[0]
    spec = {"kind": kind, "seed": rng.randint(0, 3)}
    if kind == "piv":
        gen_piv(rng, spec)
    elif kind == "optflow":
        spec.update(mode="succ", n=rng.randint(3, 6))
        if rng.random() < 0.4:
            spec["mask"] = "4:44, 2:46"
    elif kind == "bos":
        spec["n"] = rng.randint(3, 6)
        if rng.random() < 0.4:
            spec["reference"] = rng.randrange(spec["n"])
    elif kind == "surface":
        spec["n"] = rng.randint(2, 4)
        if rng.random() < 0.4:
            spec["crop_edge"] = 1
        if rng.random() < 0.3:
            spec["correct_height"] = 1
    else:
        spec["w"] = w = rng.choice([1, 2, 3])
        spec["n"] = w * rng.randint(2, 5)
        spec["tool"] = rng.choice(["rescale", "temporal"])
        if rng.random() < 0.75:
            cases.gen_tools(rng, spec)
    sc["case"] = spec
    sc["executor"] = (
        "exec_async" if rng.random() < 0.15 or kind == "surface" else "threads"
    )
    sc["nb_max_workers"] = rng.choice([2, 2, 3, 4])
    sc["config"]["preempt"] = rng.choice([1, 32, 128])
    sc["config"]["p_switch"] = rng.choice([0.5, 0.8, 1.0])
    sc["config"]["p_delay"] = rng.choice([0.0, 0.1])
    files = rng.choice([
        ["/works/", "/calcul/", "/data_objects/"],
        ["/calcul/"],
        ["/works/"],
        ["/calcul/fft.py", "/calcul/correl.py"],
        ["/works/piv/singlepass.py", "/works/piv/multipass.py", "/works/bos.py"],
    ])
    if kind in ("preproc", "optflow", "surface"):
        files = ["/works/", "/calcul/", "/data_objects/"]
    sc["config"]["preempt_files"] = files
    return sc


def valid(sc):
    spec = sc["case"]
    if spec["kind"] == "bos" and spec.get("reference", 0) >= spec["n"]:
        return False
    if spec["kind"] == "surface":
        return sc["executor"] != "threads" and spec["n"] > 1
    return len(items(cases.make(spec))) > 0


def items(case):
    """list of (name of the result, names of the images)"""
    kind = case.kind
    if kind in ("piv", "optflow"):
        return [(name, (n0, n1)) for _, n0, n1, name in case.couples()]
    if kind == "bos":
        return [(f"bos{n[2:-4]}.h5", (n,)) for n in case.items()]
    return [(names[0], tuple(names)) for _, names in case.subsets()]


def image(case, name):
    return cases.make_image(case.image_kind, case.seed, case.image_names()[name])


class Shared:
    """The work object and how an item is given to it by the topologies"""

    def __init__(self, case, root):
        self.case = case
        self.params = params = case.make_params(root)
        if case.kind in ("piv", "optflow"):
            from fluiddyn.util.serieofarrays import SeriesOfArrays

            self.work = case.topology_cls().WorkVelocimetry(params)
            self.series = SeriesOfArrays(params.series.path, params.series.str_subset)
        elif case.kind == "bos":
            from fluidimage.works.bos import WorkBOS

            self.work = WorkBOS(params)
        else:
            from fluiddyn.util.serieofarrays import SeriesOfArrays
            from fluidimage.works.preproc import WorkPreproc

            self.work = WorkPreproc(params)
            self.series = SeriesOfArrays(
                params.series.path, params.series.str_subset,
                ind_step=params.series.ind_step,
            )

    def argument(self, names):
        """Own arrays for each item, as after the reading of the images"""
        case = self.case
        arrays = tuple(image(case, n).copy() for n in names)
        if case.kind == "bos":
            return (arrays[0], names[0])
        # get_serie_from_index gives always the same object
        serie = copy(self.series.get_serie_from_index(int(names[0][2:4])))
        if case.kind == "preproc":
            from fluidimage.data_objects.preproc import ArraySerie

            return ArraySerie(names=names, arrays=arrays, serie=serie)
        from fluidimage.data_objects.piv import ArrayCouple

        return ArrayCouple(
            names=names, arrays=arrays, params_mask=self.params.mask, serie=serie
        )

    def save(self, result, name, directory):
        if self.case.kind == "bos":
            result.save(str(directory), kind="bos")
        else:
            result.save(str(directory))


def run_threads(run, failing):
    sc = run.sc
    case = run.case
    todo = items(case)
    results = {}
    errors = []
    out = Path(run.root) / "out"

    def main():
        shared = Shared(case, run.root)
        args = {name: shared.argument(names) for name, names in todo}

        def target(mine):
            for name in mine:
                try:
                    results[name] = shared.work.calcul(args[name])
                except Exception as error:  # pylint: disable=W0703
                    errors.append((name, error))

        n = sc["nb_max_workers"]
        names = [name for name, _ in todo]
        threads = [
            threading.Thread(target=target, args=(names[i::n],)) for i in range(n)
        ]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        out.mkdir()
        for name in names:
            if name in results:
                shared.save(results[name], name, out)

    node = run.world.start(main, "main")
    status = run.world.run(node, max_steps=2_000_000)
    if status != "until" or node.error is not None:
        run.violate(
            "failed", f"{case.kind}: {status} {type(node.error).__name__} {node.error}"
        )
        return
    unexpected = [
        (name, error) for name, error in errors
        if failing.get(name) is None or type(error) is not type(failing[name])
    ]
    if unexpected:
        name, error = unexpected[0]
        run.violate(
            "item-failed", f"{case.kind}: {name}: {type(error).__name__}: {error} "
            f"({len(unexpected)} items)",
        )
        return
    found = set(case.list_results(out))
    expected = set(case.results()) - set(failing)
    if found != expected:
        run.violate(
            "names", f"{case.kind}: results {sorted(found ^ expected)[:5]} missing or "
            "unexpected",
        )
    run.check_contents(sorted(found & expected), out, prefix=f"{case.kind}-")


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        run.tags = {sc["executor"]: 1, case.kind: 1}
        if case.kind == "piv":
            run.tags["correl " + sc["case"].get("correl", "fftw")] = 1
            run.tags[f"passes {sc['case'].get('passes', 1)}"] = 1
        # the references also warm up the lazy imports
        # an item whose processing fails has to fail in the same way
        failing = {}
        for name in case.results():
            try:
                case.reference_cached(name)
            except Exception as error:  # pylint: disable=W0703
                failing[name] = error
                run.tags["items failing alone"] = len(failing)
        if sc["executor"] == "threads":
            run_threads(run, failing)
        else:
            phase = run.compute("main")
            if phase.status != "until" or not phase.returned:
                run.violate("compute-failed", phase.describe())
            else:
                run.check_results(
                    [n for n in case.results() if n not in failing],
                    prefix=f"{case.kind}-",
                )
        run.finish()
    return run
