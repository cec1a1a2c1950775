"""C16: saved results reload equal to what was computed"""

import copy
from pathlib import Path

import numpy as np

from checks.c17 import differences
from simfi import cases, engine

ID = "C16"
TITLE = "Saved results reload equal to what was computed"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "copy of the object returned by the computing work, taken in the process that "
    "computed it, compared with the objects loaded by another process with the public "
    "loaders (MultipassPIVResults, HeavyPIVResults, LightPIVResults, "
    "create_object_from_file), during and after the computation, and after having been "
    "saved again"
)
NOTE = (
    "float64 arrays are saved as float32 (compared after this conversion, otherwise "
    "exactly); correlation maps and secondary peaks are not saved"
)
KINDS = ["piv", "bos", "optflow", "preproc", "im2im"]
IMAGES = ["preproc", "im2im"]
ARRAYS = [
    "xs", "ys", "xs_smooth", "ys_smooth", "deltaxs", "deltays", "correls_max",
    "deltaxs_approx", "deltays_approx", "ixvecs_approx", "iyvecs_approx",
    "deltaxs_final", "deltays_final", "deltaxs_smooth", "deltays_smooth",
    "ixvecs_final", "iyvecs_final",
]
DICTS = ["errors", "deltaxs_wrong", "deltays_wrong"]
LISTS = ["deltaxs_tps", "deltays_tps"]
FINAL = ["ixvecs_final", "iyvecs_final", "deltaxs_final", "deltays_final"]
APPROX = ["ixvecs_approx", "iyvecs_approx", "deltaxs_approx", "deltays_approx"]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=[6, 1, 1.5, 1, 0.4], max_items=4)
    spec = sc["case"]
    kind = spec["kind"]
    if kind == "piv":
        gen_piv(rng, spec)
    elif kind == "optflow" and rng.random() < 0.4:
        spec["mask"] = "4:44, 2:46"
    elif kind == "bos" and rng.random() < 0.3:
        spec["correl"] = rng.choice(["fftw", "np.fft", "scipy.ndimage"])
    if kind not in ["bos"] + IMAGES and rng.random() < 0.15:
        spec["np"] = True
    if rng.random() < 0.25:
        spec["dir"] = rng.choice(["Im ages", "Imag'es", 'Imag"es', "Imagés"])
    # the works have too many lines
    sc["config"].pop("preempt", None)
    r = rng.random()
    if r < 0.2:
        sc["crash"] = engine.gen_crash(rng, "main")
    elif r < 0.5:
        sc["reader"] = rng.choice([0.05, 0.3])
    return sc


def gen_piv(rng, spec):
    r = rng.random()
    if r < 0.3:
        spec["image_kind"] = "uneven"
    elif r < 0.37:
        spec["image_kind"] = "long"
    if rng.random() < 0.15:
        spec["mode"] = "three"
        spec["n"] = min(spec["n"], 3)
        for key in ("d", "ind_start", "ind_stop"):
            spec.pop(key, None)
    spec["passes"] = rng.choice([1, 1, 2, 2, 3])
    spec["overlap"] = rng.choice([0.0, 0.0, 0.25, 0.5])
    spec["correl"] = rng.choice(["fftw", "np.fft", "scipy.signal", "scipy.ndimage"])
    spec.pop("tps", None)
    if rng.random() < 0.6:
        spec["tps"] = rng.choice([True, "last"])
        spec["subdom_size"] = rng.choice([3, 4, 6, 20, 200])
    if rng.random() < 0.25:
        spec["displacement_max"] = rng.choice(["50%", 2, 1.5])
    if rng.random() < 0.6:
        spec["threshold"] = 1
        if rng.random() < 0.5:
            spec["peaks"] = rng.choice([2, 3])
    if rng.random() < 0.3:
        spec["mask"] = rng.choice(["4:44, 2:46", "0:40, :"])


def valid(sc):
    case = cases.make(sc["case"])
    spec = sc["case"]
    if case.kind == "bos":
        ref = spec.get("reference", 0)
        names = case.selected()
        if isinstance(ref, int) and ref >= len(names) or (
            isinstance(ref, str) and ref not in names
        ):
            return False
    return len(case.results()) > 0


def simpler(sc):
    for key in ("crash", "reader"):
        if sc.get(key):
            yield {k: v for k, v in sc.items() if k != key}


# ------------------------------------------------------------------ snapshots


class Snapshot:
    """What has to be saved, copied when the object is returned by the work"""

    def __init__(self, obj):
        self.obj = obj
        passes = getattr(obj, "passes", None) or [obj]
        couple = passes[0].couple
        self.names = tuple(couple.names)
        self.paths = tuple(str(p) for p in couple.paths)
        self.shape_images = tuple(int(n) for n in couple.shape_images)
        self.params = copy.deepcopy(passes[0].params)
        self.passes = [self.copy_pass(p) for p in passes]

    @staticmethod
    def copy_pass(one):
        ret = {}
        for key in ARRAYS:
            value = getattr(one, key, None)
            if value is not None:
                ret[key] = np.array(value)
        for key in DICTS:
            value = getattr(one, key, None)
            if value is not None:
                ret[key] = dict(value)
        for key in LISTS:
            value = getattr(one, key, None)
            if value is not None:
                ret[key] = [np.array(arr) for arr in value]
        return ret


def same_array(mem, loaded):
    mem, loaded = np.asarray(mem), np.asarray(loaded)
    if mem.shape != loaded.shape:
        return f"shapes {mem.shape} and {loaded.shape}"
    if (mem.dtype.kind == "f") != (loaded.dtype.kind == "f"):
        return f"types {mem.dtype} and {loaded.dtype}"
    if mem.dtype.kind == "f":
        mem = mem.astype(np.float32)
        loaded = loaded.astype(np.float32)
        if not np.array_equal(mem, loaded, equal_nan=True):
            return "different values"
    elif not np.array_equal(mem, loaded):
        return "different values"
    return None


def same_value(mem, loaded):
    if isinstance(mem, str) or isinstance(loaded, str):
        return mem == loaded
    mem, loaded = np.float32(mem), np.float32(loaded)
    return mem == loaded or (np.isnan(mem) and np.isnan(loaded))


def diff_pass(mem, loaded, keys=None):
    for key in keys or ARRAYS:
        value = getattr(loaded, key, None)
        if (key in mem) != (value is not None):
            return f"{key}: {'absent' if value is None else 'not computed'}"
        if value is not None:
            diff = same_array(mem[key], value)
            if diff:
                return f"{key}: {diff}"
    if keys is not None:
        return None
    for key in DICTS:
        value = getattr(loaded, key, None)
        if (key in mem) != (value is not None):
            return f"{key}: {'absent' if value is None else 'not computed'}"
        if value is None:
            continue
        mine = {int(k): v for k, v in mem[key].items()}
        try:
            his = {int(k): v for k, v in value.items()}
        except (TypeError, ValueError):
            return f"{key}: keys {list(value)[:3]}"
        if len(his) != len(value) or set(mine) != set(his):
            return f"{key}: vectors {sorted(set(mine) ^ set(his))[:5]}"
        for k, v in mine.items():
            if not same_value(v, his[k]):
                return f"{key}: vector {k}: {v!r} / {his[k]!r}"
    for key in LISTS:
        value = getattr(loaded, key, None)
        if (key in mem) != (value is not None):
            return f"{key}: {'absent' if value is None else 'not computed'}"
        if value is None:
            continue
        if len(value) != len(mem[key]):
            return f"{key}: {len(value)} / {len(mem[key])} subdomains"
        for i, (a, b) in enumerate(zip(mem[key], value)):
            diff = same_array(a, b)
            if diff:
                return f"{key}: subdomain {i} (of {len(value)}): {diff}"
    return None


def diff_couple_params(snap, loaded):
    couple = loaded.couple
    if tuple(couple.names) != snap.names:
        return f"couple.names: {couple.names}"
    if tuple(couple.paths) != snap.paths:
        return f"couple.paths: {couple.paths} / {snap.paths}"
    shape = getattr(couple, "shape_images", None)
    if shape is None or tuple(int(n) for n in shape) != snap.shape_images:
        return f"couple.shape_images: {shape} / {snap.shape_images}"
    # the sequences are loaded as arrays
    diffs = differences(snap.params, with_lists(loaded.params))
    if diffs:
        return str(diffs[:3])
    return None


def with_lists(params):
    params = copy.deepcopy(params)
    todo = [params]
    while todo:
        one = todo.pop()
        for key in one._get_key_attribs():
            if isinstance(one[key], np.ndarray):
                one[key] = one[key].tolist()
        todo.extend(one[tag] for tag in one._tag_children)
    return params


def diff_multipass(snap, loaded):
    if len(loaded.passes) != len(snap.passes):
        return f"{len(loaded.passes)} passes / {len(snap.passes)}"
    for i, (mem, one) in enumerate(zip(snap.passes, loaded.passes)):
        diff = diff_pass(mem, one) or diff_couple_params(snap, one)
        if diff:
            return f"pass {i}: {diff}"
        if getattr(loaded, f"piv{i}", None) is not one:
            return f"attribute piv{i}"
    return diff_couple_params(snap, loaded)


def diff_heavy(snap, loaded):
    return diff_pass(snap.passes[0], loaded) or diff_couple_params(snap, loaded)


def diff_image(mem, loaded, lossy, integers):
    loaded = np.asarray(loaded)
    if mem.shape != loaded.shape:
        return f"shapes {mem.shape} and {loaded.shape}"
    if lossy:
        return None
    # what can be represented in a file
    maximum = 255 if mem.max() < 256 else 65535
    ok = (mem >= 0) & (mem <= maximum) if integers else np.ones(mem.shape, bool)
    expected = np.trunc(mem[ok]) if integers else mem[ok]
    if not np.array_equal(expected, loaded[ok]):
        return "different values"
    return None


# ------------------------------------------------------------------ checks


class Checker:
    def __init__(self, run):
        self.run = run
        self.case = run.case
        self.snapshots = {}  # names of the images -> list of Snapshot
        self.problems = []
        self.nloaded = 0

    def after_work(self, _name, _ident, arg, ret):
        from fluidimage.data_objects.piv import HeavyPIVResults, MultipassPIVResults
        from fluidimage.data_objects.preproc import PreprocResults

        if isinstance(ret, (MultipassPIVResults, HeavyPIVResults)):
            snap = Snapshot(ret)
            self.snapshots.setdefault(snap.names, []).append(snap)
        elif isinstance(ret, PreprocResults):
            for name, array in ret.data.items():
                self.add_image(name, array)
        elif self.case.kind == "im2im" and _name == "im2im":
            self.add_image(arg[0], ret)

    def add_image(self, name, array):
        self.snapshots.setdefault((Path(name).name,), []).append(np.array(array))

    def names_of(self, name_result):
        if self.case.kind == "preproc":
            return tuple(
                name for _, names in self.case.subsets() for name in names
                if self.case.file_name(name) == name_result
            )[:1]
        return {
            n: tuple(item[1].split("+")) for n, item in self.case.results().items()
        }[name_result]

    def compare(self, what, name, compare, *args):
        """The loaded object is equal to one of the computed objects"""
        snaps = self.snapshots.get(self.names_of(name), [])
        if not snaps:
            self.problems.append(("not-computed", f"{name} was never computed"))
            return
        diffs = []
        for snap in snaps:
            diff = compare(snap, *args)
            if not diff:
                return
            diffs.append(diff)
        self.problems.append(
            ("differs", f"{self.case.kind}: {name} loaded with {what}: {diffs[-1]}")
        )

    def load(self, what, function, *args):
        try:
            ret = function(*args)
        except Exception as error:  # pylint: disable=W0703
            self.problems.append((
                "not-loaded", f"{self.case.kind}: {what}: {type(error).__name__}: "
                f"{error}",
            ))
            return None
        self.nloaded += 1
        return ret

    def check_file(self, path, all_loaders=True):
        from fluidimage import create_object_from_file
        from fluidimage.data_objects.piv import (
            HeavyPIVResults,
            LightPIVResults,
            MultipassPIVResults,
        )

        name = path.name
        path = str(path)
        if self.case.kind in IMAGES:
            self.check_image(name, path)
            return None
        multi = None
        if self.case.kind != "optflow":
            multi = self.load(
                "MultipassPIVResults", self.new, MultipassPIVResults, path
            )
            if multi is None:
                return None
            self.compare("MultipassPIVResults", name, diff_multipass, multi)
            if not all_loaders:
                return multi
        heavy = self.load("HeavyPIVResults", self.new, HeavyPIVResults, path)
        if heavy is not None:
            self.compare("HeavyPIVResults", name, diff_heavy, heavy)
        if not all_loaders:
            return None
        other = self.load("create_object_from_file", create_object_from_file, path)
        if other is not None:
            self.compare(
                "create_object_from_file", name,
                diff_heavy if multi is None else diff_multipass, other,
            )
        light = self.load("LightPIVResults", self.new, LightPIVResults, path)
        if light is not None:
            self.compare(
                "LightPIVResults", name,
                lambda snap: diff_pass(snap.passes[-1], light, FINAL)
                or diff_couple_params(snap, light),
            )
        return multi

    def check_image(self, name, path):
        from fluiddyn.io.image import imread_h5
        from fluidimage.util import imread

        image = self.load("imread", imread_h5 if path.endswith(".h5") else imread, path)
        if image is not None:
            lossy = self.case.spec.get("format") == "jpeg"
            integers = self.case.kind == "preproc"
            self.compare("imread", name, diff_image, image, lossy, integers)

    @staticmethod
    def new(cls, path):
        return cls(str_path=path)

    def check_again(self, name, multi, directory):
        """Results loaded, saved again and loaded"""
        from fluidimage.data_objects.piv import LightPIVResults

        directory.mkdir(exist_ok=True)
        saved = self.load("save of a loaded object", multi.save, str(directory))
        if saved is not None:
            if Path(saved).name != name:
                self.problems.append(("name", f"{name} saved again as {saved}"))
                return
            self.check_file(Path(saved), all_loaders=False)
        computed = self.snapshots[self.names_of(name)][-1]
        npasses = len(computed.passes)
        for ind_pass in sorted({-1, 0}):
            keys = FINAL if ind_pass == -1 else APPROX
            if ind_pass == 0 and npasses == 1:
                continue
            if any(key not in computed.passes[ind_pass] for key in keys):
                # nothing could be interpolated
                continue
            self.check_light(
                name, multi, directory / f"light{ind_pass}", ind_pass, keys,
                LightPIVResults,
            )

    def check_light(self, name, multi, directory, ind_pass, keys, cls):
        directory.mkdir(exist_ok=True)

        def make():
            multi.make_light_result(ind_pass).save(str(directory))

        self.load("make_light_result", make)
        files = sorted(directory.iterdir())
        if len(files) != 1:
            self.problems.append(("light", f"{len(files)} light results"))
            return
        light = self.load("light result", self.new, cls, str(files[0]))
        files[0].unlink()
        if light is None:
            return
        self.compare(
            f"LightPIVResults (light result of the pass {ind_pass})", name,
            lambda snap: diff_pass(
                {f: snap.passes[ind_pass][k] for f, k in zip(FINAL, keys)
                 if k in snap.passes[ind_pass]},
                light, FINAL,
            ) or diff_couple_params(snap, light),
        )


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        run.tags = {sc["executor"]: 1, case.kind: 1}
        checker = Checker(run)
        run.kernel.config["after_work"] = checker.after_work
        directory = Path(case.result_dir(run.root))
        if sc.get("crash"):
            run.world.set_faults([sc["crash"]])
        phase = run.prepare("main")
        if sc.get("reader"):
            phase_reader = start_reader(run, checker, phase, directory)
            run.run(phase, phase_reader)
        else:
            run.run(phase)
        run.world.clear_faults()
        run.finish()
        crashed = phase.node.exitcode == -9
        if crashed:
            run.tags["crashed"] = 1
            phase = run.compute("again", how="complete")
            run.finish()
        if not phase.returned:
            run.violate(
                "compute-failed", f"{sc['executor']} on {case.kind}: {phase.describe()}"
            )
        else:
            final(run, checker, directory)
        for sig, message in checker.problems[:1]:
            run.violate(sig, message)
        for snaps in checker.snapshots.values():
            for snap in snaps[:1]:
                if isinstance(snap, Snapshot):
                    tag(run, snap)
    return run


def tag(run, snap):
    last = snap.passes[-1]
    run.tags["computed objects"] = run.tags.get("computed objects", 0) + 1
    if any(p.get("errors") for p in snap.passes):
        run.tags["objects with errors"] = run.tags.get("objects with errors", 0) + 1
    if np.isnan(last["deltaxs"]).all():
        run.tags["objects with only NaN"] = run.tags.get("objects with only NaN", 0) + 1
    if len(last.get("deltaxs_tps", ())) > 10:
        run.tags["more than 10 subdomains"] = 1


def final(run, checker, directory):
    """A new process loads all the results"""
    found = sorted(run.case.list_results(directory))
    expected = {
        name for name in run.case.results()
        if checker.names_of(name) in checker.snapshots
    }
    if set(found) != expected:
        run.violate(
            "not-saved", f"results {sorted(set(found) ^ expected)[:5]} computed and not "
            "saved, or saved with another name",
        )
        return

    def main():
        for name in found:
            multi = checker.check_file(directory / name)
            if multi is not None and not checker.problems:
                checker.check_again(name, multi, Path(run.root) / "again")

    node = run.world.start(main, "loader")
    status = run.world.run(node, max_steps=2_000_000)
    if status != "until" or node.error is not None:
        raise RuntimeError(f"loader: {status} {node.error!r}") from node.error


def start_reader(run, checker, phase, directory):
    """A process loading each result as soon as it is there"""
    import time

    def main():
        done = set()
        while phase.node.exitcode is None and not checker.problems:
            names = run.case.list_results(directory) if directory.exists() else []
            for name in sorted(set(names) - done):
                done.add(name)
                checker.check_file(directory / name, all_loaders=False)
            time.sleep(run.sc["reader"])

    reader = engine.Phase()
    reader.name = "reader"
    reader.start_index = len(run.kernel.events)
    reader.executor = None
    reader.node = run.world.start(main, "reader")
    return reader
