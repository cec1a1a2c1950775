"""Workloads: inputs, parameters, expected executions and expected results

A case is described by a JSON dictionary (`spec`).  What is expected is computed here,
independently of the topologies and the executors: the couples, the names, the graph
of dependencies are derived from the spec, and the reference contents are computed
item by item with fresh work objects, outside of the simulation.
"""

import io
import json
import os
import pickle
from fnmatch import fnmatch
from pathlib import Path

import numpy as np

from . import seams

IMAGES = {}  # (kind, seed, key) -> array
ENCODED = {}
REFERENCES = {}


# ---------------------------------------------------------------- images


def make_image(kind, seed, index):
    key = (kind, seed, index)
    try:
        return IMAGES[key]
    except KeyError:
        pass
    if kind == "tiny":
        rng = np.random.RandomState(1000 * seed + index)
        im = rng.randint(0, 256, (6, 7)).astype(np.uint8)
    elif kind == "particles":
        im = _particles(seed, index)
    elif kind == "uneven":
        # no particles in one image, or in a part of the images
        im = _particles(seed, index).copy()
        if index % 3 == 1:
            im[:, : 12 + 9 * (index % 4)] = 7
        elif index % 7 == 3:
            im[:] = 9
    elif kind == "long":
        # indices larger than 255
        im = np.hstack([_particles(seed + 10 * j, index) for j in range(6)])
    elif kind == "edges":
        # a bright structure whose edges move
        im = np.full((48, 48), 50, dtype=np.uint16)
        x0, x1 = 7 + index % 3, 38 + index % 4
        im[:, x0:x1] = 400 + 40 * _particles(seed, index)[:, x0:x1].astype(np.uint16)
    elif kind == "bright":
        # the sum of many images is large
        im = (255 - np.arange(6).reshape(2, 3) % 3 - index % 2).astype(np.uint8)
    elif kind == "widebright":
        im = (65535 - np.arange(6).reshape(2, 3) - index % 5).astype(np.uint16)
    elif kind == "wide":
        rng = np.random.RandomState(1000 * seed + index)
        im = rng.randint(0, 65536, (6, 7)).astype(np.uint16)
    else:
        raise ValueError(kind)
    IMAGES[key] = im
    return im


def _particles(seed, index, size=48):
    """Displaced particles, the displacement is different for each image"""
    rng = np.random.RandomState(4242 + seed)
    n = 90
    x = rng.uniform(-6, size + 6, n)
    y = rng.uniform(-6, size + 6, n)
    w = rng.uniform(0.5, 1.0, n)
    rng = np.random.RandomState(977 * (seed + 1) + index)
    dx, dy = rng.uniform(-2.0, 2.0, 2)
    shear = rng.uniform(-0.02, 0.02)
    x = x + dx + shear * y
    y = y + dy
    gx = np.arange(size)
    xx, yy = np.meshgrid(gx, gx)
    im = np.zeros((size, size))
    for xi, yi, wi in zip(x, y, w):
        im += wi * np.exp(-((xx - xi) ** 2 + (yy - yi) ** 2) / 2.5)
    im = 220 * im / im.max() + rng.uniform(0, 12, im.shape)
    return np.clip(im, 0, 255).astype(np.uint8)


def encode_png(kind, seed, index):
    key = (kind, seed, index)
    try:
        return ENCODED[key]
    except KeyError:
        pass
    from PIL import Image

    im = make_image(kind, seed, index)
    buf = io.BytesIO()
    if im.dtype == np.uint16:
        Image.fromarray(im).save(buf, "PNG")
    else:
        Image.fromarray(im).save(buf, "PNG")
    ENCODED[key] = buf.getvalue()
    return ENCODED[key]


def png_bytes(array):
    from PIL import Image

    buf = io.BytesIO()
    Image.fromarray(array).save(buf, "PNG")
    return buf.getvalue()


# ---------------------------------------------------------------- reading results


class Unreadable:
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"Unreadable({self.reason})"


def read_result(path):
    """Content of a result file (arrays), or Unreadable"""
    path = str(path)
    try:
        if path.endswith(".h5"):
            with open(path, "rb") as file:
                head = file.read(8)
            if head[:1] == b"{":
                with open(path, encoding="utf-8") as file:
                    return {"json": json.load(file)}
            return read_h5(path)
        from PIL import Image

        with Image.open(path) as im:
            im.load()
            return {"image": np.array(im)}
    except Exception as error:
        return Unreadable(f"{type(error).__name__}: {error}")


def read_h5(path):
    import h5py

    ret = {}
    with seams.real.h5py_File(path, "r") as file:

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                ret[name] = obj[...]

        file.visititems(visit)
        if "couple" in file:
            names = file["couple"].attrs.get("names")
            if names is not None:
                if isinstance(names, bytes):
                    names = names.decode()
                if not isinstance(names, str):
                    names = str(
                        tuple(
                            n.decode() if isinstance(n, bytes) else str(n)
                            for n in names
                        )
                    )
                ret["couple.names"] = names
        if "nb_passes" in file.attrs:
            ret["nb_passes"] = int(file.attrs["nb_passes"])
    return ret


def same(a, b, tol=2e-3):
    """None if equal, or a description of the first difference"""
    if isinstance(a, Unreadable) or isinstance(b, Unreadable):
        return f"{a if isinstance(a, Unreadable) else b}"
    if set(a) != set(b):
        return f"different fields: {sorted(set(a) ^ set(b))[:6]}"
    for key in a:
        va, vb = a[key], b[key]
        if isinstance(va, np.ndarray) and isinstance(vb, np.ndarray):
            if va.shape != vb.shape:
                return f"{key}: shapes {va.shape} and {vb.shape}"
            if va.dtype.kind == "f" or vb.dtype.kind == "f":
                ok = np.allclose(va, vb, rtol=tol, atol=tol, equal_nan=True)
            else:
                ok = np.array_equal(va, vb)
            if not ok:
                return f"{key}: different values"
        else:
            if not _eq(va, vb):
                return f"{key}: {str(va)[:80]} != {str(vb)[:80]}"
    return None


def _eq(a, b):
    try:
        return bool(np.all(a == b))
    except Exception:
        return False


# ---------------------------------------------------------------- cases


class Case:
    kind = None
    pattern = "*"  # names of the results
    postfix = None
    executors = None  # set below
    image_kind = "tiny"
    read_works = ("read array", "read_array", "imread")
    uses_results = True
    content_idents = False  # the arguments of the works do not contain any name

    def __init__(self, spec):
        self.spec = spec
        self.seed = spec.get("seed", 0)

    # inputs -----------------------------------------------------
    def image_names(self):
        """ordered dict name -> index (for make_image)"""
        s = self.spec
        start = s.get("first", 0)
        return {self.im(i): i for i in range(start, start + s["n"])}

    def im(self, i):
        """Name of an image"""
        return f"{self.spec.get('base', 'im')}{i:02d}.png"

    @property
    def dirname(self):
        """Name of the directory of the images"""
        return self.spec.get("dir", "Images")

    def input_path(self, root):
        """What the user gives as the path of the images"""
        path = Path(root) / self.dirname
        if self.spec.get("relative") and os.getcwd() == str(root):
            path = Path(self.dirname)
        if self.spec.get("glob"):
            path = path / "im*.png"
        if self.spec.get("path_object"):
            return path
        return str(path)

    def number(self, value):
        """Numbers computed by the user with Numpy"""
        if self.spec.get("np") and value is not None:
            return np.int64(value) if isinstance(value, int) else np.float64(value)
        return value

    def key_spec(self, *exclude):
        exclude += ("n", "dir", "relative", "glob", "path_object", "np")
        s = {k: v for k, v in self.spec.items() if k not in exclude}
        return json.dumps(s, sort_keys=True)

    def setup(self, root):
        d = Path(root) / self.dirname
        d.mkdir()
        for name, index in self.image_names().items():
            with seams.real.open(d / name, "wb") as file:
                file.write(encode_png(self.image_kind, self.seed, index))
        return d

    # to be implemented
    def topology_cls(self):
        raise NotImplementedError

    def make_params(self, root):
        raise NotImplementedError

    def dag(self):
        """item -> list of the items it needs; item = (work, ident)"""
        raise NotImplementedError

    def results(self):
        """name of the result file -> item producing it"""
        raise NotImplementedError

    def keys(self):
        """item -> key (name of the exception file)"""
        return {item: item[1] for item in self.dag()}

    def references(self):
        """name of the result -> expected content"""
        ret = {}
        for name in self.results():
            ret[name] = self.reference_cached(name)
        return ret

    def reference_key(self, name):
        raise NotImplementedError

    def reference(self, name):
        raise NotImplementedError

    def reference_cached(self, name):
        key = self.reference_key(name)
        try:
            return REFERENCES[key]
        except KeyError:
            value = REFERENCES[key] = self.reference(name)
            return value

    def other_contents(self, name, content):
        """Whether this content is the one of another work saving this result"""
        return False

    def canonical(self, name):
        """Stands for all the files saved together with this one"""
        return name

    def reported(self, results):
        """Names that topology.results has to contain when `results` are produced"""
        return sorted({self.canonical(name) for name in results})

    def input_items(self):
        """Items that several processes may each have to execute (shared inputs)"""
        return {item for item, needs in self.dag().items() if not needs or
                item[0] in ("image2image",)}

    # helpers ----------------------------------------------------
    def evaluate(self, fail=()):
        """executed items and produced results when the items of `fail` raise"""
        fail = set(map(tuple, fail))
        executed, ok = set(), set()
        for item, needs in self.dag().items():
            if all(need in ok for need in needs):
                executed.add(item)
                if item not in fail:
                    ok.add(item)
        results = {name for name, item in self.results().items() if item in ok}
        return executed, ok, results

    def needed(self, names):
        """items needed to produce some results"""
        dag = self.dag()
        results = self.results()
        todo = [results[n] for n in names]
        done = set()
        while todo:
            item = todo.pop()
            if item in done:
                continue
            done.add(item)
            todo.extend(dag[item])
        return done

    def units(self):
        """lists of results saved together by one item"""
        ret = {}
        for name, item in self.results().items():
            ret.setdefault(item, []).append(name)
        return list(ret.values())

    def unit_items(self, names=None):
        """items shared between the processes (for some results)"""
        results = self.results()
        return {results[n] for n in (results if names is None else names)}

    def to_complete(self, present):
        """results that have to be produced by 'complete'"""
        ret = set()
        for names in self.units():
            if not set(names) <= set(present):
                ret.update(names)
        return ret

    def result_dir(self, root):
        return Path(root) / f"{self.dirname}.{self.postfix}"

    def list_results(self, directory):
        d = Path(directory)
        if not d.exists():
            return []
        return sorted(
            p.name for p in d.iterdir() if p.is_file() and self.is_result(p.name)
        )

    def is_result(self, name):
        return fnmatch(name, self.pattern) and not name.startswith(".")

    def n_results(self):
        return len(self.results())


class Im2Im(Case):
    kind = "im2im"
    pattern = "*.png"
    postfix = "im2im"

    def topology_cls(self):
        from fluidimage.topologies.image2image import TopologyImage2Image

        return TopologyImage2Image

    def image_names(self):
        if self.spec.get("double"):
            first = self.spec.get("first", 0)
            k = max(self.spec["double"], 2)
            return {
                f"im{first + i // k:02d}{'abcde'[i % k]}.png": i
                for i in range(k * self.spec["n"])
            }
        return Case.image_names(self)

    def selected(self):
        names = list(self.image_names())
        sub = self.spec.get("subset")
        if self.spec.get("double"):
            if sub is None:
                return names
            part0, part1 = sub.split(",")
            first = self.spec.get("first", 0)
            idx = range(first + self.spec["n"])[parse_slice(part0)]
            letters = "abcde"[: max(self.spec["double"], 2)][parse_slice(part1)]
            return [
                f"im{i:02d}{c}.png" for i in idx for c in letters
                if f"im{i:02d}{c}.png" in names
            ]
        if sub is None:
            return names
        # (indices of the files)
        last = self.spec.get("first", 0) + self.spec["n"]
        idx = range(last)[parse_slice(sub)]
        return [self.im(i) for i in idx if self.im(i) in names]

    def make_params(self, root):
        cls = self.topology_cls()
        params = cls.create_default_params()
        params.images.path = self.input_path(root)
        if self.spec.get("subset") is not None:
            params.images.str_subset = self.spec["subset"]
        if self.spec.get("func") == "function":
            params.im2im = "simfi.lite.invert_function"
        elif self.spec.get("func") == "example":
            params.im2im = "fluidimage.image2image.Im2ImExample"
            params.args_init = ((8, 8), "clip")
        else:
            params.im2im = "simfi.lite.Invert"
            params.args_init = (5, 2)
        return params

    def apply(self, name):
        from . import lite

        im = make_image(self.image_kind, self.seed, self.image_names()[name])
        func = self.spec.get("func")
        if func == "function":
            return lite.invert_image(name, im, 3, 1)
        if func == "example":
            return np.round(im * (255 / im.max())).astype(np.uint8)
        return lite.invert_image(name, im, 5, 2)

    def dag(self):
        d = {}
        for name in self.selected():
            d["read_array", name] = []
            d["im2im", name] = [("read_array", name)]
            d["save", name] = [("im2im", name)]
        return d

    def results(self):
        return {name: ("save", name) for name in self.selected()}

    def reference_key(self, name):
        return ("im2im", self.spec.get("func"), self.seed, self.image_names()[name], name)

    def reference(self, name):
        return {"image": self.apply(name)}


def parse_slice(text):
    parts = [p.strip() for p in text.split(":")]
    if len(parts) == 1:
        return slice(int(text), int(text) + 1)
    return slice(*[int(p) if p else None for p in parts])


class PIV(Case):
    """Couples of images; modes: 'succ' (i, i+d), 'double' (ia, ib), 'three' (i_1a, i_1b)"""

    kind = "piv"
    pattern = "piv_*.h5"
    postfix = "piv"
    class_path = ("fluidimage.topologies.piv", "TopologyPIV")
    work_names = ("read array", "compute piv", "save piv")

    @property
    def image_kind(self):
        return self.spec.get("image_kind", "particles")

    def topology_cls(self):
        import importlib

        return getattr(
            importlib.import_module(self.class_path[0]), self.class_path[1]
        )

    def image_names(self):
        s = self.spec
        first = s.get("first", 0)
        if s.get("mode", "succ") == "double":
            return {
                f"im{first + i // 2:02d}{'ab'[i % 2]}.png": i
                for i in range(2 * s["n"])
            }
        if s.get("mode") == "three":
            return {
                f"im{first + i // 4:02d}_{i // 2 % 2}{'ab'[i % 2]}.png": i
                for i in range(4 * s["n"])
            }
        return {f"im{i:02d}.png": i for i in range(first, first + s["n"])}

    def couples(self):
        """list of (key, name0, name1, name of the result)"""
        s = self.spec
        first = s.get("first", 0)
        step = s.get("ind_step", 1)
        start = s.get("ind_start")
        stop = s.get("ind_stop")
        n = s["n"]
        last = first + n
        ret = []
        if s.get("mode") == "three":
            stop_ = last if stop is None else min(stop, last)
            for i in range(first if start is None else start, stop_, step):
                ret.append(
                    (i, f"im{i:02d}_1a.png", f"im{i:02d}_1b.png",
                     f"piv_{i:02d}1ab.h5")
                )
            return ret
        if s.get("mode", "succ") == "double":
            stop_ = last if stop is None else min(stop, last)
            for i in range(first if start is None else start, stop_, step):
                ret.append(
                    (i, f"im{i:02d}a.png", f"im{i:02d}b.png", f"piv_{i:02d}ab.h5")
                )
            return ret
        d = s.get("d", 1)
        stop_ = last - d if stop is None else min(stop, last - d)
        for i in range(first if start is None else start, stop_, step):
            j = i + d
            ret.append(
                (i, f"im{i:02d}.png", f"im{j:02d}.png", f"piv_{i:02d}-{j:02d}.h5")
            )
        return ret

    def make_params(self, root):
        cls = self.topology_cls()
        params = cls.create_default_params()
        params.series.path = self.input_path(root)
        s = self.spec
        if s.get("mode", "succ") == "double":
            params.series.str_subset = "i, 0:2"
        elif s.get("mode") == "three":
            params.series.str_subset = "i, 1, 0:2"
        else:
            d = s.get("d", 1)
            params.series.str_subset = (
                "i:i+2" if d == 1 else f"i:i+{d + 1}:{d}"
            )
        if s.get("ind_start") is not None:
            params.series.ind_start = self.number(s["ind_start"])
        if s.get("ind_stop") is not None:
            params.series.ind_stop = self.number(s["ind_stop"])
        params.series.ind_step = self.number(s.get("ind_step", 1))
        if s.get("preproc"):
            params.preproc.im2im = "simfi.lite.Invert"
            params.preproc.args_init = (1, 3)
        self.complete_params(params)
        return params

    def complete_params(self, params):
        s = self.spec
        params.piv0.shape_crop_im0 = 16
        params.piv0.grid.overlap = self.number(s.get("overlap", 0.0))
        params.multipass.number = s.get("passes", 1)
        params.multipass.use_tps = s.get("tps", False)
        if s.get("tps"):
            params.multipass.subdom_size = s.get("subdom_size", 200)
            params.multipass.smoothing_coef = 1.0
        if s.get("correl"):
            params.piv0.method_correl = s["correl"]
        if s.get("displacement_max") is not None:
            params.piv0.displacement_max = s["displacement_max"]
        if s.get("peaks"):
            params.piv0.nb_peaks_to_search = s["peaks"]
            params.piv0.particle_radius = 3
        if s.get("threshold"):
            params.fix.threshold_diff_neighbour = 2.0
            params.fix.correl_min = 0.35
        if s.get("mask"):
            params.mask.strcrop = s["mask"]

    def dag(self):
        read, compute, save = self.work_names
        d = {}
        pre = self.spec.get("preproc")
        for key, n0, n1, _ in self.couples():
            for n in (n0, n1):
                d[read, n] = []
                if pre:
                    d["image2image", n] = [(read, n)]
            up = "image2image" if pre else read
            couple = f"{n0}+{n1}"
            d[compute, couple] = [(up, n0), (up, n1)]
            d[save, couple] = [(compute, couple)]
        return d

    def keys(self):
        read, compute, save = self.work_names
        ret = {}
        for key, n0, n1, _ in self.couples():
            for n in (n0, n1):
                ret[read, n] = n
                ret["image2image", n] = n
            couple = f"{n0}+{n1}"
            ret[compute, couple] = key
            ret[save, couple] = key
        return ret

    def results(self):
        save = self.work_names[2]
        return {
            name: (save, f"{n0}+{n1}") for key, n0, n1, name in self.couples()
        }

    def array(self, name):
        from . import lite

        im = make_image(self.image_kind, self.seed, self.image_names()[name])
        if self.spec.get("preproc"):
            im = lite.invert_image(name, im, 1, 3)
        return im

    def reference_key(self, name):
        key = self.key_spec("ind_start", "ind_stop", "ind_step")
        return (self.kind, key, name)

    def _couple_of(self, name):
        for key, n0, n1, nm in self.couples():
            if nm == name:
                return key, n0, n1
        raise KeyError(name)

    def reference(self, name):
        """fresh work objects, one item, outside of the simulation"""
        return self.reference_object(name)[1]

    def reference_object(self, name):
        import contextlib
        import tempfile

        from fluidimage.data_objects.piv import ArrayCouple
        from fluiddyn.util.serieofarrays import SeriesOfArrays

        key, n0, n1 = self._couple_of(name)
        with contextlib.redirect_stdout(io.StringIO()):
            with tempfile.TemporaryDirectory(dir=_tmp_base()) as tmp:
                self.setup(tmp)
                params = self.make_params(tmp)
                work = self.topology_cls().WorkVelocimetry(params)
                series = SeriesOfArrays(
                    params.series.path, params.series.str_subset,
                    ind_start=params.series.ind_start,
                    ind_stop=params.series.ind_stop,
                    ind_step=params.series.ind_step,
                )
                couple = ArrayCouple(
                    names=(n0, n1),
                    arrays=(self.array(n0), self.array(n1)),
                    params_mask=params.mask,
                    serie=series.get_serie_from_index(key),
                )
                result = work.calcul(couple)
                path = os.path.join(tmp, "out")
                os.mkdir(path)
                saved = result.save(path)
                content = read_h5(saved)
        return result, content


def _tmp_base():
    from .world import scratch_base

    return scratch_base()


class Lite(PIV):
    kind = "lite"
    postfix = "lite"
    image_kind = "tiny"
    class_path = ("simfi.lite", "TopologyLite")

    def complete_params(self, params):
        pass

    def reference_object(self, name):
        from . import lite

        key, n0, n1 = self._couple_of(name)
        value = lite.lite_value(n0, self.array(n0), n1, self.array(n1))
        return None, {"json": json.loads(json.dumps(value))}


class OptFlow(PIV):
    kind = "optflow"
    postfix = "optflow"
    class_path = ("fluidimage.topologies.optical_flow", "TopologyOpticalFlow")

    def complete_params(self, params):
        params.filters.displacement_max = 10.0
        params.features.maxCorners = 20
        if self.spec.get("mask"):
            params.mask.strcrop = self.spec["mask"]


class BOS(Case):
    kind = "bos"
    pattern = "bos*.h5"
    postfix = "bos"
    image_kind = "particles"

    def topology_cls(self):
        from fluidimage.topologies.bos import TopologyBOS

        return TopologyBOS

    def selected(self):
        names = list(self.image_names())
        sub = self.spec.get("subset")
        if sub is not None:
            first = self.spec.get("first", 0)
            idx = range(first + self.spec["n"])[parse_slice(sub)]
            names = [f"im{i:02d}.png" for i in idx if f"im{i:02d}.png" in names]
        return names

    def reference_name(self):
        ref = self.spec.get("reference", 0)
        if isinstance(ref, int):
            return self.selected()[ref]
        return ref

    def items(self):
        ref = self.reference_name()
        return [n for n in self.selected() if n != ref]

    def make_params(self, root):
        params = self.topology_cls().create_default_params()
        params.images.path = self.input_path(root)
        if self.spec.get("subset") is not None:
            params.images.str_subset = self.spec["subset"]
        params.reference = self.spec.get("reference", 0)
        params.piv0.shape_crop_im0 = 16
        params.piv0.grid.overlap = 0.0
        params.multipass.number = 1
        params.multipass.use_tps = False
        if self.spec.get("correl"):
            params.piv0.method_correl = self.spec["correl"]
        if self.spec.get("preproc"):
            params.preproc.im2im = "simfi.lite.Invert"
            params.preproc.args_init = (1, 3)
        return params

    def dag(self):
        ref = self.reference_name()
        d = {}
        for n in self.items():
            d["read array", n] = []
            up = ("read array", n)
            if self.spec.get("preproc"):
                d["image2image", n] = [up]
                up = ("image2image", n)
            d["compute bos", n] = [up]
            d["save bos", f"{ref}+{n}"] = [("compute bos", n)]
        return d

    def keys(self):
        ref = self.reference_name()
        ret = {}
        for n in self.items():
            for w in ("read array", "image2image", "compute bos"):
                ret[w, n] = n
            ret["save bos", f"{ref}+{n}"] = n
        return ret

    def results(self):
        ref = self.reference_name()
        return {
            f"bos{n[2:-4]}.h5": ("save bos", f"{ref}+{n}") for n in self.items()
        }

    def reference_key(self, name):
        key = self.key_spec("subset", "reference")
        return ("bos", key, self.reference_name(), name)

    def reference(self, name):
        import contextlib
        import tempfile

        from fluidimage.data_objects.piv import ArrayCoupleBOS
        from fluidimage.works.piv import WorkPIV

        from . import lite

        ref = self.reference_name()
        image_name = f"im{name[3:-3]}.png"
        arrays = []
        for n in (ref, image_name):
            im = make_image(self.image_kind, self.seed, self.image_names()[n])
            if self.spec.get("preproc"):
                im = lite.invert_image(n, im, 1, 3)
            arrays.append(im)
        with contextlib.redirect_stdout(io.StringIO()):
            with tempfile.TemporaryDirectory(dir=_tmp_base()) as tmp:
                self.setup(tmp)
                params = self.make_params(tmp)
                topo_work = WorkPIV(params)
                from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles

                serie = SerieOfArraysFromFiles(
                    params.images.path, params.images.str_subset
                )
                d = Path(params.images.path)
                couple = ArrayCoupleBOS(
                    names=(ref, image_name), arrays=tuple(arrays),
                    params_mask=params.mask, serie=serie,
                    paths=[d / ref, d / image_name],
                )
                result = topo_work.calcul(couple)
                saved = result.save(os.path.join(tmp, "ref.h5"), kind="bos")
                content = read_h5(saved)
        return content


class Surface(Case):
    """The phase of each image is corrected with the one of the previous image"""

    kind = "surface"
    pattern = "*.h5"
    postfix = "surf"
    content_idents = True

    @property
    def image_kind(self):
        return "edges" if self.spec.get("crop_edge") else "particles"

    def topology_cls(self):
        from fluidimage.topologies.surface_tracking import TopologySurfaceTracking

        return TopologySurfaceTracking

    selected = Im2Im.selected

    def setup(self, root):
        d = Case.setup(self, root)
        ref = Path(root) / "Reference"
        ref.mkdir()
        for index in range(2):
            with seams.real.open(ref / f"ref{index}.png", "wb") as file:
                file.write(encode_png("particles", self.seed, 100 + index))
        return d

    def make_params(self, root):
        params = self.topology_cls().create_default_params()
        params.images.path = self.input_path(root)
        params.images.path_ref = str(Path(root) / "Reference")
        s = self.spec
        if s.get("subset") is not None:
            params.images.str_subset = s["subset"]
        p = params.surface_tracking
        p.xmin = p.ymin = 4
        p.xmax = p.ymax = 44
        p.sur = 4
        p.borders = 2
        p.crop_edge = bool(s.get("crop_edge"))
        p.correct_height = bool(s.get("correct_height"))
        if s.get("preproc"):
            params.preproc.im2im = "simfi.lite.Invert"
            params.preproc.args_init = (1, 3)
        return params

    def dag(self):
        d = {}
        previous = None
        for n in self.selected():
            up = ("read_array", n)
            d[up] = []
            if self.spec.get("preproc"):
                d["image2image", n] = [up]
                up = ("image2image", n)
            d["process_frame", n] = [up]
            needs = [("process_frame", n)]
            if previous is not None:
                needs.append(("correct_couple_of_phases", previous))
            d["correct_couple_of_phases", n] = needs
            d["calcul_height", n] = [("correct_couple_of_phases", n)]
            d["set_borders_zero", n] = [("calcul_height", n)]
            d["save", n] = [("set_borders_zero", n)]
            previous = n
        return d

    def results(self):
        return {f"{n}.h5": ("save", n) for n in self.selected()}

    def reference_key(self, name):
        names = self.selected()
        before = names[: names.index(name[:-3]) + 1]
        return ("surface", self.key_spec("subset"), tuple(before))

    def reference(self, name):
        import contextlib
        import tempfile

        from fluidimage.util import imread, imsave_h5
        from fluidimage.works.surface_tracking import WorkSurfaceTracking

        from . import lite

        angle = None
        with contextlib.redirect_stdout(io.StringIO()):
            with tempfile.TemporaryDirectory(dir=_tmp_base()) as tmp:
                self.setup(tmp)
                params = self.make_params(tmp)
                for n in self.selected():
                    # one work object for each image
                    work = WorkSurfaceTracking(params)
                    im = np.array(imread(str(Path(tmp) / self.dirname / n)))
                    if self.spec.get("preproc"):
                        im = lite.invert_image(n, im, 1, 3)
                    new = work.process_frame_func(im)
                    angle = work.correctcouple((new if angle is None else angle, new))
                    if n == name[:-3]:
                        break
                height = work.set_borders_zero_func(work.calculheight_func(angle))
                path = os.path.join(tmp, n)
                imsave_h5(path, height, splitext=False)
                return read_result(path + ".h5")


TOOLS = {
    "python": [
        "sliding_median", "sliding_minima", "sliding_percentile", "temporal_median",
        "temporal_minima", "temporal_percentile", "global_threshold",
        "adaptive_threshold", "rescale_intensity", "equalize_hist_local",
        "equalize_hist_adapt", "gamma_correction", "sharpen",
        "rescale_intensity_tanh",
    ],
    "opencv": [
        "sliding_median", "sliding_minima", "global_threshold", "adaptive_threshold",
    ],
}


def gen_tools(rng, spec):
    """Tools of the preprocessing, with the default parameters"""
    backend = rng.choice(["python", "python", "opencv"])
    if backend != "python":
        spec["backend"] = backend
    tools = [
        tool for tool in TOOLS[backend]
        if spec.get("w", 1) > 1 or not tool.startswith("temporal_")
    ]
    spec["tools"] = rng.sample(tools, rng.choice([1, 1, 2]))
    if rng.random() < 0.3:
        spec["image_kind"] = "wide"


class Preproc(Case):
    """Subsets of w images every `step` images"""

    kind = "preproc"
    postfix = "pre"

    @property
    def image_kind(self):
        return self.spec.get("image_kind", "tiny")

    @property
    def pattern(self):
        return "*" + self.extension(".png")

    def extension(self, ext):
        """Extension of the results"""
        return {"h5": ".h5", "hdf5": ".h5", "tiff": ext + ".tiff"}.get(
            self.spec.get("format"), ext
        )

    def file_name(self, name):
        return name[:-4] + self.extension(name[-4:])

    def topology_cls(self):
        from fluidimage.topologies.preproc import TopologyPreproc

        return TopologyPreproc

    def subsets(self):
        """list of (key, names)"""
        s = self.spec
        w = s.get("w", 1)
        first = s.get("first", 0)
        last = first + s["n"]
        start = s.get("ind_start")
        start = first if start is None else start
        stop = last - w + 1
        if s.get("ind_stop") is not None:
            stop = min(stop, s["ind_stop"])
        return [
            (i, [f"im{j:02d}.png" for j in range(i, i + w)])
            for i in range(start, stop, s.get("step", w))
        ]

    def make_params(self, root):
        s = self.spec
        if s.get("backend"):
            params = self.topology_cls().create_default_params(s["backend"])
        else:
            params = self.topology_cls().create_default_params()
        params.series.path = self.input_path(root)
        w = s.get("w", 1)
        if w == 1:
            params.series.str_subset = "i:i+1"
        else:
            params.series.str_subset = f"i:i+{w}"
        params.series.ind_step = s.get("step", w)
        if s.get("ind_start") is not None:
            params.series.ind_start = self.number(s["ind_start"])
        if s.get("ind_stop") is not None:
            params.series.ind_stop = self.number(s["ind_stop"])
        tool = s.get("tool", "rescale")
        if s.get("tools"):
            for name in s["tools"]:
                params.tools[name].enable = True
            params.tools.sequence = list(s["tools"])
        elif tool == "temporal" and w > 1:
            params.tools.temporal_percentile.enable = True
            params.tools.temporal_percentile.percentile = 50.0
            params.tools.temporal_percentile.window_shape = (w, 2, 2)
            params.tools.sequence = ["temporal_percentile"]
        else:
            params.tools.sliding_median.enable = True
            params.tools.sliding_median.window_size = 3
            params.tools.sequence = ["sliding_median"]
        if s.get("preproc"):
            params.im2im.im2im = "simfi.lite.Invert"
            params.im2im.args_init = (1, 3)
        if s.get("format"):
            params.saving.format = s["format"]
        return params

    def dag(self):
        d = {}
        pre = self.spec.get("preproc")
        for key, names in self.subsets():
            for n in names:
                d["imread", n] = []
                if pre:
                    d["image2image", n] = [("imread", n)]
            up = "image2image" if pre else "imread"
            ident = "+".join(names)
            d["preproc a subset of arrays", ident] = [(up, n) for n in names]
            d["save images", ident] = [("preproc a subset of arrays", ident)]
        return d

    def keys(self):
        ret = {}
        for key, names in self.subsets():
            for n in names:
                ret["imread", n] = n
                ret["image2image", n] = n
            ident = "+".join(names)
            ret["preproc a subset of arrays", ident] = key
            ret["save images", ident] = key
        return ret

    def overlapping(self):
        return self.spec.get("step", self.spec.get("w", 1)) < self.spec.get("w", 1)

    def results(self):
        ret = {}
        for key, names in self.subsets():
            for n in names:
                ret[self.file_name(n)] = ("save images", "+".join(names))
        return ret

    def reported(self, results):
        if not self.overlapping():
            return Case.reported(self, results)
        # the last one of each window
        return sorted(self.file_name(names[-1]) for _, names in self.subsets())

    def other_contents(self, name, content):
        return self.overlapping() and any(
            same(content, self.reference_cached(name, "+".join(names))) is None
            for names in self.windows(name)[:-1]
        )

    def reference_cached(self, name, window=None):
        window = window or self.results()[name][1]
        key = "preproc", self.key_spec("ind_start", "ind_stop"), name, window
        if key not in REFERENCES:
            REFERENCES[key] = self.reference_in(name, window.split("+"))
        return REFERENCES[key]

    def windows(self, name):
        """Windows containing an image"""
        return [
            names for _, names in self.subsets()
            if name in [self.file_name(n) for n in names]
        ]

    def canonical(self, name):
        if self.overlapping():
            return name
        for names in self.windows(name):
            return self.file_name(names[0])
        return name

    def reference_in(self, name, names):
        import contextlib
        import tempfile

        from fluiddyn.util.serieofarrays import SeriesOfArrays
        from fluidimage.data_objects.preproc import ArraySerie
        from fluidimage.works.preproc import WorkPreproc

        from . import lite

        arrays = []
        for n in names:
            im = make_image(self.image_kind, self.seed, self.image_names()[n])
            if self.spec.get("preproc"):
                im = lite.invert_image(n, im, 1, 3)
            arrays.append(im)
        with contextlib.redirect_stdout(io.StringIO()):
            with tempfile.TemporaryDirectory(dir=_tmp_base()) as tmp:
                self.setup(tmp)
                params = self.make_params(tmp)
                params.saving.path = tmp
                params.series.ind_start = "first"
                params.series.ind_stop = None
                work = WorkPreproc(params)
                series = SeriesOfArrays(
                    params.series.path, params.series.str_subset,
                    ind_step=params.series.ind_step,
                )
                key = int(names[0][2:4])
                subset = ArraySerie(
                    names=names, arrays=arrays,
                    serie=series.get_serie_from_index(key),
                )
                result = work.calcul(subset)
                result.save(tmp)
                return read_result(os.path.join(tmp, name))


class Mean(Case):
    kind = "mean"
    pattern = "*.mean.png"
    postfix = "mean"

    @property
    def image_kind(self):
        return self.spec.get("image_kind", "tiny")

    def topology_cls(self):
        from fluidimage.topologies.mean import TopologyMeanImage

        return TopologyMeanImage

    selected = Im2Im.selected

    def make_params(self, root):
        params = self.topology_cls().create_default_params()
        params.images.path = self.input_path(root)
        if self.spec.get("subset") is not None:
            params.images.str_subset = self.spec["subset"]
        return params

    image_names = Im2Im.image_names

    def dag(self):
        return {("read_array", name): [] for name in self.selected()}

    def unit_items(self, names=None):
        return set(self.dag())

    def results(self):
        return {}

    def expected_mean(self):
        arrays = [
            make_image(self.image_kind, self.seed, self.image_names()[n])
            for n in self.selected()
        ]
        total = np.zeros(arrays[0].shape, dtype=np.int64)
        for a in arrays:
            total += a
        return (total / len(arrays)).astype(arrays[0].dtype)

    def references(self):
        return {}


CASES = {
    cls.kind: cls for cls in (
        Im2Im, PIV, Lite, OptFlow, BOS, Surface, Preproc, Mean
    )
}


def make(spec):
    return CASES[spec["kind"]](spec)


ALL_EXECUTORS = [
    "exec_sequential",
    "exec_async",
    "exec_async_sequential",
    "exec_async_multi",
    "exec_async_servers",
    "exec_async_servers_threading",
    "multi_exec_async",
    "multi_exec_sync",
    "multi_exec_subproc",
    "multi_exec_subproc_sync",
]
MULTI = [e for e in ALL_EXECUTORS if e.startswith("multi_exec")]
SUBPROC = [e for e in ALL_EXECUTORS if "subproc" in e]
FORKED = ["multi_exec_async", "multi_exec_sync"]
SINGLE = [e for e in ALL_EXECUTORS if not e.startswith("multi_exec")]
IN_PROCESS = ["exec_sequential", "exec_async", "exec_async_sequential"]


def executors_for(spec):
    # no splitter for the surface tracking
    return SINGLE if spec["kind"] == "surface" else ALL_EXECUTORS
