"""Environment in which fluidimage is imported: the sources of /repo, pure Python.

The extensions built from decorated functions are not used (the pure Python versions
of the working tree are), so nothing has to be compiled and what runs always is the
current tree.
"""

import os
import sys

REPO = os.environ.get("SIMFI_REPO", "/repo")
SRC = REPO + "/src"

ENV = dict(
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    MPLBACKEND="agg",
    PYTHONDONTWRITEBYTECODE="1",
    TRANSONIC_NO_REPLACE="1",
    TZ="UTC",
    FLUIDDYN_PATH_SCRATCH="",
)


def prepare():
    """Set the environment and the import path (before any other import)"""
    os.environ.update(ENV)
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [
        finder
        for finder in sys.meta_path
        if "Meson" not in type(finder).__name__
    ]
    for path in list(sys.path):
        if path.rstrip("/").endswith("/repo/src"):
            sys.path.remove(path)
    sys.path.insert(0, SRC)
    import warnings

    warnings.simplefilter("ignore")
    import matplotlib

    matplotlib.use("agg")


NEEDED = (
    "executors.base topologies.base topologies.piv topologies.bos topologies.mean "
    "topologies.image2image topologies.preproc topologies.log topologies.splitters "
    "run_from_xml gui.monitor data_objects.piv data_objects.preproc image2image"
).split()


def import_fluidimage():
    """Import everything now: no import has to happen during a simulation"""
    import importlib
    from pathlib import Path

    import fluidimage

    assert fluidimage.__file__.startswith(SRC + "/"), fluidimage.__file__
    for name in NEEDED:
        importlib.import_module("fluidimage." + name)
    root = Path(SRC) / "fluidimage"
    for path in sorted(root.rglob("*.py")):
        parts = list(path.relative_to(root).with_suffix("").parts)
        if (
            any(p.startswith("test") or p == "conftest" for p in parts)
            or parts[0] in ("gui", "calibration", "reconstruct", "run", "meson")
            or path.stem in ("correl_pycuda", "synthetic")
            or "__" in path.parent.name
        ):
            continue
        if parts[-1] == "__init__":
            parts.pop()
        try:
            importlib.import_module(".".join(["fluidimage"] + parts))
        except Exception:
            pass
