"""Cheap variant of the PIV topology (what it computes is not the subject)

Everything but the two functions computing and saving one item is the real code of
`fluidimage.topologies.piv`.  Importable, so that servers and sub-processes can build
it again from the parameters.
"""

import json
import os
from pathlib import Path

import numpy as np

from fluidimage.data_objects.piv import get_name_piv
from fluidimage.topologies.piv import TopologyPIV


class LiteResult:
    def __init__(self, couple, value):
        self.couple = couple
        self.value = value
        self.file_name = None

    def save(self, path=None, out_format=None, kind=None):
        name = get_name_piv(self.couple.serie, prefix="piv")
        path_file = os.path.join(path, name)
        tmp = path_file + f".{os.getpid()}.tmp"
        with open(tmp, "w", encoding="utf-8") as file:
            file.write(json.dumps(self.value))
        os.replace(tmp, path_file)
        return path_file


def lite_value(name0, arr0, name1, arr1):
    a = np.asarray(arr0).astype(np.int64)
    b = np.asarray(arr1).astype(np.int64)
    weights = 1 + np.arange(a.size).reshape(a.shape)
    return {
        "names": [name0, name1],
        "sums": [int((a * weights).sum()), int((b * weights).sum())],
        "prod": int((a * b * weights).sum()),
    }


class WorkLite:
    def __init__(self, params):
        self.params = params

    @classmethod
    def create_default_params(cls):
        from fluidimage.works.piv import WorkPIV

        return WorkPIV.create_default_params()

    @classmethod
    def _complete_params_with_default(cls, params):
        from fluidimage.works.piv import WorkPIV

        WorkPIV._complete_params_with_default(params)

    def calcul(self, couple):
        arr0, arr1 = couple.get_arrays()
        return LiteResult(
            couple, lite_value(couple.names[0], arr0, couple.names[1], arr1)
        )


class TopologyLite(TopologyPIV):
    """TopologyPIV with a cheap work"""

    _short_name = "lite"
    WorkVelocimetry = WorkLite


class Invert:
    """im2im class used in the workloads (stateless)"""

    def __init__(self, a=1, b=0):
        self.a = a
        self.b = b

    def calcul(self, tuple_image_path):
        path, image = tuple_image_path
        return invert_image(path, image, self.a, self.b)


def invert_image(path, image, a, b):
    """The value depends on the image and on its name"""
    name = Path(str(path)).name
    shift = sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 97
    img = (np.asarray(image).astype(np.int64) * a + b + shift) % 251
    return img.astype(np.uint8)


def invert_function(tuple_image_path):
    path, image = tuple_image_path
    return invert_image(path, image, 3, 1)

