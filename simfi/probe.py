"""Instrumentation of the functions of the works (observation and planned failures)

Installed once by replacing the attribute func_or_cls of each Work: the executors and
the topologies are the real ones; the function runs in between two events.
"""

import types

from . import seams


import zlib

import numpy as np


class PlannedFailure(ValueError):
    """Raised by the simulator in place of a work"""


def ident_of(arg):
    """Stable description of the argument of a work"""
    name = getattr(arg, "sim_ident", None)
    if name is not None:
        return name
    if isinstance(arg, str):
        return arg.rsplit("/", 1)[-1]
    names = getattr(arg, "names", None)
    if isinstance(names, (tuple, list)):
        return "+".join(str(n) for n in names)
    couple = getattr(arg, "couple", None)
    if couple is not None:
        return ident_of(couple)
    passes = getattr(arg, "passes", None)
    if isinstance(passes, list) and passes:
        return ident_of(passes[0])
    data = getattr(arg, "data", None)
    if isinstance(data, dict):
        return "+".join(str(n) for n in data)
    if isinstance(arg, (tuple, list)):
        for part in arg:
            if isinstance(part, (str, tuple)):
                return ident_of(part)
    file_name = getattr(arg, "file_name", None)
    if isinstance(file_name, str):
        return file_name
    return type(arg).__name__


def content_key(arg):
    """Key of the last array of the (nested) argument of a work without any name"""
    last = _last_array(arg)
    return None if last is None else zlib.crc32(np.ascontiguousarray(last).tobytes())


def _last_array(arg):
    if isinstance(arg, np.ndarray):
        return arg
    if isinstance(arg, (tuple, list)):
        for part in reversed(arg):
            ret = _last_array(part)
            if ret is not None:
                return ret
    return None


def classify(kind):
    kinds = (kind,) if isinstance(kind, str) or kind is None else tuple(kind)
    if "one shot" in kinds:
        return "one shot"
    if "global" in kinds:
        return "global"
    if "io" in kinds:
        return "io"
    return "cpu"


class Probe:
    def __init__(self, func, name, kind, eat):
        self._func = func
        self._name = name
        self._class = classify(kind)

    def __deepcopy__(self, memo):
        import copy

        new = Probe.__new__(Probe)
        memo[id(self)] = new
        new._func = copy.deepcopy(self._func, memo)
        new._name = self._name
        new._class = self._class
        return new

    @property
    def __self__(self):
        return self._func.__self__

    @property
    def __func__(self):
        return self._func.__func__

    def __getattr__(self, name):
        if name.startswith("_") and not (
            name.startswith("__") and name.endswith("__")
        ):
            raise AttributeError(name)
        return getattr(self.__dict__["_func"], name)

    def __call__(self, *args, **kwargs):
        k = seams.K
        if k is None or k.current is None:
            return self._func(*args, **kwargs)
        cls = self._class
        if cls in ("one shot", "global"):
            if cls == "one shot":
                k.progress()
                k.event("oneshot", self._name)
                return self._func(*args, **kwargs)
            k.event("global", self._name)
            hook = k.config.get("on_global")
            ret = self._func(*args, **kwargs)
            return ret
        arg = args[0]
        ident = ident_of(arg)
        contents = k.config.get("contents")
        if contents is not None and not isinstance(arg, str):
            if not (isinstance(arg, tuple) and isinstance(arg[0], str)):
                ident = contents.get(content_key(arg), "unknown content")
        node = k.current.node
        running = k.running
        rkey = k.next_call
        k.next_call += 1
        running[rkey] = (cls, self._name, ident, node)
        k.progress()
        k.event("work_start", f"{self._name}|{ident}", node)
        try:
            fail = k.config.get("fail")
            if fail and (self._name, ident) in fail:
                k.count("fault:work_raises")
                k.event("planned-failure", f"{self._name}|{ident}")
                mode = fail[(self._name, ident)]
                raise make_error(mode, self._name, ident)
            p_duration = k.config.get("p_duration", 0.6)
            if "p_duration_of" in k.config:
                p_duration = k.config["p_duration_of"].get(cls, p_duration)
            c = k.choose(8, p=p_duration)
            d = k.config.get("durations", DURATIONS)[c]
            if d:
                k.sleep(d)
            mutate = k.config.get("after_work")
            ret = self._func(*args, **kwargs)
            if contents is not None:
                contents[content_key(ret)] = ident
            if mutate is not None:
                mutate(self._name, ident, arg, ret)
        except BaseException as error:
            running.pop(rkey, None)
            k.progress()
            k.event(
                "work_error", f"{self._name}|{ident}|{type(error).__name__}", node
            )
            raise
        running.pop(rkey, None)
        k.progress()
        k.event("work_end", f"{self._name}|{ident}", node)
        return ret


DURATIONS = (0.0, 0.001, 0.01, 0.03, 0.1, 0.3, 1.0, 2.0)


class Unprintable(Exception):
    pass


def make_error(mode, name, ident):
    if mode == "oserror":
        return OSError(5, "planned failure", ident)
    if mode == "memory":
        return MemoryError(f"planned failure {name} {ident}")
    if mode == "type":
        return TypeError("planned\nfailure", name)
    return PlannedFailure(f"planned failure {name} {ident}")


def install():
    import fluidimage.topologies.base as base

    real_init = base.Work.__init__

    def __init__(self, *args, **kwargs):
        real_init(self, *args, **kwargs)
        if seams.K is None or seams.K.current is None:
            return
        func = self.func_or_cls
        if func is None or isinstance(func, Probe):
            return
        probe = Probe(func, self.name, self.kind, None)
        self.func_or_cls = probe
        kwargs_work = getattr(self, "_kwargs", None)
        if isinstance(kwargs_work, dict) and "func_or_cls" in kwargs_work:
            kwargs_work["func_or_cls"] = probe

    base.Work.__init__ = __init__

    import fluidimage.executors.base as base_executors

    real_init_executor = base_executors.ExecutorBase.__init__

    def __init__executor(self, *args, **kwargs):
        real_init_executor(self, *args, **kwargs)
        k = seams.K
        if k is not None and k.current is not None:
            k.executors.append((k.current.node, self))

    base_executors.ExecutorBase.__init__ = __init__executor
