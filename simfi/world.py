"""A simulated world: a kernel, a scratch directory, helpers for the checks"""

import gc
import os
import random
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np

from . import kernel as kmod
from . import seams
from .kernel import Fault, HarnessError, Kernel, Node

SCRATCH_BASE = None


def scratch_path(pid):
    # same length whatever the OS process: the paths are in the logs
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    base = os.environ.get("SIMFI_SCRATCH", base)
    return f"{base}/simfi_{pid:08d}"


def scratch_base():
    """Scratch directory of this OS process (on a tmpfs when there is one)"""
    global SCRATCH_BASE
    if SCRATCH_BASE is None or SCRATCH_BASE[0] != seams.real.os_getpid():
        pid = seams.real.os_getpid()
        path = scratch_path(pid)
        shutil.rmtree(path, ignore_errors=True)
        os.mkdir(path, 0o700)
        SCRATCH_BASE = (pid, path)
    return SCRATCH_BASE[1]


def remove_scratch_base():
    global SCRATCH_BASE
    if SCRATCH_BASE is not None and SCRATCH_BASE[0] == seams.real.os_getpid():
        shutil.rmtree(SCRATCH_BASE[1], ignore_errors=True)
        SCRATCH_BASE = None


class World:
    def __init__(self, seed, config=None, replay=None, faults=()):
        gc.disable()
        self.kernel = k = Kernel(seed, config, replay)
        # same length whatever the OS process: the paths are in the logs
        self.root = Path(scratch_base()) / "w"
        if self.root.exists():
            shutil.rmtree(self.root)
        self.root.mkdir()
        seams.K = k
        seams.ROOT = str(self.root)
        k.root = str(self.root)
        ctl = Node.__new__(Node)
        ctl.name = "controller"
        ctl.globals = seams.capture_globals()
        k.controller_node = ctl
        self.n = 0
        random.seed(1)
        np.random.seed(1)
        tempfile._name_sequence = _Names()
        self._cwd = os.getcwd()
        self.set_faults(faults)

    def set_faults(self, faults):
        self.kernel.faults = [Fault(spec) for spec in faults]

    def add_faults(self, faults):
        self.kernel.faults.extend(Fault(spec) for spec in faults)

    def clear_faults(self):
        self.kernel.faults = []

    def start(self, fn, name=None, delay=0.0):
        """Start a simulated process whose main function is fn"""
        if name is None:
            name = f"p{self.n}"
            self.n += 1
        node = seams.new_node(self.kernel, name)
        seams.start_node(self.kernel, node, fn, delay)
        return node

    def run(self, *nodes, max_time=3600.0, max_steps=400_000, until=None):
        """Run until the nodes have ended; returns the status"""
        if until is None:
            def until():
                return all(node.exitcode is not None for node in nodes)

        return self.kernel.run(until, max_time, max_steps)

    def drain(self, max_time=600.0, max_steps=200_000):
        """Let the remaining processes (orphans...) end"""
        k = self.kernel
        return k.run(
            lambda: not any(n.alive for n in k.nodes), max_time, max_steps
        )

    def kill_all(self):
        k = self.kernel
        for node in list(k.nodes):
            if node.alive:
                k.kill(node, -9)

    def close(self):
        k = self.kernel
        leaked = k.leaked + len(k.strands)
        for node in k.nodes:
            for f in list(node.h5_files):
                try:
                    seams.real.h5py_File.close(f)
                except Exception:
                    pass
        seams.K = None
        seams.ROOT = None
        shutil.rmtree(self.root, ignore_errors=True)
        self.kernel = None
        return leaked


class _Names:
    def __init__(self):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return f"tmp{self.i:06d}"


def read_tree(path):
    """Content of the files of a directory (bytes)"""
    path = Path(path)
    ret = {}
    if path.exists():
        for p in sorted(path.rglob("*")):
            if p.is_file():
                ret[str(p.relative_to(path))] = p.read_bytes()
    return ret
