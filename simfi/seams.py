"""Seams: what the code under test uses to meet the outside world.

Installed before fluidimage is imported.  Each wrapper passes the call through when
it is not called from a strand of the simulated world.
"""

import atexit as _atexit
import builtins
import contextlib
import copy
import errno
import io
import logging
import os
import pickle
import random as _random
import signal as _signal
import stat as _stat
import sys
import threading
import time as _time
import types
import zlib
import traceback
import _thread

from . import kernel as kmod
from .kernel import EPOCH, INF, HarnessError, Node

K = None  # the current kernel
ROOT = None  # scratch directory of the current world (str)

real = types.SimpleNamespace()


class InjectedOSError(OSError):
    pass


# pickled/raised as a plain OSError for the code under test
def injected(err, path=None):
    return InjectedOSError(err, os.strerror(err) + " (simulated)", path)


def cur():
    return K.current if K is not None else None


def register_thread(strand):
    pass


def unregister_thread():
    pass


# ---------------------------------------------------------------- node globals


class NodeGlobals:
    __slots__ = (
        "stdout", "stderr", "ostdout", "ostderr", "argv", "handlers", "level",
        "propagate",
    )


_logger = logging.getLogger("fluidimage")


def capture_globals():
    g = NodeGlobals()
    g.stdout = sys.stdout
    g.stderr = sys.stderr
    g.ostdout = sys.__stdout__
    g.ostderr = sys.__stderr__
    g.argv = sys.argv
    g.handlers = _logger.handlers
    g.level = _logger.level
    g.propagate = _logger.propagate
    return g


def save_globals(node):
    g = node.globals
    if g is None:
        g = node.globals = NodeGlobals()
    g.stdout = sys.stdout
    g.stderr = sys.stderr
    g.ostdout = sys.__stdout__
    g.ostderr = sys.__stderr__
    g.argv = sys.argv
    g.handlers = _logger.handlers
    g.level = _logger.level
    g.propagate = _logger.propagate


def load_globals(node):
    g = node.globals
    sys.stdout = g.stdout
    sys.stderr = g.stderr
    sys.__stdout__ = g.ostdout
    sys.__stderr__ = g.ostderr
    sys.argv = g.argv
    _logger.handlers = g.handlers
    if _logger.level != g.level:
        _logger.setLevel(g.level)
    _logger.propagate = g.propagate


class StdStream(io.TextIOBase):
    """Standard stream of a node: captured, possibly a pipe of limited capacity"""

    def __init__(self, node, name, pipe=False):
        self.node = node
        self.sname = name
        self.pipe = pipe
        self.parts = []
        self.unread = 0
        self.capacity = 65536
        self.closed_writer = False

    def __deepcopy__(self, memo):
        return self

    encoding = "utf-8"
    errors = "strict"

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError("write() argument must be str")
        me = cur()
        if self.pipe and me is not None:
            n = len(text)
            if self.unread + n > self.capacity:
                K.event("pipe-full", self.sname)
                K.wait_until(lambda: self.unread + n <= self.capacity or
                             self.unread == 0)
            self.unread += n
        self.parts.append(text)
        if self.pipe and K is not None:
            K.notify()
        return len(text)

    def getvalue(self):
        return "".join(self.parts)

    def flush(self):
        pass

    def close(self):
        pass


class PipeReader:
    """Parent side of the stdout/stderr pipe of a child (text)"""

    def __init__(self, stream, node):
        self.stream = stream
        self.node = node
        self.pos = 0

    def __deepcopy__(self, memo):
        return self

    def _available(self):
        return len(self.stream.getvalue()) - self.pos

    def read(self, n=-1):
        if cur() is not None:
            K.yield_point("pipe.read", self.stream.sname)
            # the writer blocks when the pipe is full: drain while waiting
            while True:
                self.stream.unread = 0
                K.notify()
                if self.node.exitcode is not None:
                    break
                if n > 0 and self._available() >= n:
                    break
                K.wait_until(
                    lambda: self.node.exitcode is not None or self.stream.unread
                )
        text = self.stream.getvalue()[self.pos:]
        if n is not None and n >= 0:
            text = text[:n]
        self.pos += len(text)
        return text

    def readline(self):
        if cur() is not None:
            K.yield_point("pipe.read", self.stream.sname)
            while True:
                self.stream.unread = 0
                K.notify()
                text = self.stream.getvalue()[self.pos:]
                if "\n" in text or self.node.exitcode is not None:
                    break
                K.wait_until(
                    lambda: self.node.exitcode is not None or self.stream.unread
                )
        text = self.stream.getvalue()[self.pos:]
        idx = text.find("\n")
        if idx >= 0:
            text = text[: idx + 1]
        self.pos += len(text)
        return text

    def readlines(self):
        return self.read().splitlines(keepends=True)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def close(self):
        self.stream.unread = 0
        self.stream.capacity = INF
        if K is not None:
            K.notify()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


# ---------------------------------------------------------------- time


def sim_time():
    me = cur()
    if me is None:
        return real.time()
    return EPOCH + K.now + me.node.clock_offset + _clock_jumps()


def _clock_jumps():
    """The wall clock of the machine is adjusted during the run"""
    offset = 0.0
    for jump in K.config.get("clock_jumps", ()):
        if K.now >= jump[0]:
            offset += jump[1]
            key = f"jump {jump[0]}"
            if key not in K.clock_jumps:
                K.clock_jumps.add(key)
                K.count("fault:clock_jump")
    return offset


def sim_monotonic():
    if cur() is None:
        return real.monotonic()
    return 1000.0 + K.now


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_monotonic_ns():
    return int(sim_monotonic() * 1e9)


def sim_process_time():
    if cur() is None:
        return real.process_time()
    return 0.01 * K.now


def sim_sleep(duration):
    if cur() is None:
        return real.sleep(duration)
    K.event("sleep", round(duration, 6))
    K._faults("sleep", duration, K.current.node, K.current) if K.faults else None
    K.current.node.ops += 1
    extra = K.choose(6, p=K.config["jitter"]) * 0.2 * duration
    K.sleep(duration + extra)


def _sim_datetime(base):
    class SimDatetime(base):
        @classmethod
        def now(cls, tz=None):
            if cur() is None:
                return base.now(tz)
            return base.fromtimestamp(sim_time(), tz)

        @classmethod
        def today(cls):
            return cls.now()

    SimDatetime.__name__ = "datetime"
    SimDatetime.__qualname__ = "datetime"
    return SimDatetime


# ---------------------------------------------------------------- locks


class SimLock:
    """threading.Lock able to block a strand without blocking the simulator"""

    _reentrant = False

    def __init__(self):
        self._real = real.RLock() if self._reentrant else real.Lock()
        self._owner = None
        self._count = 0
        self._waiters = []

    def __deepcopy__(self, memo):
        return type(self)()

    def __copy__(self):
        return type(self)()

    def __reduce__(self):
        raise TypeError(f"cannot pickle '{type(self).__name__}' object")

    def acquire(self, blocking=True, timeout=-1):
        me = cur()
        if me is None:
            ok = self._real.acquire(blocking, timeout)
            return ok
        if self._owner is me and self._reentrant:
            self._count += 1
            return True
        if self._owner is None:
            self._owner = me
            self._count = 1
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else K.now + timeout
        while self._owner is not None:
            if end is not None and K.now >= end:
                return False
            self._waiters.append(me)
            try:
                K.block(None if end is None else end - K.now)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        self._owner = me
        self._count = 1
        return True

    __enter__ = acquire

    def release(self):
        me = cur()
        if me is None:
            if self._owner is not None and self._owner.kernel is not K:
                self._owner = None
                return
            try:
                self._real.release()
            except RuntimeError:
                self._owner = None
            return
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if self._waiters:
                K.wake(self._waiters.pop(0))

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self._owner is not None

    # for threading.Condition
    def _is_owned(self):
        me = cur()
        if me is None:
            return self._real._is_owned() if self._reentrant else True
        return self._owner is me

    def _at_fork_reinit(self):
        pass

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state[0]


class SimRLock(SimLock):
    _reentrant = True


class SimEvent:
    """threading.Event and multiprocessing.Event"""

    def __init__(self, ctx=None):
        self._flag = False

    def __deepcopy__(self, memo):
        return self

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        if cur() is not None:
            K.event("event.set")
        self._flag = True
        if K is not None:
            K.notify()

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if cur() is None:
            if not self._flag:
                raise HarnessError("wait outside of the simulation")
            return True
        K.yield_point("event.wait", None)
        return K.wait_until(lambda: self._flag, timeout)


def make_lock():
    return SimLock() if K is not None else real.Lock()


def make_rlock():
    return SimRLock() if K is not None else real.RLock()


class SimThread:
    """threading.Thread in the simulated world"""

    _n = 0

    def __init__(
        self, group=None, target=None, name=None, args=(), kwargs=None, *,
        daemon=None,
    ):
        me = cur()
        self._node = me.node
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.daemon = bool(daemon)
        self.name = name or f"Thread-{len(self._node.strands)}"
        self._strand = None
        self._done = False
        self.ident = None

    def __deepcopy__(self, memo):
        return self

    def start(self):
        K.yield_point("thread.start", self.name)

        def fn():
            try:
                self.run()
            except SystemExit:
                pass
            except BaseException:
                with contextlib.suppress(ValueError, OSError):
                    sys.stderr.write(traceback.format_exc())
            self._done = True
            K.notify()

        self._strand = K.spawn(self._node, fn, self.name)
        self.ident = self._strand.sid

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self._strand is not None and not self._done

    def join(self, timeout=None):
        K.yield_point("thread.join", self.name)
        K.wait_until(lambda: self._done, timeout)


class StrandThread:
    """What threading.current_thread() returns in the simulated world"""

    def __init__(self, strand):
        self.strand = strand
        self.ident = strand.sid
        self.native_id = strand.sid
        self.name = "MainThread" if strand.is_main else strand.name
        self.daemon = False

    def __deepcopy__(self, memo):
        return self

    def is_alive(self):
        return not self.strand.done

    def getName(self):
        return self.name


def _strand_thread(strand):
    try:
        return strand.thread_stub
    except AttributeError:
        strand.thread_stub = StrandThread(strand)
        return strand.thread_stub


def sim_current_thread():
    me = cur()
    if me is None:
        return real.current_thread()
    return _strand_thread(me)


def sim_main_thread():
    me = cur()
    if me is None:
        return real.main_thread()
    return _strand_thread(me.node.main_strand)


def sim_get_ident():
    me = cur()
    if me is None:
        return _thread.get_ident()
    return 140_000_000_000_000 + 1000 * me.sid


class _ThreadMeta(type):
    def __call__(cls, *args, **kwargs):
        if cls is Thread and cur() is not None:
            return SimThread(*args, **kwargs)
        if cur() is not None:
            raise HarnessError("subclass of Thread in the simulated world")
        return super().__call__(*args, **kwargs)


class Thread(threading.Thread, metaclass=_ThreadMeta):
    pass


# ---------------------------------------------------------------- files


def in_root(path):
    if ROOT is None or K is None or K.current is None:
        return None
    if isinstance(path, int):
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        path = os.path.join(os.getcwd(), path)
    if path.startswith(ROOT):
        return path[len(ROOT):].lstrip("/")
    return None


class SimRaw(io.RawIOBase):
    """Raw file written by a node of the simulated world"""

    def __init__(self, path, rel, flags, node, readable, append=False):
        self._fd = real.os_open(path, flags, 0o644)
        self.name = path
        self.rel = rel
        self.node = node
        self._r = readable
        self._fail = None

    def readable(self):
        return self._r

    def writable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if self.node.dead:
            return 0
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def readinto(self, b):
        data = os.read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        n = len(b)
        node = self.node
        k = node.kernel
        if node.dead or K is not k:
            return n
        if self._fail is not None:
            err = self._fail
            if not self._persist:
                self._fail = None
            raise injected(err, self.name)
        if n and k.current is not None:
            node.ops += 1
            k.event("fs.write", f"{self.rel} {n}", node)
            for fault in k.faults:
                if fault.done or fault.kind not in ("kill", "oserror"):
                    continue
                if not fault.matches(k, "fs.write", f"{self.rel}", node):
                    continue
                fault.countdown -= 1
                if fault.countdown > 0:
                    continue
                fault.done = not fault.repeat
                frac = fault.spec.get("torn", 0.5)
                part = min(n - 1, int(n * frac)) if n > 1 else 0
                if part:
                    os.write(self._fd, bytes(b)[:part])
                if fault.kind == "kill":
                    target = node
                    if fault.spec.get("target"):
                        found = [
                            nd for nd in k.nodes
                            if nd.name == fault.spec["target"] and nd.alive
                        ]
                        if not found:
                            break
                        target = found[0]
                    k.fault_fired("kill", node=target.name, at="fs.write",
                                  path=self.rel, torn=part)
                    victims = [target]
                    if fault.spec.get("group"):
                        victims += [
                            nd for nd in k.nodes
                            if nd is not target and nd.alive
                            and kmod._is_descendant(nd, target)
                        ]
                    for nd in victims:
                        prepare_torn(
                            k, nd, frac, except_raw=self if nd is node else None
                        )
                    for nd in victims:
                        if nd is not node:
                            k.kill(nd, -9)
                    if node in victims:
                        k.kill(node, -9)  # does not return
                    # the write of another process: nothing happened to it
                    if part:
                        os.write(self._fd, bytes(b)[part:])
                        return n
                    return os.write(self._fd, b)
                k.fault_fired(
                    "errno%d" % fault.spec["errno"], node=node.name, at="fs.write",
                    path=self.rel, short=part,
                )
                self._persist = fault.repeat
                if part:
                    self._fail = fault.spec["errno"]
                    return part
                raise injected(fault.spec["errno"], self.name)
        return os.write(self._fd, b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                os.close(self._fd)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


def _note_close(f):
    raw = f._sim_raw
    node = raw.node
    try:
        node.open_files.remove(f)
    except ValueError:
        pass


class SimText(io.TextIOWrapper):
    def flush(self):
        raw = self._sim_raw
        if K is raw.node.kernel and K.current is not None and not self.closed:
            if not raw.node.dead:
                K.yield_point("fs.flush", raw.rel, delay=False)
        super().flush()

    def close(self):
        if self.closed:
            return
        raw = self._sim_raw
        active = (
            K is raw.node.kernel and K.current is not None and not raw.node.dead
            and K.current.node is raw.node
        )
        if active:
            K.yield_point("fs.close", raw.rel)
        try:
            io.TextIOWrapper.close(self)
        finally:
            _note_close(self)
        if active:
            K.event("fs.closed", raw.rel)
            K.yield_point("fs.after", raw.rel, delay=False)

    def __deepcopy__(self, memo):
        return fork_file(self, memo)


class SimBuffered(io.BufferedRandom):
    def close(self):
        if self.closed:
            return
        raw = self._sim_raw
        active = (
            K is raw.node.kernel and K.current is not None and not raw.node.dead
            and K.current.node is raw.node
        )
        if active:
            K.yield_point("fs.close", raw.rel)
        try:
            io.BufferedRandom.close(self)
        finally:
            _note_close(self)
        if active:
            K.event("fs.closed", raw.rel)
            K.yield_point("fs.after", raw.rel, delay=False)

    def __deepcopy__(self, memo):
        return fork_file(self, memo)


_fork_node = None


def fork_file(f, memo):
    """File inherited by a forked process: same file description"""
    node = _fork_node
    raw = f._sim_raw
    if f.closed:
        return f
    new_raw = SimRaw.__new__(SimRaw)
    io.RawIOBase.__init__(new_raw)
    new_raw._fd = os.dup(raw._fd)
    new_raw.name = raw.name
    new_raw.rel = raw.rel
    new_raw.node = node
    new_raw._r = raw._r
    new_raw._fail = None
    if isinstance(f, SimText):
        new = SimText(
            io.BufferedRandom(new_raw), encoding=f.encoding, newline=f._sim_newline
        )
        new._sim_newline = f._sim_newline
    else:
        new = SimBuffered(new_raw)
    new._sim_raw = new_raw
    node.open_files.append(new)
    return new


def sim_open(
    file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
    closefd=True, opener=None,
):
    rel = in_root(file)
    if rel is None:
        return real.open(
            file, mode, buffering, encoding, errors, newline, closefd, opener
        )
    node = K.current.node
    writing = any(c in mode for c in "wax+")
    if not writing:
        K.yield_point("fs.open.r", rel)
        try:
            return real.open(file, mode, buffering, encoding, errors, newline)
        finally:
            K.event("fs.opened.r", rel)
    letter = "a" if "a" in mode else ("x" if "x" in mode else (
        "w" if "w" in mode else "r+"))
    K.yield_point("fs.open." + letter, rel)
    flags = os.O_RDWR | os.O_CLOEXEC
    if letter == "w":
        flags |= os.O_CREAT | os.O_TRUNC
    elif letter == "a":
        flags |= os.O_CREAT | os.O_APPEND
    elif letter == "x":
        flags |= os.O_CREAT | os.O_EXCL
    path = os.fspath(file)
    raw = SimRaw(path, rel, flags, node, "+" in mode)
    if letter == "a":
        raw.seek(0, 2)
    K.event("fs.opened." + letter, rel)
    binary = "b" in mode
    if binary and buffering == 0:
        raw._sim_raw = raw
        return raw
    raw_r = raw._r
    raw._r = True  # BufferedRandom requires it
    if binary:
        f = SimBuffered(raw)
    else:
        buf = io.BufferedRandom(raw)
        f = SimText(
            buf, encoding=encoding or "utf-8", errors=errors, newline=newline,
            line_buffering=(buffering == 1),
        )
        f._sim_newline = newline
    f._sim_raw = raw
    node.open_files.append(f)
    K.yield_point("fs.after", rel, delay=False)
    return f


def _wrap_os(name, kind, delay=True, two=False):
    func = getattr(os, name)
    setattr(real, "os_" + name, func)

    def wrapper(path, *args, **kwargs):
        if K is None or K.current is None:
            return func(path, *args, **kwargs)
        rel = in_root(path)
        if rel is None:
            return func(path, *args, **kwargs)
        if two:
            rel2 = in_root(args[0] if args else kwargs["dst"])
            rel = f"{rel}->{rel2}"
        K.yield_point(kind, rel, delay=delay)
        try:
            ret = func(path, *args, **kwargs)
        except OSError:
            K.event(kind + ".error", rel)
            raise
        K.event(kind + ".done", rel)
        return ret

    wrapper.__name__ = name
    wrapper.__qualname__ = name
    return wrapper


class _ScandirIterator:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self._it = iter(())

    def close(self):
        self._it = iter(())


def _permute(entries):
    n = len(entries)
    if n > 1 and K.config["shuffle_dirs"]:
        c = K.choose(4, p=0.6)
        if c == 1:
            entries.reverse()
        elif c == 2:
            s = 1 + K.choose(n - 1)
            entries = entries[s:] + entries[:s]
        elif c == 3:
            rng = _random.Random(K.choose(1 << 20))
            rng.shuffle(entries)
    return entries


def sim_scandir(path="."):
    rel = in_root(path)
    if rel is None:
        return real.os_scandir(path)
    K.yield_point("fs.scandir", rel)
    with real.os_scandir(path) as it:
        entries = sorted(it, key=lambda e: e.name)
    return _ScandirIterator(_permute(entries))


def sim_listdir(path="."):
    rel = in_root(path)
    if rel is None:
        return real.os_listdir(path)
    K.yield_point("fs.listdir", rel)
    return _permute(sorted(real.os_listdir(path)))


def _stat_wrapper(name):
    func = getattr(os, name)
    setattr(real, "os_" + name, func)

    def wrapper(path, *args, **kwargs):
        if K is not None and K.current is not None:
            rel = in_root(path)
            if rel is not None:
                K.yield_point("fs.stat", rel, delay=False)
        return func(path, *args, **kwargs)

    wrapper.__name__ = name
    return wrapper


# ---------------------------------------------------------------- HDF5


def install_h5py():
    import h5py

    class File(h5py.File):
        def __init__(self, name, mode="r", *args, **kwargs):
            self._sim = None
            rel = None if not isinstance(name, (str, bytes, os.PathLike)) else (
                in_root(name))
            if rel is None:
                super().__init__(name, mode, *args, **kwargs)
                return
            node = K.current.node
            K.yield_point("fs.h5open." + mode, rel)
            super().__init__(name, mode, *args, **kwargs)
            K.event("fs.h5opened." + mode, rel)
            if mode != "r":
                self._sim = dict(
                    path=os.fspath(name), rel=rel, node=node, failed=None, k=K
                )
                node.h5_files.append(self)
                K.yield_point("fs.h5after", rel)

        def __exit__(self, *args):
            # the original one holds the global lock of h5py
            if self.id:
                self.close()

        def close(self):
            sim = self._sim
            if sim is None:
                return super().close()
            if not self or K is not sim["k"] or K.current is None:
                return super().close()
            node = sim["node"]
            if node.dead:
                return None
            rel = sim["rel"]
            try:
                K.yield_point("fs.h5close", rel)
            except OSError as error:
                sim["failed"] = sim["failed"] or error
                super().close()
                self._tear()
                self._sim = None
                _discard(node.h5_files, self)
                raise
            super().close()
            if sim["failed"]:
                self._tear()
            self._sim = None
            _discard(node.h5_files, self)
            K.event("fs.h5closed", rel)
            K.yield_point("fs.after", rel, delay=False)

        def _tear(self, frac=None):
            path = self._sim["path"]
            try:
                size = real.os_stat(path).st_size
            except OSError:
                return
            if frac is None:
                frac = self._sim.get("frac", 0.6)
            os.truncate(path, int(size * frac))

        def __deepcopy__(self, memo):
            return self

    File.__module__ = "h5py._hl.files"
    File.__qualname__ = "File"
    real.h5py_File = h5py.File
    h5py.File = File
    h5py._hl.files.File = File

    phil = h5py._objects.phil

    def wrap_group(name):
        func = getattr(h5py.Group, name)

        def wrapper(self, *args, **kwargs):
            if K is not None and K.current is not None and not phil._is_owned():
                node = K.current.node
                for f in node.h5_files:
                    if f._sim is not None and f.id and f.id == self.file.id:
                        try:
                            K.yield_point("fs.h5write", f._sim["rel"])
                        except OSError as error:
                            f._sim["failed"] = error
                            raise
                        break
            return func(self, *args, **kwargs)

        wrapper.__name__ = name
        setattr(h5py.Group, name, wrapper)

    wrap_group("create_dataset")
    wrap_group("create_group")


def _discard(lst, item):
    for i, x in enumerate(lst):
        if x is item:
            del lst[i]
            return


def prepare_torn(k, node, frac, except_raw=None):
    """Store how much of the open HDF5 files is on disk at the crash"""
    node.tags["torn"] = frac


def node_killed(k, node):
    frac = node.tags.get("torn", 0.5)
    for f in list(node.h5_files):
        try:
            real.h5py_File.close(f)
        except Exception:
            pass
        if f._sim is not None:
            f._tear(frac)
            k.event("torn-h5", f._sim["rel"], node)
            f._sim = None
    node.h5_files.clear()


# ---------------------------------------------------------------- processes


def run_node_main(k, node, fn):
    """Body of the main strand of a node (python interpreter)"""
    code = 0
    try:
        node.result = fn()
    except SystemExit as error:
        c = error.code
        if c is None:
            code = 0
        elif isinstance(c, int):
            code = c
        else:
            sys.stderr.write(f"{c}\n")
            code = 1
        node.error = error
    except (kmod.HarnessError, kmod.SpinError):
        raise
    except BaseException as error:
        text = "".join(traceback.format_exception(error))
        node.error = error
        node.error_text = text
        try:
            if node.kind == "fork":
                sys.stderr.write(f"Process {node.name}:\n")
            sys.stderr.write(text)
        except (ValueError, OSError):
            pass
        code = 1
        if isinstance(error, KeyboardInterrupt) and node.kind != "fork":
            code = -2
    node_exit(k, node, code)


def node_exit(k, node, code):
    k.progress()
    k.event("exiting", str(code), node)
    if node.kind == "fork":
        # multiprocessing: flush of the std streams and os._exit
        for stream in (sys.stdout, sys.stderr):
            try:
                stream.flush()
            except (AttributeError, ValueError):
                pass
            except OSError:
                # (not handled by multiprocessing)
                code = 1
                break
    else:
        while node.atexit:
            func, args, kwargs = node.atexit.pop()
            try:
                func(*args, **kwargs)
            except BaseException as error:
                if isinstance(error, kmod.HarnessError):
                    raise
                with contextlib.suppress(ValueError, OSError):
                    sys.stderr.write(traceback.format_exc())
        # the daemonic children are terminated
        for child in node.children:
            if child.kind == "fork" and child.daemon and child.alive:
                k.send_signal(child, 15)
        for f in list(node.open_files):
            try:
                if not f.closed:
                    f.flush()
                    f.close()
            except (OSError, ValueError):
                pass
    node.exitcode = code
    node.end_time = k.now
    k.event("exit", str(code), node)
    # the remaining threads disappear
    me = k.current
    node.dead = True
    for strand in list(node.strands):
        if strand is not me and strand in k.strands:
            k.strands.remove(strand)
            k.leaked += 1
    for f in list(node.h5_files):
        try:
            real.h5py_File.close(f)
        except Exception:
            pass
        f._sim = None
    node.h5_files.clear()
    for callback in list(node.on_exit):
        callback()
    k.notify()


def new_node(k, name, kind="main", parent=None):
    node = Node(k, name, kind, parent)
    node.stdout = StdStream(node, name + ".stdout")
    node.stderr = StdStream(node, name + ".stderr")
    g = NodeGlobals()
    g.stdout = g.ostdout = node.stdout
    g.stderr = g.ostderr = node.stderr
    g.argv = ["sim"]
    g.handlers = []
    g.level = 0
    g.propagate = True
    node.globals = g
    return node


def start_node(k, node, fn, delay=0.0):
    k.spawn(node, lambda: run_node_main(k, node, fn), "main", True, delay)


def _child_name(parent, letter):
    n = sum(1 for c in parent.children if c.name.split("/")[-1][0] == letter)
    return f"{parent.name}/{letter}{n}"


def start_latency(k, n=None):
    """Virtual time needed to start a process"""
    p_slow = k.config.get("p_slow_start", 0.1)
    c = k.choose(8, p=0.7)
    base = [0.002, 0.0005, 0.005, 0.02, 0.05, 0.1, 0.3, 0.6][c]
    if p_slow and k.choose(2, p=p_slow):
        base = [1.5, 3.0, 8.0][k.choose(3)]
        k.count("fault:slow_start")
        k.event("slow-start", base)
    return base


class SimProcess:
    """multiprocessing.Process (fork) in the simulated world"""

    def __init__(
        self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None
    ):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        self.daemon = bool(daemon)
        self._node = None
        self._name = name
        self._parent_node = cur().node

    def __deepcopy__(self, memo):
        return self

    @property
    def name(self):
        return self._name or "Process"

    def start(self):
        k = K
        me = k.current
        k.yield_point("process.start", None)
        parent = me.node
        node = fork_node(k, parent)
        node.daemon = self.daemon
        self._node = node
        target, args, kwargs, g, handlers = fork_snapshot(
            k, parent, node, (self._target, self._args, self._kwargs)
        )
        node.globals = g
        node.signal_handlers = handlers

        def fn():
            if target is not None:
                target(*args, **kwargs)

        k.event("forked", node.name, parent)
        start_node(k, node, fn, start_latency(k))

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    @property
    def pid(self):
        return None if self._node is None else self._node.pid

    ident = pid

    @property
    def exitcode(self):
        if self._node is None:
            return None
        k = cur()
        return self._node.exitcode

    def is_alive(self):
        return self._node is not None and self._node.exitcode is None

    def join(self, timeout=None):
        K.yield_point("process.join", self._node.name)
        K.wait_until(lambda: self._node.exitcode is not None, timeout)

    def terminate(self):
        K.yield_point("process.terminate", self._node.name)
        K.send_signal(self._node, 15)

    def kill(self):
        K.yield_point("process.kill", self._node.name)
        K.send_signal(self._node, 9)

    def close(self):
        pass

    @property
    def sentinel(self):
        raise HarnessError("Process.sentinel is not simulated")


def fork_node(k, parent):
    node = new_node(k, _child_name(parent, "f"), "fork", parent)
    node.stdout = parent.stdout
    node.stderr = parent.stderr
    node.clock_offset = parent.clock_offset
    return node


def _copy_function(func, memo):
    """Copy of a closure (for what a forked process inherits)"""
    if not isinstance(func, types.FunctionType) or func.__closure__ is None:
        return copy.deepcopy(func, memo)
    cells = []
    for cell in func.__closure__:
        try:
            content = cell.cell_contents
        except ValueError:
            cells.append(types.CellType())
            continue
        cells.append(types.CellType(copy.deepcopy(content, memo)))
    new = types.FunctionType(
        func.__code__, func.__globals__, func.__name__, func.__defaults__,
        tuple(cells),
    )
    new.__kwdefaults__ = func.__kwdefaults__
    return new


def fork_snapshot(k, parent, node, obj):
    """Copy of the memory of the parent seen by the forked process"""
    global _fork_node
    _fork_node = node
    save_globals(parent)
    memo = {}
    try:
        # the ends of the pipes are inherited
        for end in k.__dict__.setdefault("pipe_ends", []):
            if end.holders.get(parent, 0) > 0:
                end.holders[node] = end.holders.get(node, 0) + 1
        target, args, kwargs = copy.deepcopy(obj, memo)
        g = NodeGlobals()
        pg = parent.globals
        g.stdout = copy.deepcopy(pg.stdout, memo)
        g.stderr = copy.deepcopy(pg.stderr, memo)
        g.ostdout = pg.ostdout
        g.ostderr = pg.ostderr
        g.argv = list(pg.argv)
        g.level = pg.level
        g.propagate = pg.propagate
        g.handlers = []
        for h in pg.handlers:
            h2 = copy.copy(h)
            if getattr(h, "stream", None) is not None:
                h2.stream = copy.deepcopy(h.stream, memo)
            g.handlers.append(h2)
        handlers = {
            sig: _copy_function(h, memo) for sig, h in parent.signal_handlers.items()
        }
    finally:
        _fork_node = None
    return target, args, kwargs, g, handlers


class SimPopen:
    """subprocess.Popen: `python -m module args` run as a node"""

    def __init__(
        self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
        stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
        env=None, universal_newlines=None, text=None, encoding=None, errors=None,
        **kwargs,
    ):
        k = K
        k.yield_point("popen", None)
        args = [os.fspath(a) for a in args]
        if len(args) < 3 or args[1] != "-m" or "python" not in os.path.basename(
            args[0]
        ):
            raise HarnessError(f"Popen of {args} is not simulated")
        parent = k.current.node
        node = new_node(k, _child_name(parent, "s"), "spawn", parent)
        node.clock_offset = parent.clock_offset
        module = args[2]
        node.argv = [module] + args[3:]
        node.globals.argv = list(node.argv)
        self.args = args
        self._node = node
        self.pid = node.pid
        self.stdin = None
        self.stdout = self.stderr = None
        PIPE = -1
        if stdout == PIPE:
            node.stdout.pipe = True
            self.stdout = PipeReader(node.stdout, node)
        elif stdout is not None and hasattr(stdout, "write"):
            g = node.globals
            g.stdout = g.ostdout = _Redirect(stdout, node)
        if stderr == PIPE:
            node.stderr.pipe = True
            self.stderr = PipeReader(node.stderr, node)
        elif stderr == -2:
            node.stderr = node.stdout
            node.globals.stderr = node.globals.ostderr = node.globals.stdout
        elif stderr is not None and hasattr(stderr, "write"):
            g = node.globals
            g.stderr = g.ostderr = _Redirect(stderr, node)
        self._returncode = None

        def fn():
            import importlib

            mod = importlib.import_module(module)
            if module == "fluidimage.run_from_xml":
                return mod.main()
            return mod.main()

        k.event("spawned", f"{node.name} {module}", parent)
        latency = 0.3 * (1 + k.choose(4, p=0.5)) + start_latency(k)
        start_node(k, node, fn, latency)

    def __deepcopy__(self, memo):
        return self

    @property
    def returncode(self):
        return self._returncode

    def poll(self):
        K.event("popen.poll")
        self._returncode = self._node.exitcode
        return self._returncode

    def wait(self, timeout=None):
        K.yield_point("popen.wait", self._node.name)
        ok = K.wait_until(lambda: self._node.exitcode is not None, timeout)
        if not ok:
            import subprocess

            raise subprocess.TimeoutExpired(self.args, timeout)
        return self.poll()

    def communicate(self, input=None, timeout=None):
        # drain both pipes
        for reader in (self.stdout, self.stderr):
            if reader is not None:
                reader.stream.capacity = INF
        K.notify()
        self.wait(timeout)
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        return out, err

    def send_signal(self, sig):
        K.yield_point("popen.signal", self._node.name)
        K.send_signal(self._node, int(sig))

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.wait()


class _Redirect(io.TextIOBase):
    """stdout/stderr of a child redirected to a file of the parent"""

    def __init__(self, file, node):
        self.node = node
        raw = getattr(file, "_sim_raw", None)
        if raw is not None:
            global _fork_node
            _fork_node = node
            try:
                self.file = fork_file(file, {})
            finally:
                _fork_node = None
        else:
            self.file = file

    def __deepcopy__(self, memo):
        return self

    def write(self, text):
        n = self.file.write(text)
        return n

    def flush(self):
        self.file.flush()

    def isatty(self):
        return False


# ---------------------------------------------------------------- pipes


# the data are much smaller than those of real computations: so is the size above
# which a message is not sent with only one system call (16384 bytes)
PIPE_ATOMIC = 1024


class _Message:
    def __init__(self, at, data):
        self.at = at
        self.data = data
        self.complete = True

    def __deepcopy__(self, memo):
        return self


class _End:
    def __init__(self):
        self.queue = []
        self.peer = None
        self.holders = {}

    def __deepcopy__(self, memo):
        return self


class SimConnection:
    """One end of multiprocessing.Pipe"""

    def __init__(self, end, node):
        self._end = end
        self._node = node
        self._closed = False

    def __deepcopy__(self, memo):
        # inherited by a fork
        return SimConnection(self._end, _fork_node)

    def _drop(self):
        if not self._closed:
            self._closed = True
            end, node = self._end, self._node
            n = end.holders.get(node, 0)
            if n > 0:
                end.holders[node] = n - 1
            k = node.kernel if node is not None else None
            if k is not None and K is k and k.current is not None:
                k.notify()

    def __del__(self):
        try:
            self._drop()
        except Exception:
            pass

    def close(self):
        self._drop()

    @property
    def closed(self):
        return self._closed

    def _peer_open(self):
        return any(
            n > 0 and node.exitcode is None
            for node, n in self._end.peer.holders.items()
        )

    def send(self, obj):
        k = K
        if self._closed:
            raise OSError("handle is closed")
        k.yield_point("pipe.send", None)
        data = dumps(obj)
        if not self._peer_open():
            raise BrokenPipeError(32, "Broken pipe")
        # local: what is written can be read immediately
        q = self._end.peer.queue
        at = k.now
        message = _Message(at, data)
        q.append(message)
        if len(data) > PIPE_ATOMIC:
            # several system calls: the sender can be killed between them
            message.complete = False
            k.event("pipe.partial", len(q))
            k.notify()
            k.yield_point("pipe.partial", None)
            if not self._peer_open():
                raise BrokenPipeError(32, "Broken pipe")
            message.at = max(at, k.now)
            message.complete = True
        k.event("pipe.sent", len(q))
        k.notify()
        k.yield_point("pipe.after", None, delay=False)

    def _ready(self):
        q = self._end.queue
        return bool(q) and q[0].at <= K.now

    def _wait(self, timeout=None):
        k = K
        end_t = None if timeout is None else k.now + timeout
        while True:
            q = self._end.queue
            if q:
                t = q[0].at
                if t <= k.now:
                    return True
                if end_t is not None and t > end_t:
                    k.sleep(max(0.0, end_t - k.now))
                    return False
                k.sleep(t - k.now)
                continue
            if not self._peer_open():
                return True
            if end_t is not None and k.now >= end_t:
                return False
            k.wait_until(
                lambda: self._end.queue or not self._peer_open(),
                None if end_t is None else end_t - k.now,
            )

    def poll(self, timeout=0.0):
        K.yield_point("pipe.poll", None)
        return self._wait(timeout)

    def recv(self):
        if self._closed:
            raise OSError("handle is closed")
        K.yield_point("pipe.recv", None)
        self._wait(None)
        if not self._end.queue:
            raise EOFError
        message = self._end.queue.pop(0)
        if not message.complete:
            K.wait_until(lambda: message.complete or not self._peer_open())
            if not message.complete:
                raise OSError("got end of file during message")
            if message.at > K.now:
                K.sleep(message.at - K.now)
        return loads(message.data, K.current.node)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def fileno(self):
        raise HarnessError("fileno of a connection is not simulated")


class _Pickler(pickle.Pickler):
    def persistent_id(self, obj):
        if isinstance(obj, SimConnection):
            # the message keeps the end open
            obj._end.holders[_in_flight(obj._node.kernel)] = (
                obj._end.holders.get(_in_flight(obj._node.kernel), 0) + 1
            )
            _transit[id(obj._end)] = obj._end
            return ("conn", id(obj._end))
        return None


_transit = {}


class _InFlight:
    exitcode = None

    def __init__(self, kernel):
        self.kernel = kernel


def _in_flight(kernel):
    try:
        return kernel._in_flight_node
    except AttributeError:
        kernel._in_flight_node = _InFlight(kernel)
        return kernel._in_flight_node


class _Unpickler(pickle.Unpickler):
    def persistent_load(self, pid):
        end = _transit[pid[1]]
        node = self.sim_node
        fl = _in_flight(node.kernel)
        end.holders[fl] -= 1
        end.holders[node] = end.holders.get(node, 0) + 1
        return SimConnection(end, node)


def dumps(obj):
    f = io.BytesIO()
    _Pickler(f, protocol=4).dump(obj)
    return f.getvalue()


def loads(data, node):
    up = _Unpickler(io.BytesIO(data))
    up.sim_node = node
    return up.load()


def SimPipe(duplex=True):
    if cur() is None:
        return real.Pipe(duplex)
    node = K.current.node
    a, b = _End(), _End()
    a.peer, b.peer = b, a
    a.holders[node] = 1
    b.holders[node] = 1
    K.__dict__.setdefault("pipe_ends", []).extend([a, b])
    return SimConnection(a, node), SimConnection(b, node)


# ---------------------------------------------------------------- the user


def sim_input(prompt=""):
    """The user answers (list `answers` of the node)"""
    me = cur()
    if me is None:
        return real.input(prompt)
    node = me.node
    K.yield_point("input", str(prompt))
    answers = getattr(node, "answers", None)
    if not answers:
        raise EOFError("EOF when reading a line")
    answer = answers.pop(0)
    K.event("user-answer", repr(answer), node)
    return answer


# ---------------------------------------------------------------- signals, pids


def sim_signal(signum, handler):
    me = cur()
    if me is None:
        return real.signal(signum, handler)
    if not me.is_main:
        raise ValueError(
            "signal only works in main thread of the main interpreter"
        )
    node = me.node
    signum = int(signum)
    old = node.signal_handlers.get(signum, _signal.SIG_DFL)
    if handler == _signal.SIG_DFL:
        node.signal_handlers[signum] = "default"
    elif handler == _signal.SIG_IGN:
        node.signal_handlers[signum] = "ignore"
    elif handler is _signal.default_int_handler:
        node.signal_handlers[signum] = "default"
    else:
        node.signal_handlers[signum] = handler
    if old == "default":
        old = _signal.default_int_handler if signum == 2 else _signal.SIG_DFL
    elif old == "ignore":
        old = _signal.SIG_IGN
    return old


def sim_getsignal(signum):
    me = cur()
    if me is None:
        return real.getsignal(signum)
    h = me.node.signal_handlers.get(int(signum), "default")
    if h == "default":
        return _signal.default_int_handler if signum == 2 else _signal.SIG_DFL
    if h == "ignore":
        return _signal.SIG_IGN
    return h


def sim_set_wakeup_fd(fd, *, warn_on_full_buffer=True):
    if cur() is None:
        return real.set_wakeup_fd(fd, warn_on_full_buffer=warn_on_full_buffer)
    return -1


def sim_kill(pid, sig):
    me = cur()
    if me is None:
        return real.os_kill(pid, sig)
    node = K.node_by_pid(pid)
    if node is None:
        raise ProcessLookupError(3, "No such process")
    K.yield_point("os.kill", f"{node.name} {int(sig)}")
    if node.exitcode is not None:
        reaped = node.tags.get("reaped")
        if reaped or node.kind == "fork" and False:
            raise ProcessLookupError(3, "No such process")
        return
    if sig:
        K.send_signal(node, int(sig))


def sim_getpid():
    me = cur()
    if me is None:
        return real.os_getpid()
    return me.node.pid


def sim_getppid():
    me = cur()
    if me is None:
        return real.os_getppid()
    return me.node.parent.pid if me.node.parent else 1


def sim_atexit_register(func, *args, **kwargs):
    me = cur()
    if me is None:
        return real.atexit_register(func, *args, **kwargs)
    me.node.atexit.append((func, args, kwargs))
    return func


def sim_atexit_unregister(func):
    me = cur()
    if me is None:
        return real.atexit_unregister(func)
    me.node.atexit = [t for t in me.node.atexit if t[0] != func]


def sim_os__exit(code):
    me = cur()
    if me is None:
        real.os__exit(code)
    K.kill(me.node, code)


def sim_fork():
    if cur() is None:
        return real.os_fork()
    raise HarnessError("os.fork is not simulated")


# ---------------------------------------------------------------- trio


def install_trio():
    import outcome
    import trio

    core_run = trio._core._run
    core_run._ALLOW_DETERMINISTIC_SCHEDULING = True

    class SimRandom:
        def __init__(self):
            self._rng = _random.Random(0)

        def random(self):
            if cur() is None:
                return self._rng.random()
            return 0.75 if not K.choose(2) else 0.25

        def shuffle(self, batch):
            if cur() is None:
                return self._rng.shuffle(batch)
            n = len(batch)
            if n > 1:
                c = K.choose(3, p=0.6)
                if c == 1:
                    batch.reverse()
                elif c == 2:
                    i = K.choose(n - 1) + 1
                    batch[:] = batch[i:] + batch[:i]

        def uniform(self, a, b):
            return a

    core_run._r = SimRandom()

    # wake-up of the loop by another thread, a signal or itself
    from trio._core._wakeup_socketpair import WakeupSocketpair

    real_init = WakeupSocketpair.__init__
    real_wakeup = WakeupSocketpair.wakeup_thread_and_signal_safe

    def init(self):
        real_init(self)
        self.__dict__["_sim_strand"] = cur()

    def wakeup_thread_and_signal_safe(self):
        real_wakeup(self)
        strand = self.__dict__.get("_sim_strand")
        if strand is not None and K is strand.kernel:
            strand.trio_wake = True
            K.wake(strand)

    WakeupSocketpair.__init__ = init
    WakeupSocketpair.wakeup_thread_and_signal_safe = wakeup_thread_and_signal_safe

    class SimClock(trio.abc.Clock):
        def start_clock(self):
            pass

        def current_time(self):
            return 1000.0 + K.now

        def deadline_to_sleep_time(self, deadline):
            me = K.current
            if me is None:
                return 0
            k = K
            timeout = deadline - self.current_time()
            if timeout <= 0:
                return 0
            if not me.trio_wake:
                k.block(None if timeout == INF else timeout)
            me.trio_wake = False
            return 0

    class SimInstrument(trio.abc.Instrument):
        """The thread of the event loop does not run for a while

        What happens in the meantime is handled in the next batch.

        """

        def after_task_step(self, task):
            k = K
            me = k.current
            p = k.config["p_stall"]
            if not p or me is None or k.steps - k.progress_steps > 100:
                return
            c = k.choose(8, p=p)
            if c:
                k.count("stall")
                in_signal, me.in_signal = me.in_signal, True
                try:
                    k.sleep(0.1 * 10.0 ** (-(7 - c) * 0.5))
                finally:
                    me.in_signal = in_signal

    real.trio_run = trio.run

    def sim_trio_run(async_fn, *args, **kwargs):
        if cur() is None:
            return real.trio_run(async_fn, *args, **kwargs)
        kwargs["clock"] = SimClock()
        if K.config["p_stall"]:
            kwargs["instruments"] = [SimInstrument()]
        return real.trio_run(async_fn, *args, **kwargs)

    trio.run = sim_trio_run

    real.trio_sleep = trio.sleep

    async def sim_trio_sleep(seconds):
        if cur() is None:
            return await real.trio_sleep(seconds)
        k = K
        k.yield_point("trio.sleep", None, delay=False)
        if seconds > 0:
            c = k.choose(8, p=k.config["jitter"])
            seconds = seconds * (1 + 0.25 * c) + k._tie()
            # nothing happens: poll more slowly (a legal schedule, less steps)
            idle = k.steps - k.progress_steps
            if idle > 100:
                seconds = max(seconds, min(0.3, seconds * idle / 100))
        await real.trio_sleep(seconds)

    trio.sleep = sim_trio_sleep

    async def sim_run_sync(
        sync_fn, *args, thread_name=None, abandon_on_cancel=None, cancellable=None,
        limiter=None,
    ):
        k = K
        if k is None or k.current is None:
            return await real.run_sync(
                sync_fn, *args, abandon_on_cancel=bool(abandon_on_cancel or
                                                       cancellable)
            )
        abandon = bool(abandon_on_cancel or cancellable)
        await trio.lowlevel.checkpoint_if_cancelled()
        task = trio.lowlevel.current_task()
        token = trio.lowlevel.current_trio_token()
        trio_strand = k.current
        node = trio_strand.node
        state = {"abandoned": False}

        def report(result):
            if not state["abandoned"]:
                trio.lowlevel.reschedule(task, result)

        def fn():
            k.yield_point("thread.begin", None)
            result = outcome.capture(sync_fn, *args)
            k.yield_point("thread.end", None)
            try:
                token.run_sync_soon(report, result)
            except (trio.RunFinishedError, OSError):
                # OSError: run interrupted by the handler of Ctrl+C
                return

        k.spawn(node, fn, f"worker{k.next_sid}")

        def abort(raise_cancel):
            if abandon:
                state["abandoned"] = True
                return trio.lowlevel.Abort.SUCCEEDED
            return trio.lowlevel.Abort.FAILED

        return await trio.lowlevel.wait_task_rescheduled(abort)

    real.run_sync = trio.to_thread.run_sync
    trio.to_thread.run_sync = sim_run_sync


# ---------------------------------------------------------------- tracing


SRC_PREFIX = None
MAX_LINES_NO_YIELD = 3_000_000
LINES = None  # debugging: all the lines executed


def make_tracer(kernel, strand):
    """Preemption between the lines of the code of fluidimage"""
    prefix = SRC_PREFIX
    mean = kernel.config["preempt"]
    files = kernel.config.get("preempt_files")

    def gap():
        c = kernel.choose(64, p=0.97)
        return c

    state = [gap() if mean else 0, 0]
    hot, salt = kernel.config.get("hot") or (0, 0)
    hot_lines = kernel.hot_lines

    def local(frame, event, arg):
        if event == "line":
            state[1] += 1
            if LINES is not None:
                LINES.append((strand.name, frame.f_code.co_filename, frame.f_lineno))
            if kernel.current is strand:
                if state[0] > 0:
                    state[0] -= 1
                    if state[0] == 0:
                        kernel.yield_point("line", None)
                        state[0] = gap() * max(1, mean // 32)
                else:
                    # never preempted: draw again from time to time
                    state[0] = -1000 if state[0] == 0 else state[0] + 1
                    if state[0] == -1:
                        state[0] = gap() * max(1, mean // 32)
        return local

    def make_local_hot(lines, other):
        def local_hot(frame, event, arg):
            if event == "line" and kernel.current is strand:
                left = lines.get(frame.f_lineno)
                if left:
                    lines[frame.f_lineno] -= 1
                    kernel.count("hot_line")
                    before = kernel.now
                    # (the sum of the delays is limited)
                    kernel.yield_point(
                        "line", None, delay=kernel.hot_delay < 15.0, p_delay=0.6
                    )
                    kernel.hot_delay += kernel.now - before
                if other is not None:
                    other(frame, event, arg)
            return local_hot

        return local_hot

    def find_hot_lines(code):
        """Lines of a function where the threads are preempted in this run"""
        try:
            return hot_lines[code]
        except KeyError:
            pass
        name = f"{code.co_filename[len(prefix):]}:{salt}:"
        hot_lines[code] = lines = {
            line: 8 * hot
            for line in {line for _, _, line in code.co_lines()}
            if line and zlib.crc32((name + str(line)).encode()) % hot == 0
        }
        return lines

    def tracer(frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(prefix) or code.co_name == "<module>":
            return None
        if files and not any(f in code.co_filename for f in files):
            return None
        if hot:
            lines = find_hot_lines(code)
            if lines:
                return make_local_hot(lines, local if mean else None)
        return local if mean else None

    return tracer


# ---------------------------------------------------------------- misc stubs


class StubProgress:
    """rich.progress.Progress without its thread; the updates are recorded"""

    def __init__(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def start(self):
        pass

    def stop(self):
        pass

    def add_task(self, description, total=100, **kwargs):
        if cur() is not None:
            K.event("progress.total", total)
        return 0

    def update(self, task_id, *, completed=None, advance=None, **kwargs):
        if cur() is not None:
            K.event("progress", completed)

    def advance(self, *args, **kwargs):
        pass

    @property
    def finished(self):
        return False


def sim_get_memory_usage():
    if cur() is not None:
        K.yield_point("mem", None)
    return 123.456


_installed = False


def install():
    """Install the seams (once, before fluidimage is imported)"""
    global _installed, SRC_PREFIX
    if _installed:
        return
    _installed = True
    assert "fluidimage" not in sys.modules

    os.environ["TZ"] = "UTC"
    _time.tzset()

    # time
    real.time = _time.time
    real.process_time = _time.process_time
    real.monotonic = _time.monotonic
    real.sleep = _time.sleep
    _time.time = sim_time
    _time.perf_counter = sim_monotonic
    _time.monotonic = sim_monotonic
    _time.process_time = sim_process_time
    _time.time_ns = sim_time_ns
    _time.perf_counter_ns = _time.monotonic_ns = sim_monotonic_ns
    _time.sleep = sim_sleep
    import datetime

    SimDatetime = _sim_datetime(datetime.datetime)
    real.datetime = datetime.datetime

    # locks, threads
    real.Lock = threading.Lock
    real.RLock = threading.RLock
    real.Thread = threading.Thread

    # logging: locks aware of the simulation
    logging._lock = _LateLock()
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.lock = _LateLock()
    logging.Handler.createLock = _handler_create_lock

    # the user
    real.input = builtins.input
    builtins.input = sim_input

    # files
    real.open = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    real.os_open = os.open
    for name, kind in (
        ("mkdir", "fs.mkdir"),
        ("rmdir", "fs.rmdir"),
        ("unlink", "fs.unlink"),
        ("remove", "fs.unlink"),
        ("truncate", "fs.truncate"),
        ("open", "fs.osopen"),
    ):
        setattr(os, name, _wrap_os(name, kind))
    for name in ("rename", "replace", "link", "symlink"):
        setattr(os, name, _wrap_os(name, "fs." + name, two=True))
    real.os_scandir = os.scandir
    real.os_listdir = os.listdir
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.stat = _stat_wrapper("stat")
    os.lstat = _stat_wrapper("lstat")

    # processes, signals
    real.os_kill = os.kill
    real.os_getpid = os.getpid
    real.os_getppid = os.getppid
    real.os__exit = os._exit
    real.os_fork = os.fork
    os.kill = sim_kill
    os.getpid = sim_getpid
    os.getppid = sim_getppid
    os._exit = sim_os__exit
    os.fork = sim_fork
    real.signal = _signal.signal
    real.getsignal = _signal.getsignal
    _signal.signal = sim_signal
    _signal.getsignal = sim_getsignal
    real.set_wakeup_fd = _signal.set_wakeup_fd
    _signal.set_wakeup_fd = sim_set_wakeup_fd
    real.atexit_register = _atexit.register
    real.atexit_unregister = _atexit.unregister
    _atexit.register = sim_atexit_register
    _atexit.unregister = sim_atexit_unregister

    import multiprocessing
    import subprocess

    real.Process = multiprocessing.Process
    real.Pipe = multiprocessing.Pipe
    real.mpEvent = multiprocessing.Event
    real.Popen = subprocess.Popen
    multiprocessing.Process = SimProcess
    multiprocessing.Pipe = SimPipe
    multiprocessing.Event = SimEvent

    import h5py  # noqa

    install_h5py()
    install_trio()

    # images
    import cv2

    real.cv2_imread = cv2.imread

    def sim_imread(path, *args):
        rel = in_root(path)
        if rel is not None:
            try:
                K.yield_point("fs.imread", rel)
            except OSError:
                # OpenCV gives None when it cannot read
                if not K.config.get("imread_raises", False):
                    return None
                raise
        return real.cv2_imread(path, *args)

    cv2.imread = sim_imread
    import skimage.io

    real.ski_imread = skimage.io.imread

    def sim_ski_imread(path, *args, **kwargs):
        rel = in_root(path)
        if rel is not None:
            K.yield_point("fs.imread", rel)
        return real.ski_imread(path, *args, **kwargs)

    skimage.io.imread = sim_ski_imread
    cv2.setNumThreads(0)

    import rich.progress

    rich.progress.Progress = StubProgress

    import fluiddyn.io.query
    import fluiddyn.util
    import fluiddyn.util.util

    fluiddyn.util.util.datetime = types.SimpleNamespace(
        datetime=SimDatetime, timedelta=datetime.timedelta, date=datetime.date,
    )
    fluiddyn.util.get_memory_usage = sim_get_memory_usage
    fluiddyn.util.util.get_memory_usage = sim_get_memory_usage
    real.SimDatetime = SimDatetime

    from . import boot

    SRC_PREFIX = boot.SRC + "/fluidimage/"
    boot.import_fluidimage()
    for name, mod in list(sys.modules.items()):
        if name.startswith("fluidimage") and mod is not None:
            for key, value in list(vars(mod).items()):
                if value is _thread.get_ident:
                    setattr(mod, key, sim_get_ident)

    # after the imports: what is looked up in modules at call time
    real.current_thread = threading.current_thread
    real.main_thread = threading.main_thread
    threading.current_thread = threading.currentThread = sim_current_thread
    threading.main_thread = sim_main_thread
    threading.Thread = Thread
    threading.Lock = make_lock
    threading.RLock = make_rlock
    threading.Event = SimEventFactory
    subprocess.Popen = PopenFactory
    import fluidimage.executors.servers as servers
    import fluidimage.gui.monitor as monitor

    for mod in list(sys.modules.values()):
        name = getattr(mod, "__name__", "") or ""
        if not name.startswith("fluidimage"):
            continue
        for attr, value in list(vars(mod).items()):
            if value is real.Thread:
                setattr(mod, attr, Thread)
            elif value is real.datetime:
                setattr(mod, attr, SimDatetime)
            elif value is real.Lock:
                setattr(mod, attr, make_lock)
            elif value is real.RLock:
                setattr(mod, attr, make_rlock)
            elif value is real.Popen:
                setattr(mod, attr, PopenFactory)


def SimEventFactory():
    if cur() is None:
        return real_threading_event()
    return SimEvent()


real_threading_event = threading.Event


def PopenFactory(*args, **kwargs):
    if cur() is None:
        return real.Popen(*args, **kwargs)
    return SimPopen(*args, **kwargs)


class _LateLock:
    """Lock of a module of the standard library (reentrant)"""

    def __init__(self):
        self._real = None
        self._sim = None
        self._kernel = None

    def _get(self):
        if K is not None and K.current is not None:
            if self._kernel is not K:
                self._kernel = K
                self._sim = SimRLock()
            return self._sim
        if self._real is None:
            self._real = real.RLock()
        return self._real

    def acquire(self, *args, **kwargs):
        return self._get().acquire(*args, **kwargs)

    def release(self):
        self._get().release()

    def __enter__(self):
        self._get().acquire()
        return self

    def __exit__(self, *args):
        self._get().release()

    def _at_fork_reinit(self):
        pass

    def __deepcopy__(self, memo):
        return _LateLock()

    def __copy__(self):
        return _LateLock()


def _handler_create_lock(self):
    self.lock = _LateLock()


# ---------------------------------------------------------------- deepcopy of odd things


def _copy_container(obj, memo):
    cls = type(obj)
    new = cls.__new__(cls)
    memo[id(obj)] = new
    new.__dict__.update(copy.deepcopy(obj.__dict__, memo))
    if isinstance(obj, dict):
        for key, value in obj.items():
            new[copy.deepcopy(key, memo)] = copy.deepcopy(value, memo)
    else:
        for value in obj:
            new.append(copy.deepcopy(value, memo))
    return new


class Inert:
    """What a forked process sees of the event loop of its parent"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __call__(self, *args, **kwargs):
        return self

    def __deepcopy__(self, memo):
        return self


INERT = Inert()


def install_deepcopy():
    import trio

    inert = lambda obj, memo: INERT  # noqa
    for cls in (types.CoroutineType, types.GeneratorType, types.AsyncGeneratorType):
        copy._deepcopy_dispatch[cls] = inert
    for mod in (trio._core._run, trio._core._parking_lot, trio._core._ki):
        for cls in list(vars(mod).values()):
            if isinstance(cls, type) and cls.__module__.startswith("trio"):
                copy._deepcopy_dispatch[cls] = inert
    # containers of fluidimage that __reduce_ex__ cannot rebuild (a real fork
    # copies them as any other object)
    for mod in list(sys.modules.values()):
        if not (getattr(mod, "__name__", "") or "").startswith("fluidimage."):
            continue
        for cls in list(vars(mod).values()):
            if (
                isinstance(cls, type)
                and issubclass(cls, (dict, list))
                and cls.__module__.startswith("fluidimage.")
                and "__deepcopy__" not in vars(cls)
            ):
                copy._deepcopy_dispatch[cls] = _copy_container
    try:
        import pyfftw
    except ImportError:
        return

    def copy_plan(plan, memo):
        inp = copy.deepcopy(plan.input_array, memo)
        out = copy.deepcopy(plan.output_array, memo)
        direction = plan.direction
        kwargs = dict(axes=plan.axes, direction=direction, threads=1)
        si, so = inp.copy(), out.copy()
        new = pyfftw.FFTW(inp, out, **kwargs)
        inp[...] = si
        out[...] = so
        return new

    copy._deepcopy_dispatch[pyfftw.FFTW] = copy_plan
