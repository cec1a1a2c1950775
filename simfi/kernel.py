"""The simulator: virtual time, strands, nodes, seeded decisions, fault plan.

A *strand* is one thread of the simulated system (the main thread of a simulated
process, a worker thread...).  Each strand has a real OS thread, but only the
strand holding the baton runs; at every *yield point* the kernel decides which
strand goes on.  A *node* is a simulated process.

Every decision (which strand goes on, how long something takes, in which order a
directory is listed...) is one integer drawn by `Kernel.choose`, where 0 always is
the benign default.  The non-zero decisions of an execution plus its scenario
determine it completely.
"""

import _thread
import ctypes
import hashlib
import io
import random
import sys
import traceback

EPOCH = 1_700_000_000.0  # 2023-11-14 22:13:20 UTC


class HarnessError(Exception):
    """The simulator cannot represent what the code does (never a violation)."""


class SimLimit(Exception):
    """Raised in the controller: limits of time or steps reached."""


class ReplayDivergence(Exception):
    pass


class SpinError(BaseException):
    """Raised in a strand that loops for ever without yielding"""


SPIN_CPU_SECONDS = 6.0


class Chooser:
    """Source of the decisions: a PRNG, or a recorded sparse list."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed)
        self.replay = replay  # dict index -> value
        self.index = 0
        self.nonzero = {}

    def draw(self, fn):
        """fn(rng) -> int"""
        i = self.index
        self.index = i + 1
        if self.replay is not None:
            v = self.replay.get(i, 0)
        else:
            v = fn(self.rng)
        if v:
            self.nonzero[i] = v
        return v


class Strand:
    def __init__(self, kernel, node, fn, name, is_main):
        self.kernel = kernel
        self.node = node
        self.fn = fn
        self.name = name
        self.is_main = is_main
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.ready_at = 0.0  # inf: blocked
        self.permit = False  # a wake arrived while not blocked
        self.blocked = False
        self.done = False
        self.sid = None
        self.preempt_left = None
        self.in_signal = False
        self.trio_wake = False

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.node.name}/{self.name}>"


INF = float("inf")


class Kernel:
    """One simulated world"""

    def __init__(self, seed, config=None, replay=None):
        self.seed = seed
        self.config = dict(
            p_switch=0.3,  # probability to switch at a yield point
            p_delay=0.15,  # probability of a delay at a yield point
            delay_max=0.5,
            preempt=0,  # mean number of lines between preemptions (0: off)
            shuffle_dirs=True,
            jitter=0.5, p_stall=0.0,
        )
        if config:
            self.config.update(config)
        self.chooser = Chooser(f"sched-{seed}", replay)
        self.now = 0.0
        self.steps = 0
        self.nodes = []
        self.strands = []
        self.current = None
        self.ctl_lock = _thread.allocate_lock()
        self.ctl_lock.acquire()
        self.until = None
        self.max_time = INF
        self.max_steps = INF
        self.status = None
        self.next_pid = 1000
        self.next_sid = 0
        self.tie = 0
        self.hash = hashlib.blake2b(digest_size=16)
        self.events = []  # history (bounded by the workloads)
        self.log_events = True
        self.faults = []  # fault plan: list of Fault
        self.fired = []  # list of dict: faults that happened
        self.harness_errors = []
        self.ncpu_switches = 0
        self.observers = []  # called at each event (kind, node, detail)
        self.executors = []  # (node, executor), see probe.install
        self.in_observer = False
        self.interleave_hash = hashlib.blake2b(digest_size=8)
        self.root = None
        self.stats = {}
        self.clock_jumps = set()
        self.trace_tail = []
        self.leaked = 0
        self.fork_handlers = []
        self.controller_node = None
        self.running = {}  # works being executed
        self.next_call = 0
        self.last_progress = 0.0
        self.max_idle = INF
        self.max_idle_steps = 15_000
        self.progress_steps = 0
        self.spin = False
        self.hot_lines = {}
        self.hot_delay = 0.0

    def progress(self):
        self.last_progress = self.now
        self.progress_steps = self.steps

    # ------------------------------------------------------------ decisions
    def choose(self, n, label=None, p=None):
        """Choose in range(n); p: probability of not being 0 (default: uniform)"""
        if n <= 1:
            return 0
        if p is None:
            return self.chooser.draw(lambda rng: rng.randrange(n)) % n

        def fn(rng):
            if rng.random() >= p:
                return 0
            return 1 + rng.randrange(n - 1)

        return self.chooser.draw(fn) % n

    # ------------------------------------------------------------ history
    def event(self, kind, detail=None, node=None):
        """Record an event of the history and let the observers see it"""
        if node is None and self.current is not None:
            node = self.current.node
        name = node.name if node is not None else "-"
        self.hash.update(f"{kind}|{name}|{detail}|{self.now:.6f}\n".encode())
        if self.log_events:
            self.events.append((round(self.now, 6), name, kind, detail))
        if self.observers and not self.in_observer:
            self.in_observer = True
            try:
                for observer in self.observers:
                    observer(kind, node, detail)
            finally:
                self.in_observer = False

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # ------------------------------------------------------------ strands
    def spawn(self, node, fn, name, is_main=False, delay=0.0):
        strand = Strand(self, node, fn, name, is_main)
        strand.sid = self.next_sid
        self.next_sid += 1
        strand.ready_at = self.now + delay
        self.strands.append(strand)
        node.strands.append(strand)
        if is_main:
            node.main_strand = strand
        _thread.start_new_thread(self._bootstrap, (strand,))
        return strand

    def _bootstrap(self, strand):
        strand.thread_id = _thread.get_ident()
        strand.lock.acquire()
        from . import seams

        seams.register_thread(strand)
        tracer = None
        if self.config["preempt"] or self.config.get("hot"):
            tracer = seams.make_tracer(self, strand)
            sys.settrace(tracer)
        try:
            self._resumed(strand)
            strand.fn()
        except SpinError:
            self.spin = True
            strand.node.error_text = traceback.format_exc()
        except BaseException as error:  # bug of the simulator
            self.harness_errors.append(
                f"{strand}: " + "".join(traceback.format_exception(error))
            )
        finally:
            if tracer is not None:
                sys.settrace(None)
        strand.done = True
        self.strands.remove(strand)
        strand.node.strands.remove(strand)
        seams.unregister_thread()
        self._switch(strand, finishing=True)

    def _candidates(self):
        now = self.now
        return [s for s in self.strands if s.ready_at <= now]

    def _next(self, prefer=None):
        """Choose the next strand (advance the time if needed)"""
        while True:
            if self.until is not None and self.until():
                self.status = "until"
                return None
            if self.harness_errors:
                self.status = "harness"
                return None
            if self.spin:
                self.status = "spin"
                return None
            if self.steps > self.max_steps:
                self.status = "steps"
                return None
            idle = self.now - self.last_progress
            if idle > self.max_idle or (
                idle > 0.25 * self.max_idle
                and self.steps - self.progress_steps > self.max_idle_steps
            ):
                self.status = "stalled"
                return None
            cands = self._candidates()
            if cands:
                break
            t = min((s.ready_at for s in self.strands), default=INF)
            if t == INF:
                self.status = "deadlock" if self.strands else "finished"
                return None
            if t > self.max_time:
                self.status = "time"
                return None
            self.now = t
        self.steps += 1
        if len(cands) == 1:
            return cands[0]
        if prefer is not None and prefer in cands:
            # 0: go on with the same strand
            others = [s for s in cands if s is not prefer]
            c = self.choose(1 + len(others), p=self.config["p_switch"])
            chosen = prefer if c == 0 else others[c - 1]
        else:
            cands.sort(key=lambda s: (s.ready_at, s.sid))
            # 0: first in time
            c = self.choose(len(cands), p=max(0.5, self.config["p_switch"]))
            chosen = cands[c]
        return chosen

    def _switch(self, me, finishing=False):
        """Give the baton; returns when `me` gets it back"""
        nxt = self._next(prefer=None if finishing else me)
        if nxt is me and not finishing:
            return
        from . import seams

        if me is not None:
            seams.save_globals(me.node)
        if nxt is None:
            # back to the controller
            seams.load_globals(self.controller_node)
            self.current = None
            self.ctl_lock.release()
        else:
            self.ncpu_switches += 1
            self.interleave_hash.update(nxt.sid.to_bytes(4, "little"))
            seams.load_globals(nxt.node)
            self.current = nxt
            nxt.lock.release()
        if finishing:
            return
        me.lock.acquire()  # parked (forever if the node is killed)
        self._resumed(me)

    def _resumed(self, strand):
        strand.blocked = False

    def run(self, until=None, max_time=None, max_steps=None):
        """Run the world (called by the controller, outside of strands)"""
        from . import seams

        self.until = until
        self.max_time = INF if max_time is None else self.now + max_time
        self.max_steps = INF if max_steps is None else self.steps + max_steps
        self.status = None
        nxt = self._next()
        if nxt is not None:
            seams.save_globals(self.controller_node)
            seams.load_globals(nxt.node)
            self.current = nxt
            nxt.lock.release()
            self._wait_controller()
        if self.harness_errors:
            raise HarnessError("\n".join(self.harness_errors))
        return self.status

    def _wait_controller(self):
        """Wait for the end; an endless loop without yield point is broken"""
        from . import seams

        last = None
        while not self.ctl_lock.acquire(timeout=0.5):
            state = (self.steps, self.next_call)
            cpu = seams.real.process_time()
            if last is None or last[0] != state:
                last = (state, cpu)
            elif cpu - last[1] > SPIN_CPU_SECONDS and not self.spin:
                strand = self.current
                if strand is not None:
                    self.spin = True
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(
                        ctypes.c_ulong(strand.thread_id), ctypes.py_object(SpinError)
                    )

    # ------------------------------------------------------------ yield points
    def _after(self, me):
        """Called in the strand after it got the baton back"""
        node = me.node
        if me.is_main and node.pending_signals and not me.in_signal:
            self._run_signal_handlers(me)

    def yield_point(self, kind, detail=None, delay=True, target=None, p_delay=None):
        """A point where others can run and where faults can strike"""
        me = self.current
        if me is None:
            return
        node = me.node
        node.ops += 1
        self.event(kind, detail, node)
        if self.faults:
            self._faults(kind, detail, node, me)
        if delay:
            c = self.choose(8, p=self.config["p_delay"] if p_delay is None else p_delay)
            if c:
                # log-uniform durations
                d = self.config["delay_max"] * (10.0 ** (-(7 - c) * 0.5))
                me.ready_at = self.now + d
        self._switch(me)
        me.ready_at = self.now
        self._after(me)

    def sleep(self, duration):
        me = self.current
        end = self.now + max(0.0, duration) + self._tie()
        while True:
            me.ready_at = end
            self._switch(me)
            me.ready_at = self.now
            self._after(me)
            if self.now >= end:
                return

    def _tie(self):
        self.tie += 1
        return (self.tie % 100003) * 1e-10

    def block(self, timeout=None):
        """Wait for `wake` (or the timeout)"""
        me = self.current
        if me.permit:
            me.permit = False
            return True
        if me.is_main and me.node.pending_signals and not me.in_signal:
            self._run_signal_handlers(me)
            return False
        me.blocked = True
        me.ready_at = INF if timeout is None else self.now + timeout
        self._switch(me)
        woken = me.permit
        me.permit = False
        me.blocked = False
        me.ready_at = self.now
        self._after(me)
        return woken

    def wake(self, strand):
        if strand.done or strand.node.dead:
            return
        strand.permit = True
        if strand.blocked:
            strand.ready_at = self.now

    def wait_until(self, cond, timeout=None, period=0.05):
        """Wait (polling) until cond() is true"""
        end = None if timeout is None else self.now + timeout
        while not cond():
            if end is not None and self.now >= end:
                return cond()
            left = None if end is None else end - self.now
            me = self.current
            self.waiters.add(me)
            try:
                self.block(left)
            finally:
                self.waiters.discard(me)
        return True

    @property
    def waiters(self):
        try:
            return self._waiters
        except AttributeError:
            self._waiters = _OrderedSet()
            return self._waiters

    def notify(self):
        """Something changed: the waiters have to check their conditions"""
        for strand in list(self.waiters):
            self.wake(strand)

    # ------------------------------------------------------------ faults
    def _faults(self, kind, detail, node, me):
        for fault in self.faults:
            if fault.done or not fault.matches(self, kind, detail, node):
                continue
            fault.countdown -= 1
            if fault.countdown > 0:
                continue
            fault.done = not fault.repeat
            fault.apply(self, kind, detail, node, me)

    def fault_fired(self, name, **info):
        self.progress()
        self.fired.append(dict(fault=name, t=round(self.now, 6), **info))
        self.count("fault:" + name)
        self.event("FAULT", f"{name} {info}")

    # ------------------------------------------------------------ signals
    def send_signal(self, node, sig):
        if node.dead or node.exitcode is not None:
            return
        self.event("signal", f"{sig}->{node.name}")
        action = node.signal_handlers.get(sig, "default")
        if sig == 9:
            self.kill(node, -9)
            return
        if action == "ignore":
            return
        if action == "default" and sig != 2:
            self.kill(node, -sig)
            return
        node.pending_signals.append(sig)
        main = node.main_strand
        if main is not None and main.ready_at > self.now:
            # the system calls are interrupted
            main.ready_at = self.now

    def _run_signal_handlers(self, me):
        node = me.node
        me.in_signal = True
        try:
            while node.pending_signals:
                sig = node.pending_signals.pop(0)
                handler = node.signal_handlers.get(sig, "default")
                self.event("signal-handled", str(sig), node)
                if handler == "default":
                    if sig == 2:
                        raise KeyboardInterrupt
                    continue
                if handler == "ignore":
                    continue
                handler(sig, sys._getframe())
        finally:
            me.in_signal = False

    # ------------------------------------------------------------ nodes
    def kill(self, node, exitcode=-9):
        """Abrupt end of a node: nothing buffered is written"""
        if node.exitcode is not None:
            return
        me = self.current
        node.dead = True
        node.exitcode = exitcode
        node.end_time = self.now
        self.progress()
        self.event("killed", f"{node.name} {exitcode}", node)
        for strand in list(node.strands):
            if strand in self.strands:
                self.strands.remove(strand)
                self.leaked += 1
        from . import seams

        seams.node_killed(self, node)
        for rkey in [r for r, v in self.running.items() if v[3] is node]:
            del self.running[rkey]
        for callback in list(node.on_exit):
            callback()
        self.notify()
        if me is not None and me.node is node:
            # give the baton and never come back
            self._switch(me, finishing=True)
            park_forever()

    def node_by_pid(self, pid):
        for node in self.nodes:
            if node.pid == pid:
                return node


class _OrderedSet(dict):
    def add(self, x):
        self[x] = None

    def discard(self, x):
        self.pop(x, None)


_park = []


def park_forever():
    lock = _thread.allocate_lock()
    lock.acquire()
    _park.append(lock)
    lock.acquire()


class Node:
    """A simulated process"""

    def __init__(self, kernel, name, kind="main", parent=None):
        self.kernel = kernel
        self.name = name
        self.kind = kind
        self.parent = parent
        self.pid = kernel.next_pid
        kernel.next_pid += 1 + (0 if parent is None else 0)
        self.strands = []
        self.main_strand = None
        self.signal_handlers = {}
        self.pending_signals = []
        self.atexit = []
        self.exitcode = None
        self.dead = False
        self.error = None
        self.error_text = ""
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.argv = ["sim"]
        self.clock_offset = 0.0
        self.globals = None
        self.ops = 0
        self.on_exit = []
        self.open_files = []
        self.h5_files = []
        self.children = []
        self.daemon = False
        self.start_time = kernel.now
        self.end_time = None
        self.result = None
        self.tags = {}
        kernel.nodes.append(self)
        kernel.progress()
        if parent is not None:
            parent.children.append(self)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<Node {self.name} {self.exitcode}>"

    @property
    def alive(self):
        return self.exitcode is None


class Fault:
    """One planned fault: when the countdown-th matching event happens, strike.

    spec keys: kind ('kill', 'signal', 'oserror', 'stall', 'clock'), at (dict with
    'node': prefix, 'op': prefix of the kind of event, 'path': substring,
    'path_not': substring), n, and
    parameters of the fault.
    """

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.countdown = spec.get("n", 1)
        self.repeat = spec.get("repeat", False)
        self.done = False

    def matches(self, k, kind, detail, node):
        at = self.spec.get("at", {})
        if node is None:
            return False
        prefix = at.get("node")
        if prefix is not None and not node.name.startswith(prefix):
            return False
        exact = at.get("node_is")
        if exact is not None and node.name != exact:
            return False
        op = at.get("op")
        if op is not None and not kind.startswith(op):
            return False
        path = at.get("path")
        if path is not None and path not in str(detail):
            return False
        path_not = at.get("path_not")
        if path_not is not None and path_not in str(detail):
            return False
        after = at.get("after")
        if after is not None and k.now < after:
            return False
        return True

    def apply(self, k, kind, detail, node, me):
        from . import seams

        spec = self.spec
        target = node
        if spec.get("target"):
            found = [n for n in k.nodes if n.name == spec["target"] and n.alive]
            if not found:
                return
            target = found[0]
        if self.kind == "kill":
            seams.prepare_torn(k, target, spec.get("torn", 0.5))
            k.fault_fired("kill", node=target.name, at=kind)
            victims = [target]
            if spec.get("group"):
                # the whole job (terminal closed, batch system, power button)
                victims += [
                    other for other in k.nodes
                    if other is not target and other.alive
                    and _is_descendant(other, target)
                ]
            # killing the current node never returns: last
            victims.sort(key=lambda other: other is me.node)
            for other in victims:
                seams.prepare_torn(k, other, spec.get("torn", 0.5))
            for other in victims:
                k.kill(other, spec.get("exitcode", -9))
        elif self.kind == "signal":
            k.fault_fired("signal%d" % spec["sig"], node=target.name, at=kind)
            targets = [target]
            if spec.get("group"):
                targets += [
                    n for n in k.nodes if n is not target and n.alive
                    and _is_descendant(n, target)
                ]
            for t in targets:
                k.send_signal(t, spec["sig"])
        elif self.kind == "oserror":
            k.fault_fired("errno%d" % spec["errno"], node=node.name, at=kind,
                          path=str(detail))
            raise seams.InjectedOSError(
                spec["errno"], "injected by the simulator", str(detail)
            )
        elif self.kind == "stall":
            k.fault_fired("stall", node=target.name, at=kind)
            for strand in target.strands:
                if strand.ready_at < INF:
                    strand.ready_at = max(strand.ready_at, k.now + spec["duration"])
            if me.node is target:
                k.sleep(spec["duration"])
        elif self.kind == "clock":
            k.fault_fired("clock", node=target.name, at=kind)
            target.clock_offset += spec["offset"]
        else:
            raise HarnessError(f"unknown fault {self.kind}")


def _is_descendant(node, ancestor):
    while node is not None:
        if node is ancestor:
            return True
        node = node.parent
    return False
