"""C09: execution logs report exactly the works that ran"""

import contextlib
import io
import os
import random
from collections import Counter

from simfi import cases, engine

ID = "C09"
TITLE = "Execution logs report exactly the works that ran"
LEVEL = "fault_enumeration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "works started and ended, seen by the instrumented functions of the works, compared "
    "with the works and works_ended of LogTopology for the logs of the same execution; "
    "after a crash: each log file parsed, works of the topology only"
)
KINDS = ["im2im", "lite", "preproc", "bos", "piv", "mean", "optflow", "surface"]
WEIGHTS = [5, 4, 2, 1.5, 1, 1, 0.3, 0.8]
MAIN_DIR = cases.MULTI + ["exec_async_servers", "exec_async_servers_threading"]


def generate(rng, seed, tier):
    sc = engine.gen_base(rng, KINDS, weights=WEIGHTS)
    if sc["case"]["kind"] in ("im2im", "mean") and rng.random() < 0.3:
        sc["case"]["base"] = rng.choice(["my image ", "a done in ", "(x) ", "im_", "é"])
    sc["logging_level"] = rng.choice(["info", "info", "info", "debug", None])
    r = rng.random()
    if r < 0.3:
        sc["fail"] = engine.gen_fail(rng, sc)
    elif r < 0.4:
        sc["corrupt"] = engine.gen_corrupt(rng, sc)
    elif r < 0.5 and sc["case"]["kind"] != "mean":
        sc["faults"] = engine.gen_write_error(rng, sc)
    elif r < 0.75:
        crash = engine.gen_crash(rng)
        if rng.random() < 0.5:
            # in the middle of the writing in a log file
            crash["at"] = {
                "op": rng.choice(["fs.write", "fs.write", "fs.opened"]),
                "path": rng.choice(["log_2", "log_2", "process_0"]),
            }
            crash["n"] = engine.log_uniform(rng, 1, 60)
            if rng.random() < 0.3:
                crash["at"]["node_is"] = "main"
        sc["faults"] = [crash]
    elif r < 0.8 and sc["executor"] not in cases.IN_PROCESS:
        letter = "s" if "subproc" in sc["executor"] else "f"
        name = f"main/{letter}{rng.randrange(sc['nb_max_workers'])}"
        sc["faults"] = [{
            "kind": "kill", "target": name, "at": {"node_is": name},
            "n": engine.log_uniform(rng, 1, 300),
        }]
    if "clock_jumps" not in sc["config"] and rng.random() < 0.25:
        sc["config"]["clock_jumps"] = engine.gen_clock_jumps(rng)
    # a former execution in the same directory
    sc["former"] = rng.random() < 0.15
    return sc


def parse(path):
    from fluidimage.topologies.log import DataLogFile, LogTopology

    with contextlib.redirect_stdout(io.StringIO()):
        if path.name.startswith("process_"):
            return DataLogFile(path)
        return LogTopology(path)


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        executor = sc["executor"]
        run.tags = {executor: 1, case.kind: 1}
        what = f"{executor} on {case.kind}"
        if sc.get("former"):
            phase = run.compute("former")
            if phase.status != "until":
                return run
            run.kernel.now += 1.5
        engine.corrupt_images(run, sc)
        run.world.set_faults(sc.get("faults", ()))
        phase = run.compute()
        run.world.clear_faults()
        if phase.status != "until":
            run.violate("not-terminated", f"{what}: {phase.describe()}")
            return run
        run.finish()
        crashed = phase.node.exitcode == -9
        executor_obj = phase.topology.executor if phase.topology is not None else None
        check_files(run, case, what)
        if executor_obj is None or run.violations:
            return run
        killed = any(f["fault"] == "kill" for f in run.kernel.fired)
        check_execution(run, phase, what, executor_obj, crashed, killed)
        run.tags["interrupted" if crashed else "finished"] = 1
        if not run.violations:
            check_cut_files(run, what)
    return run


def check_cut_files(run, what):
    """Executions interrupted while these files were being written"""
    rng = random.Random(run.sc["seed"])
    paths = log_files(run)
    for path in rng.sample(paths, min(3, len(paths))):
        data = path.read_bytes()
        starts = [i + 1 for i, c in enumerate(data[:-1]) if c == 10]
        cuts = {rng.randint(0, len(data)) for _ in range(6)}
        for start in rng.sample(starts, min(3, len(starts))):
            # all the positions in a line
            end = data.find(b"\n", start)
            cuts.update(range(start, max(end, start) + 1))
        for cut in sorted(cuts, reverse=True)[:400]:
            os.truncate(path, cut)
            try:
                parse(path)
            except Exception as error:
                run.violate(
                    "cut-cannot-be-parsed", f"{what}: {path.name} interrupted after "
                    f"{data[:cut][-40:]!r}: {type(error).__name__}: {error}",
                )
                return
            run.tags["cut files"] = run.tags.get("cut files", 0) + 1
        path.write_bytes(data)


def log_files(run):
    directory = run.case.result_dir(run.root)
    if not directory.exists():
        return []
    return sorted(
        p for p in directory.rglob("*.txt")
        if (p.name.startswith("log_") or p.name.startswith("process_")) and p.is_file()
    )


def check_files(run, case, what):
    """Each file can be parsed"""
    for path in log_files(run):
        try:
            parse(path)
        except Exception as error:
            run.violate(
                "cannot-be-parsed", f"{what}: {path.name} "
                f"({path.stat().st_size} bytes): {type(error).__name__}: {error}",
            )


def known_works(case):
    keys = case.keys()
    return {(w.replace(" ", "_"), str(key)) for (w, i), key in keys.items()}


def check_execution(run, phase, what, executor, crashed, killed):
    """The log of this execution, as a user would open it"""
    case = run.case
    directory = case.result_dir(run.root)
    postfix = executor._unique_postfix
    if run.sc["executor"] in MAIN_DIR:
        path = directory / f"log_{postfix}"
        if not (path / f"log_{postfix}.txt").exists():
            if not crashed:
                run.violate("no-log", f"{what}: no file log_{postfix}.txt")
            return
    else:
        path = directory / f"log_{postfix}.txt"
        if not path.exists():
            if not crashed:
                run.violate("no-log", f"{what}: no file log_{postfix}.txt")
            return
    paths = [path]
    if not run.sc.get("former"):
        # the last execution of the directory
        paths.append(directory)
    for path in paths:
        try:
            log = parse(path)
        except Exception as error:
            run.violate(
                "cannot-be-parsed", f"{what}: {path.name}: "
                f"{type(error).__name__}: {error}",
            )
            return
        compare(run, phase, what, log, crashed, killed)


def compare(run, phase, what, log, crashed, killed):
    case = run.case
    known = known_works(case)
    launched = Counter(
        (w["name"], w["key"]) for w in log.works if w["key"] != "kind='global'"
    )
    ended = Counter(
        (w["name"], w["key"]) for w in log.works_ended if w["key"] != "kind='global'"
    )
    keys = case.keys()
    real, real_ended = Counter(), Counter()
    for kind, item, node in run.executions(phase):
        if item not in keys:
            continue
        name = (item[0].replace(" ", "_"), str(keys[item]))
        if kind == "work_start":
            real[name] += 1
        elif kind == "work_end":
            real_ended[name] += 1
    unknown = sorted(set(launched) - known) + sorted(set(ended) - known)
    if unknown and not crashed:
        run.violate("unknown-work", f"{what}: {unknown[:4]}")
        return
    if crashed:
        # only the last line can be incomplete
        n = len(set(launched) - known)
        if n > len(run.kernel.nodes):
            run.violate("unknown-work", f"{what}, crash: {unknown[:4]}")
        return
    if run.sc["executor"] == "exec_async_multi" and run.kernel.stats.get(
        "fault:slow_start"
    ):
        # attempts to start a process which were given up
        real = Counter(set(real))
        real_ended = Counter(set(real_ended))
        killed = True
    if killed:
        # what a killed process did is not always known by its log
        bad = {k for k, n in ended.items() if n > real_ended.get(k, 0)}
        if bad:
            run.violate(
                "ended-not-ended", f"{what}: {sorted(bad)[:4]} said to be ended"
            )
        return
    for sig, a, b in (
        ("launched", launched, real), ("ended", ended, real_ended),
    ):
        if sig == "launched" and not phase.returned:
            # items cancelled just after being announced
            a = a & b
        if a != b:
            missing = sorted((b - a).elements())[:4]
            extra = sorted((a - b).elements())[:4]
            run.violate(
                f"{sig}-differ", f"{what}: not in the log: {missing}; only in the log: "
                f"{extra}",
            )
    names = set(log.names_works) - {"main", "make_couples", "make_couples_of_arrays"}
    if not {n for n, _ in real} <= names:
        run.violate("names", f"{what}: names_works {log.names_works}")
    if log.nb_max_workers != phase.topology.executor.nb_max_workers:
        run.violate("header", f"{what}: nb_max_workers {log.nb_max_workers}")
    if not hasattr(log, "duration"):
        if phase.returned and real:
            run.violate("no-duration", f"{what}: duration not found")
    for name in log.names_works:
        d = log.durations[name]
        negative = any(x < 0 for x in d) and not run.sc["config"].get("clock_jumps")
        if len(d) != len(log.keys[name]) or negative:
            run.violate("durations", f"{what}: {name}: {d}")
