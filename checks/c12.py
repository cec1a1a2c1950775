"""C12: result directories follow the saving mode and never collide"""

import os
from pathlib import Path

from simfi import cases, engine, seams

ID = "C12"
TITLE = "Result directories follow the saving mode and never collide"
LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 100_000, "seconds": 40, "shrink": 40},
    "thorough": {"runs": 1_000_000, "seconds": 600, "shrink": 120},
}
ORACLE = (
    "tree of files before and after each computation (content, identity, time): what "
    "may change according to the saving mode and the answers of the user; directories, "
    "jobs and logs of computations started at the same time are distinct; results "
    "computed outside of the simulation"
)
KINDS = ["im2im", "lite", "bos", "preproc", "piv", "surface"]
WEIGHTS = [5, 5, 1, 1.5, 0.7, 0.8]
IN_PROCESS = [
    "exec_sequential", "exec_async", "exec_async_sequential",
    "exec_async_servers_threading",
]


def gen_computation(rng, executors, hows):
    c = {"executor": engine.gen_executor(rng, executors), "how": rng.choice(hows)}
    c["workers"] = rng.choice([1, 2, 2, 3])
    return c


def generate(rng, seed, tier):
    sc = {"seed": seed, "config": engine.gen_config(rng), "sleep_time": 0.01}
    sc["case"] = engine.gen_case(rng, KINDS, WEIGHTS, max_items=rng.choice([2, 2, 4]))
    sc["scenario"] = r = rng.choices(
        ["new_dir", "same", "modes", "ask"], [4, 4, 2.5, 2.5]
    )[0]
    # how the directory is given by the user
    sc["path"] = rng.choice([None, None, None, "str", "path", "deep"])
    if r in ("new_dir", "same"):
        sc["base_exists"] = rng.random() < 0.6
        hows = ["new_dir"] if r == "new_dir" else ["recompute", "complete"]
        if r == "new_dir" and rng.random() < 0.25:
            sc["base_exists"] = True
            hows = ["new_dir", "new_dir", "recompute", "complete"]
        sc["processes"] = processes = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            n = rng.choice([1, 1, 1, 2, 3, 4])
            executors = cases.executors_for(sc["case"])
            if n > 1 and rng.random() < 0.6:
                executors = IN_PROCESS
            processes.append({
                "delay": rng.choice([0.0, 0.0, 0.0, 0.001, 0.1, 1.0]),
                "list": [gen_computation(rng, executors, hows) for _ in range(n)],
                "same_params": rng.random() < 0.3,
            })
        if rng.random() < 0.4:
            # nothing takes time
            sc["config"]["p_duration"] = 0.0
        sc["existing"] = sorted(
            rng.sample(["0", "1", "2", "10"], rng.choice([0, 0, 1, 2]))
        )
    else:
        sc["base_exists"] = True
        executors = cases.executors_for(sc["case"])
        hows = ["recompute", "complete", "new_dir"] if r == "modes" else ["ask"]
        c = gen_computation(rng, executors, hows)
        sc["processes"] = [{"delay": 0.0, "list": [c], "same_params": False}]
        if r == "ask":
            if rng.random() < 0.1:
                sc["base_exists"] = False
            letter = rng.choice("nncrsssNCRSSS")
            c["answers"] = [
                rng.choice(["", "x", "yes", "recompute", "stop", " s", "0"])
                for _ in range(rng.choice([0, 0, 1, 2]))
            ] + [letter]
        names = sorted(cases.make(sc["case"]).results())
        sc["present"] = [n for n in names if rng.random() < 0.5]
        if not sc["base_exists"]:
            sc["present"] = []
        sc["stale"] = rng.random() < 0.7
        sc["existing"] = rng.choice([[], [], ["0"], ["1"]])
    return sc


def valid(sc):
    return (
        bool(sc["processes"]) and all(p["list"] for p in sc["processes"])
        and set(sc.get("present", ())) <= set(cases.make(sc["case"]).results())
    )


def simpler(sc):
    """Less processes, less computations"""
    for i in range(len(sc["processes"])):
        if len(sc["processes"]) > 1:
            yield dict(sc, processes=sc["processes"][:i] + sc["processes"][i + 1:])
    for i, p in enumerate(sc["processes"]):
        for j in range(len(p["list"])):
            if len(p["list"]) > 1:
                new = dict(p, list=p["list"][:j] + p["list"][j + 1:])
                yield dict(
                    sc, processes=sc["processes"][:i] + [new] + sc["processes"][i + 1:]
                )


class Computation:
    """What happened during one computation"""

    started = returned = stopped = False
    error = path = how = executor = topology = None
    results = ()
    asked = None


def tree(path):
    """relative path -> (content, identity, time) or None for the directories"""
    ret = {}
    path = str(path)
    for top, dirs, names in os.walk(path):
        rel = os.path.relpath(top, path)
        for d in dirs:
            ret[os.path.normpath(os.path.join(rel, d))] = None
        for name in names:
            full = os.path.join(top, name)
            st = os.stat(full)
            with seams.real.open(full, "rb") as file:
                content = file.read()
            ret[os.path.normpath(os.path.join(rel, name))] = (
                content, st.st_ino, st.st_mtime_ns
            )
    return ret


def base_dir(run):
    kind = run.sc["path"]
    if kind is None:
        return run.case.result_dir(run.root)
    if kind == "deep":
        return run.root / "Images" / "results.of.mine"
    return run.root / "my_results"


def stale_content(name, valid_content):
    """An old result: not what would be computed"""
    return b"old " + name.encode() + valid_content[:50]


def execute(sc, replay=None):
    with engine.Run(sc, replay) as run:
        case = run.case
        base = base_dir(run)
        run.tags = {sc["scenario"]: 1, case.kind: 1}
        if sc["base_exists"]:
            base.mkdir(parents=True)
            with seams.real.open(base / "notes of the user.txt", "w") as file:
                file.write("important\n")
        for postfix in sc["existing"]:
            other = Path(str(base) + postfix)
            other.mkdir(parents=True)
            with seams.real.open(other / "thesis.png", "w") as file:
                file.write("chapter 1\n")
        make_present(run, base)
        before = tree(run.root)
        comps = []
        nodes = []
        for i, proc in enumerate(sc["processes"]):
            mine = [Computation() for _ in proc["list"]]
            comps.extend(mine)
            nodes.append(run.world.start(
                make_main(run, proc, mine), f"main{i}", proc["delay"]
            ))
            nodes[-1].answers = [
                a for c in proc["list"] for a in c.get("answers", ())
            ]
        run.kernel.progress()
        status = run.world.run(*nodes, max_time=3600.0, max_steps=400_000)
        if status != "until":
            run.violate("not-terminated", f"{sc['scenario']}: status {status}")
            run.finish()
            return run
        run.finish()
        after = tree(run.root)
        check(run, sc, base, comps, before, after)
    return run


def make_present(run, base):
    """Some results are already there (old ones, or valid ones)"""
    from checks.c05 import make_present as make

    sc = run.sc
    if not sc.get("present"):
        return
    if sc["path"] is None:
        directory = base
        make(run, sc["present"])
    else:
        directory = run.case.result_dir(run.root)
        make(run, sc["present"])
        for name in sc["present"]:
            os.rename(directory / name, base / name)
        os.rmdir(directory)
    if sc["stale"]:
        for name in sc["present"]:
            path = base / name
            data = path.read_bytes()
            with seams.real.open(path, "wb") as file:
                file.write(stale_content(name, data))


def make_main(run, proc, comps):
    sc, case, root = run.sc, run.case, run.root
    base = base_dir(run)

    def main():
        params = None
        for spec, comp in zip(proc["list"], comps):
            comp.spec = spec
            comp.started = True
            if params is None or not proc["same_params"]:
                params = case.make_params(root)
                if sc["path"] == "str" or sc["path"] == "deep":
                    params.saving.path = str(base)
                elif sc["path"] == "path":
                    params.saving.path = base
            params.saving.how = spec["how"]
            try:
                compute(spec, comp, params)
            except SystemExit:
                comp.stopped = True
            except Exception as error:
                comp.error = error

    def compute(spec, comp, params):
        topo = comp.topology = case.topology_cls()(params, logging_level="info")
        comp.path = Path(topo.path_dir_result)
        comp.how = topo.how_saving
        topo.compute(
            spec["executor"], nb_max_workers=spec["workers"],
            sleep_time=sc["sleep_time"],
        )
        comp.returned = True
        comp.results = list(getattr(topo, "results", ()))

    return main


def describe(comp):
    text = f"{comp.spec['executor']} how={comp.spec['how']}"
    if "answers" in comp.spec:
        text += f" answers={comp.spec['answers']}"
    return text


def check(run, sc, base, comps, before, after):
    case = run.case
    root = run.root
    scenario = sc["scenario"]
    letter = None
    for comp in comps:
        if not comp.started:
            run.violate("not-started", "a computation was not started")
            return
        if "answers" in comp.spec:
            letter = comp.spec["answers"][-1].lower()
            if not sc["base_exists"]:
                letter = "r"
        if comp.stopped and letter == "s":
            continue
        if comp.error is not None or not comp.returned:
            run.violate(
                "not-computed", f"{scenario}, {describe(comp)}: "
                f"{type(comp.error).__name__}: {str(comp.error)[:300]}",
            )
    if run.violations:
        return
    if letter == "s":
        run.tags["refused"] = 1
        comp = comps[0]
        if not comp.stopped:
            run.violate("not-stopped", f"{describe(comp)}: the computation goes on")
        if after != before:
            run.violate(
                "refusal-touches", f"{describe(comp)}: changed "
                f"{changes(before, after)[:5]}",
            )
        return
    # expected directories
    dirs = {}
    for comp in comps:
        how = comp.spec["how"]
        if how == "ask":
            how = {"n": "new_dir", "c": "complete", "r": "recompute"}[letter]
            run.tags["answer " + letter] = 1
        comp.expected_how = how
        dirs.setdefault(comp.path.resolve(), []).append(comp)
        if how != "new_dir" and comp.path.resolve() != base.resolve() and not (
            comp is not comps[0] and same_params_before(sc, comps, comp)
        ):
            run.violate(
                "wrong-directory", f"{describe(comp)}: results in {comp.path}, "
                f"not in {base}",
            )
    for path, users in dirs.items():
        rel = os.path.relpath(path, root)
        new = [c for c in users if c.expected_how == "new_dir"]
        others = [c for c in users if c not in new]
        if new and rel in before:
            run.violate("not-new", f"{describe(new[0])}: {rel} already existed")
        if len(new) > 1:
            run.violate(
                "shared-directory", f"{len(new)} computations with new_dir in {rel}"
            )
        if new and others and not all(
            same_params_before(sc, comps, c) for c in others
        ):
            run.violate(
                "shared-directory", f"{describe(new[0])} and {describe(others[0])} "
                f"in {rel}",
            )
    if run.violations:
        return
    # nothing else is created or changed
    rels = [os.path.relpath(p, root) for p in dirs]
    for name in changes(before, after):
        if name in rels or any(name.startswith(r + os.sep) for r in rels):
            continue
        run.violate("unrelated-change", f"{scenario}: {name} created or changed")
        break
    for path, users in dirs.items():
        check_directory(run, sc, path, users, before, after)
    check_jobs(run, dirs)
    nmax = max(len(users) for users in dirs.values())
    run.tags[f"{nmax} computations in a directory"] = 1
    run.tags[f"{len(dirs)} directories"] = 1


def same_params_before(sc, comps, comp):
    """Not the first computation with these params: the path was set by the first"""
    i = 0
    for proc in sc["processes"]:
        for j, _ in enumerate(proc["list"]):
            if comps[i] is comp:
                return proc["same_params"] and j > 0
            i += 1
    return False


def changes(before, after):
    return sorted(
        name for name in set(before) | set(after)
        if name not in before or name not in after or before[name] != after[name]
    )


def check_directory(run, sc, path, users, before, after):
    case = run.case
    rel = os.path.relpath(path, run.root)
    what = "+".join(describe(c) for c in users[:3])
    expected = set(case.results())
    hows = {c.expected_how for c in users}
    present = set(sc.get("present", ())) if path == base_dir(run).resolve() else set()
    old = {n: before.get(os.path.join(rel, n)) for n in present}
    new = {n: after.get(os.path.join(rel, n)) for n in expected | present}
    if hows == {"complete"} and present:
        todo = case.to_complete(present)
        for name in sorted(present - todo):
            if new[name] != old[name]:
                run.violate("complete-changes", f"{what}: {name} was present")
        for name in sorted(expected - present):
            if new[name] is None:
                run.violate("missing-result", f"{what}: {name}")
        run.check_contents(sorted(todo & set(case.list_results(path))), path)
    else:
        if "recompute" in hows:
            for name in sorted(present):
                if new[name] is not None and new[name][1:] == old[name][1:]:
                    run.violate("not-replaced", f"{what}: {name}")
        run.check_results(expected, path)
    # what is not a result is untouched
    for name in changes(before, after):
        if not name.startswith(rel + os.sep):
            continue
        inside = name[len(rel) + 1:]
        if name in before and inside not in expected:
            run.violate("touched", f"{what}: {name} changed or removed")


def check_jobs(run, dirs):
    """Each computation has its own job files and log"""
    for path, users in dirs.items():
        names = sorted(seams.real.os_listdir(path))
        jobs = [n for n in names if n.startswith("job_")]
        logs = []
        for name in names:
            if not name.startswith("log_"):
                continue
            full = path / name
            if full.is_dir():
                logs.extend(
                    full / n for n in sorted(seams.real.os_listdir(full))
                    if n.startswith("log_")
                )
            else:
                logs.append(full)
        what = "+".join(describe(c) for c in users[:4])
        working = [
            c for c in users
            if getattr(c.topology.executor, "num_expected_results", 1) != 0
        ]
        if len(jobs) != len(working):
            run.violate(
                "jobs", f"{len(working)} computations, {len(jobs)} job directories "
                f"{jobs[:4]} ({what})",
            )
        for job in jobs:
            inside = set(seams.real.os_listdir(path / job))
            missing = {"params.xml", "info.xml", "time_end.txt"} - inside
            if missing or "is_running.lock" in inside:
                run.violate("job-files", f"{job} contains {sorted(inside)} ({what})")
        if len(logs) != len(users):
            run.violate(
                "logs", f"{len(users)} computations, {len(logs)} logs "
                f"{[p.name for p in logs][:4]} ({what})",
            )
        written = 0
        for log in logs:
            with seams.real.open(log, encoding="utf-8", errors="replace") as file:
                text = file.read()
            n = text.count("starting execution. mem usage")
            ends = text.count("end of `compute`. mem usage")
            if n > 1 or ends > 1:
                run.violate("log-shared", f"{log.name}: log of {n} computations")
            written += n
        if written != len(working) and not run.violations:
            run.violate(
                "logs", f"{len(working)} computations, {written} logs written ({what})"
            )


NOTE = (
    "The processes are on one machine (distinct pids); directories shared by several "
    "hosts are not simulated."
)
