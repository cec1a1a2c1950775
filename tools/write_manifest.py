"""Writes MANIFEST.json from the check modules and properties.jsonl"""

import importlib
import json
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))

PYTHON = "/opt/venv/bin/python"
TECHNIQUE = "deterministic simulation with fault injection"

NOT_APPLICABLE = {
    "N01": "accuracy of a pure numerical function of two arrays: no schedule, time, "
    "I/O or fault can change it, so a simulator has nothing to decide",
    "N02": "equivalence of pure numerical kernels on the same arrays: nothing "
    "nondeterministic to control",
    "N03": "algebraic identity of pure functions of a calibration file: no "
    "concurrency, time or I/O fault involved",
    "N04": "identities of pure numerical functions: nothing for a simulator to "
    "schedule or to fail",
    "N05": "pure translation of one XML document: one input, one output, no schedule",
}


def main():
    checks = []
    for path in sorted((VERIF / "checks").glob("c[0-9][0-9].py")):
        check = importlib.import_module(f"checks.{path.stem}")
        checks.append(
            {
                "property": check.ID,
                "quick_cmd": f"{PYTHON} check.py {check.ID} --tier quick",
                "thorough_cmd": f"{PYTHON} check.py {check.ID} --tier thorough",
                "technique": TECHNIQUE,
                "level": check.LEVEL,
                "level_note": getattr(check, "NOTE", check.ORACLE),
            }
        )
    claimed = {c["property"] for c in checks}
    not_applicable = []
    for line in (VERIF / "properties.jsonl").read_text().splitlines():
        prop = json.loads(line)
        if prop["id"] in claimed:
            continue
        reason = NOT_APPLICABLE.get(prop["id"], "check not built yet")
        not_applicable.append({"property": prop["id"], "reason": reason})
    manifest = {
        "version": 1,
        "setup_cmd": f"{PYTHON} tools/setup.py",
        "checks": checks,
        "not_applicable": not_applicable,
        "notes": "No hook is needed in /repo: the seams are installed at run time by "
        "simfi/seams.py. Replay: see DESIGN.md.",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


if __name__ == "__main__":
    main()
