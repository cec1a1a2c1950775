"""Writes known_findings.json (findings that are recorded, defects that were fixed)"""

import json
import os
import subprocess
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent

# beginning of the subject of the commit in /repo -> properties, what failed
FIXED = [
    ("book the server before", "C01", "exec_async_servers: compute returned without "
     "the results of the items sent to a server not yet booked"),
    ("use the preprocessed images in the BOS", "C01", "BOS with params.preproc: the "
     "preprocessed images were not used and compute never returned"),
    ("limits of the async executors", "C02", "executors waiting for ever when the "
     "couples or subsets need more items than the queue limit; more workers than "
     "nb_max_workers (C13)"),
    ("nothing to be computed (exec_sequential", "C02", "error or hang when there is "
     "nothing to be computed"),
    ("subsets of images with one image", "C03", "TopologyPreproc: an image which "
     "cannot be read blocked or broke the computation"),
    ("exec_async_servers has to log", "C03", "no exception file for the works executed "
     "by the servers"),
    ("imread has to raise", "C03", "None given to the next work for an image which "
     "cannot be read by OpenCV"),
    ("results appear in the directory only", "C04", "files truncated by a crash taken "
     "for finished results by the mode complete; same after a failed write (C15)"),
    ("mean image written completely", "C14", "truncated mean image after a crash or a "
     "failed write"),
    ("no mean image when", "C14", "mean of a part of the selection presented as the "
     "mean when an image could not be read or when a process died"),
    ("TopologyPreproc in mode complete", "C04", "subsets partially saved before a crash "
     "never completed"),
    ("splitters of images do not count", "C05", "the reference image of a BOS "
     "computation counted and given to a process"),
    ("exec_async_multi and exec_async_servers survive", "C06", "compute waiting for "
     "ever after the death of a process"),
    ("incomplete last line in the results", "C06", "truncated names in topology.results "
     "after the death of a process"),
    ("job files (lock released", "C07", "lock kept when compute raises; len_results "
     "files transiently empty"),
    ("the monitor can be opened", "C08", "AssertionError when opened early or with the "
     "executors without len_results file; last results and duration not displayed"),
    ("only the last blocked work goes on", "C13", "with full queues, several blocked "
     "works went on together: queues longer than their limit plus the workers"),
    ("parsing of the logs", "C09", "logs of interrupted executions and keys with spaces "
     "not parsed"),
    ("server threads do not replace", "C09", "exec_async_servers_threading: the header "
     "and the end of the log of the executor written in the log of a server"),
    ("answers in upper case", "C12", "answer 'S' (stop) accepted, but the computation "
     "went on and changed the files"),
    ("new_dir gives a directory", "C12", "same directory for several computations "
     "started together with new_dir; TypeError when the path is a Path"),
    ("computations started within the same second", "C12", "second or third "
     "computation of a process within one second: FileExistsError, shared job "
     "directory, overwritten logs"),
    ("sub-processes use the directory of their parent", "C12", "multi_exec_subproc with "
     "new_dir: results in another directory; exec_async_servers: useless directories"),
    ("sub-processes with one image selected", "C17", "IndexError in the splitters with "
     "str_subset='3'"),
    ("the reference is not an image of the BOS", "C17", "BOS with a relative path: the "
     "reference computed as an image"),
    ("the servers do not modify the parameters", "C17", "saving mode in the saved "
     "parameters changed by the server threads"),
    ("the saved parameters are loaded unchanged", "C17", "paths with spaces, strings "
     "like '3', Numpy scalars and quotes changed or not loadable in the saved "
     "parameters and in the parameters of the sub-processes"),
    ("no work started and no final work after a request to stop", "C10", "signal 12 "
     "ignored (exec_sequential, async executors as long as the queues are not empty), "
     "final work executed on a part of the images"),
    ("a request to stop is transmitted to all the sub-processes", "C10", "sub-process "
     "started while the signal is handled not stopped; ProcessLookupError in the "
     "handler"),
    ("the servers end when they are asked to stop", "C10", "exec_async_servers_threading "
     "waiting for ever after Ctrl+C"),
    ("a FFTW operator can be used from several", "C11", "wrong correlations and "
     "displacements: two threads using the arrays of the same FFTW plans"),
    ("the grid of a PIV work can be prepared", "C11", "AttributeError when a thread uses "
     "the grid of a PIV work prepared by another one"),
    ("name of the PIV files for images with three", "C16", "TypeError when saving the "
     "PIV results of images with three indices: no results"),
    ("y positions of the light results", "C16", "light results of the first passes: "
     "the y positions were the x positions"),
    ("order of the TPS subdomains", "C16", "more than 10 TPS subdomains: loaded in "
     "another order (alphabetical)"),
    ("results added by a thread while the names", "C07", "a result added by a thread "
     "while the names of the results are saved was counted but never named"),
    ("parse the logs with incomplete lines", "C09", "IndexError when parsing the log "
     "after a process was killed while writing a line in it"),
    ("files saved with imsave_h5 appear only when", "C04", "partial h5 images (surface "
     "tracking, preproc with saving.format='h5') under the final name after a crash"),
    ("limit of the number of items in several output queues", "C02", "exec_sequential "
     "with nb_items_queue_max=1: the surface tracking never returned"),
    ("surface tracking: the reference is not modified", "C01", "surface tracking with "
     "crop_edge: the results depended on the order of the images"),
    ("surface tracking: a failing image", "C03", "surface tracking: compute never "
     "returned, or other works failed, after the failure of one image"),
    ("surface tracking: the results are reported", "C01", "no attribute results for the "
     "surface tracking: no counts, no names"),
    ("surface tracking with how='complete'", "C04", "surface tracking: everything "
     "computed again with how='complete'; last image not saved for some selections"),
    ("default executor for the topologies which cannot", "C17", "surface tracking: "
     "ValueError with the default executor (compute, run_from_xml)"),
    ("preproc: names of the files saved with the different", "C04", "preproc with "
     "saving.format: 'hdf5' not usable, wrong names reported, everything computed "
     "again with how='complete' for tiff and jpeg"),
    (
        "parse the logs written while the clock was set back", "C09",
        "works which ended not listed as ended when the wall clock was set back "
        "(negative durations not recognized)",
    ),
]

FINDINGS = [
    {
        "id": "preproc-overlapping-windows",
        "property": "C01",
        "what": "TopologyPreproc with overlapping windows (series.ind_step smaller than "
        "the number of images of series.str_subset, for example 'i:i+3' and ind_step=1): "
        "all the images of each window are saved, so that an image is saved several "
        "times with different contents and the content which remains depends on the "
        "schedule",
        "match": {
            "sig": "content-depends-on-schedule",
            "scenario": {"case.kind": "preproc"},
        },
        "replay": {
            "scenario": {
                "case": {"kind": "preproc", "seed": 0, "w": 2, "n": 4, "step": 1,
                         "tool": "temporal"},
                "executor": "multi_exec_async", "nb_max_workers": 2,
                "config": {"p_switch": 0.0, "p_delay": 0.0, "jitter": 0.0,
                           "p_duration": 0.0, "p_slow_start": 0.0},
                "sleep_time": 0.01, "seed": 1,
            },
            "decisions": {},
        },
    },
]


def main():
    log = subprocess.run(
        ["git", "-C", os.environ.get("SIMFI_REPO", "/repo"), "log", "--format=%h %s"], capture_output=True,
        text=True, check=True,
    ).stdout.splitlines()
    fixed = []
    for subject, prop, what in FIXED:
        commits = [
            line.split()[0] for line in log
            if line.split(" ", 1)[1].startswith("fix: " + subject)
        ]
        assert len(commits) == 1, (subject, commits)
        fixed.append(f"fixed: property={prop} {commits[0]} {what}")
    n = sum(1 for line in log if " fix: " in line)
    assert n == len(fixed), (n, len(fixed))
    data = {"findings": FINDINGS, "fixed": fixed}
    (VERIF / "known_findings.json").write_text(json.dumps(data, indent=1) + "\n")


if __name__ == "__main__":
    main()
