"""Source of properties.jsonl (run by hand; the committed jsonl is what counts)."""
import json, pathlib

P = []

def add(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                     observe_at=observe, hook_needed=hook)))

EX = "src/fluidimage/executors/"
TO = "src/fluidimage/topologies/"

add("C01", "Every executor gives the sequential result, each item exactly once",
 "Whatever the topology, the set of selected inputs and the executor able to run it (sequential, async, per-item processes, servers, forked or sub-process multi executors), `compute` produces exactly the results that evaluating the work graph sequentially by hand produces: same result names, same contents, no missing, extra or mixed-up item (preprocessing windows which overlap save an image several times: known finding). Every work is executed exactly once for each of its items and receives the item stored under that key (an attempt abandoned because its process was too slow to start excepted).",
 ["schedules", "inputs", "configurations"],
 "all interleavings of tasks, threads and processes; all worker counts; all image selections (steps, windows, double-frame images); all executors and topologies",
 "The tests run each topology once or twice per executor on 2 to 4 images under whatever interleaving the OS gives, and mostly check that files exist.",
 [EX+"exec_async.py", EX+"exec_sequential.py", EX+"exec_async_multiproc.py", EX+"exec_async_servers.py", EX+"servers.py", EX+"multi_exec_async.py", EX+"multi_exec_subproc.py", TO+"base.py", TO+"piv.py", TO+"preproc.py", TO+"bos.py", TO+"image2image.py", TO+"surface_tracking.py", TO+"optical_flow.py", TO+"example.py"],
 [("queues popped by workers, results stored under the popped key", EX+"exec_async.py async_run_work_cpu/io"), ("end of computation when all the queues are empty and no worker is busy", EX+"exec_async.py update_has_to_stop"), ("association of images in couples/subsets and release of arrays", TO+"piv.py make_couples, "+TO+"preproc.py make_subsets")],
 ["files of the result directory", "topology.results", "calls received by the work functions"],
 [("queues", "items waiting for each work", TO+"base.py Queue"), ("nb_working_workers_*", "workers busy", EX+"exec_async.py")])

add("C02", "compute always terminates",
 "`compute` returns or raises within bounded time for every finite set of inputs, whatever the selection of images (including couples of images far apart and wide temporal windows), the number of workers, the queue capacity, the schedule and the items that fail. It never waits forever for work that cannot come, and when there is nothing to compute it returns promptly and leaves the results unchanged.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all schedules, subset strings, worker counts, queue limits, sets of failing items",
 "A test that hangs on one schedule or one selection out of thousands is never written; the tests use 2 to 4 consecutive images, fewer than every queue limit.",
 [EX+"exec_async.py", EX+"exec_async_sequential.py", EX+"exec_async_seq_for_multi.py", EX+"exec_sequential.py", EX+"exec_async_servers.py", EX+"base.py", TO+"piv.py", TO+"preproc.py", TO+"surface_tracking.py"],
 [("back pressure on the output queue of each work", EX+"exec_async.py def_async_func_work_io/cpu"), ("stop condition", EX+"exec_async.py update_has_to_stop")],
 ["return of compute within a bound of simulated time and steps"],
 [("nb_items_queue_max", "capacity of the queues", EX+"base.py")])

add("C03", "A failing item only costs the results that depend on it",
 "When reading, processing or saving one item raises, `compute` still returns normally, every result that does not depend on that item is produced unchanged, no result depending on it appears, and one exception file of the execution's log directory names the work and the key and contains the error (with its traceback when it was raised in the process which writes the file). With stop_if_error=True (executors that support it) `compute` raises that error instead.",
 ["inputs", "schedules", "fault_sequences"],
 "any set of failing (work, item) pairs, unreadable or corrupted images, any schedule, any executor",
 "The tests make one fixed work of the example topology fail; which items and which works fail, and when, is unbounded.",
 [EX+"exec_async.py", EX+"exec_sequential.py", EX+"exec_async_multiproc.py", EX+"servers.py", EX+"base.py", TO+"base.py", TO+"piv.py"],
 [("exceptions travel through the queues as values", TO+"base.py Work.check_exception"), ("exception files", EX+"base.py log_exception")],
 ["files of the result directory", "log_*/exception_*.txt", "what compute raises"])

add("C04", "Crash at any point, then 'complete', gives the uninterrupted results",
 "If a computation is killed at any point, including in the middle of writing a file, running it again with saving.how='complete' finishes and the result directory then holds exactly the results of an uninterrupted computation, with the same contents. Results that were completely written before the crash are neither recomputed nor rewritten, and a partially written file is never taken for a finished result.",
 ["crash_points", "schedules", "inputs", "histories"],
 "every crash point (between and inside writes), several crashes in a row, all executors and topologies",
 "The tests delete a whole result file and run 'complete' once, sequentially; no test ever crashes inside a write.",
 [TO+"base.py", TO+"piv.py", TO+"preproc.py", TO+"image2image.py", TO+"bos.py", TO+"optical_flow.py", TO+"surface_tracking.py", TO+"splitters.py", "src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py", EX+"base.py", EX+"multi_exec_async.py", EX+"multi_exec_subproc.py"],
 [("existence of the result file decides what is computed again", TO+"base.py compute_indices_to_be_computed"), ("result file names", "src/fluidimage/data_objects/piv.py get_name_piv, get_name_bos; data_objects/preproc.py get_name_preproc"), ("saving of the results", "src/fluidimage/data_objects/piv.py save; data_objects/preproc.py save")],
 ["files of the result directory", "calls received by the work functions in the second run"])

add("C05", "Parallel processes share the work as a disjoint, complete partition",
 "When a computation is split over several processes, every selected item is given to exactly one process, sizes differ by at most one splitting unit, and no process is started for nothing, for every range (start, stop, step), every number of processes (also more processes than items) and every saving mode, including 'complete' with holes anywhere in the existing results. The announced number of expected results is the number of results produced when nothing fails.",
 ["inputs", "configurations", "histories"],
 "all ranges and lists, numbers of processes, saving modes, sets of already existing results, splitting by series, by images and by first queue",
 "The tests check a few hand-written ranges; the effect through the whole system (params files, indices files, forked topologies) is not checked item by item.",
 [TO+"splitters.py", EX+"multi_exec_async.py", EX+"multi_exec_subproc.py", TO+"base.py", TO+"bos.py"],
 [("split_range, split_list", TO+"splitters.py"), ("splitting of the first queue", EX+"multi_exec_async.py _start_multiprocess_first_queue"), ("indices files", TO+"splitters.py save_indices_files")],
 ["items processed by each (simulated) process", "num_expected_results"])

add("C06", "A dead or failing worker process is reported and costs only its share",
 "If a process taking part in a computation dies (killed, out of memory), fails at start or starts very slowly, `compute` still ends in bounded time, the results computed by the other processes are all on disk and listed, no item is reported as done that is not on disk, and a failure that lost results is never reported as a success: multi executors raise an error naming the failed process, and executors using one process per item or servers report the lost items.",
 ["fault_sequences", "crash_points", "schedules"],
 "any subset of processes, any death point, any exit code, start delays and stalls",
 "One test covers a sub-process that raises at the beginning; nobody kills processes at chosen points.",
 [EX+"base.py", EX+"multi_exec_async.py", EX+"multi_exec_subproc.py", EX+"exec_async_multiproc.py", EX+"exec_async_servers.py", EX+"servers.py"],
 [("polling of the return codes", EX+"base.py MultiExecutorBase.compute"), ("start attempts of a process", EX+"exec_async_multiproc.py run_process"), ("pipe to the server", EX+"exec_async_servers.py run_process")],
 ["what compute raises", "results files and results list", "simulated time"])

add("C07", "Job files always tell the truth about the job",
 "From the creation of the job directory on, the lock file exists exactly while the process owning the job is computing and is removed when `compute` ends, even with an error (a killed process leaves its lock); the saved parameters and information reload equal to those used. At every instant the results counted and named by the job files are on disk and never decrease, and when `compute` ends without error every result of the job is named exactly once and the count equals the number of results, for the executors which record their results.",
 ["schedules", "histories", "crash_points"],
 "all instants of all executions of all executors, with failures and errors",
 "Tests look at the files after the end of one successful execution.",
 [EX+"base.py", EX+"exec_async_seq_for_multi.py", EX+"exec_sequential.py", EX+"exec_async.py", EX+"multi_exec_async.py"],
 [("lock file", EX+"base.py _save_lock_file, _release_lock"), ("results and len_results files", EX+"base.py _save_results_names"), ("union of the results of the processes", EX+"base.py MultiExecutorBase.compute")],
 ["job_*/ files at every simulated file-system step"])

add("C08", "The monitor can be opened at any time and shows the truth",
 "Once a job has announced its first count of results, the monitoring app can be opened and refreshed at any instant until after the end of the job without crashing. The number of results it shows never exceeds the number of results on disk, never decreases, counts the results of all the processes, and reaches the total once the job is finished, when it also reports that the job is not running.",
 ["schedules", "histories"],
 "all interleavings of the monitor's reads with the writes of the job's processes",
 "The monitor is tested on a finished job only.",
 ["src/fluidimage/gui/monitor.py", EX+"base.py", EX+"exec_async_seq_for_multi.py"],
 [("detect_results", "src/fluidimage/gui/monitor.py"), ("load_time_max", "src/fluidimage/gui/monitor.py")],
 ["MonitorApp.num_results, job_is_running, compute_times_str()"])

add("C09", "Execution logs report exactly the works that ran",
 "The log files of an execution, finished or interrupted at any point, can always be parsed, and for every finished execution the parsed data list exactly the works launched, with their names and keys, and as ended exactly those that ended without error, for every executor writing them (a work announced and cancelled at once because compute raises may be listed as launched).",
 ["schedules", "crash_points", "inputs"],
 "all executions, including interrupted ones, with failing items",
 "Tests parse the log of one execution and plot it.",
 [TO+"log.py", EX+"base.py", EX+"exec_async.py", EX+"exec_sequential.py", EX+"servers.py", EX+"exec_async_multiproc.py"],
 [("format written", EX+"exec_async.py"), ("parser", TO+"log.py DataLogFile, LogTopology")],
 ["topology.read_log_data()"])

add("C10", "A stop request is honoured cleanly",
 "When a running computation receives the stop signal (signal 12) or Ctrl+C, it ends in bounded time after the works in progress (with an error if the signal ended one of its processes before this process was ready to handle it), the results present on disk are complete and correct, the lock is released when the process ends, and running again with saving.how='complete' produces exactly the missing results.",
 ["schedules", "crash_points", "histories"],
 "a signal at every step of every execution, sent to single-process and multi-process executors",
 "No test sends a signal.",
 [EX+"base.py", EX+"exec_async.py", EX+"exec_async_servers.py", EX+"exec_sequential.py", EX+"multi_exec_async.py"],
 [("_has_to_stop flag and signal handlers", EX+"base.py, "+EX+"exec_async.py")],
 ["time until the end of compute", "files", "lock file"])

add("C11", "Shared work objects can be used from several threads",
 "Processing several couples, images or subsets at the same time with one work object (as the thread-based executor does) gives for every item the result obtained when processing the items one after the other.",
 ["schedules", "inputs"],
 "all interleavings of two or more threads inside the processing code, all correlation methods and pass settings",
 "The executor using threads is tested for completion on one schedule; the numbers it produces are not compared.",
 ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/multipass.py", "src/fluidimage/works/piv/fix.py", "src/fluidimage/calcul/correl.py", "src/fluidimage/calcul/fft.py", "src/fluidimage/works/bos.py", "src/fluidimage/works/preproc/__init__.py", "src/fluidimage/works/optical_flow.py", EX+"exec_async.py"],
 [("one work object and one correlation object shared by all worker threads", "src/fluidimage/works/piv/singlepass.py, src/fluidimage/calcul/correl.py"), ("threads", EX+"exec_async.py async_run_work_cpu")],
 ["saved fields"])

add("C12", "Result directories follow the saving mode and never collide",
 "With saving.how='new_dir' every computation gets a directory of its own, also when several are started at the same time; 'recompute' replaces every selected result; 'complete' only adds the missing ones; a refusal when asked touches nothing. Any number of computations started in the same result directory, even within the same second, get their own job files and logs and all start.",
 ["schedules", "histories", "configurations"],
 "all interleavings of concurrent starts, all clocks (same second, clock stepping back), all sequences of saving modes",
 "Tests start one computation at a time; the collisions need concurrent starts or equal time stamps.",
 [TO+"base.py", EX+"base.py", TO+"launcher.py"],
 [("prepare_path_dir_result", TO+"base.py"), ("_init_log_path", EX+"base.py")],
 ["directories created, files changed"])

add("C13", "The limits on workers and waiting items are respected",
 "At no instant does an execution run more CPU works, or more I/O works, at the same time than nb_max_workers allows, and a multi executor never runs more processes than that. The number of items that wait in memory between two works is bounded by the queue limit plus the number of workers (plus, for works that need several items together, the items they need and the combinations of the waiting items), whatever the number of inputs.",
 ["schedules", "inputs", "configurations"],
 "all schedules, numbers of items and relative speeds of the works",
 "No test measures concurrency or memory held by the queues.",
 [EX+"exec_async.py", EX+"exec_async_multiproc.py", EX+"exec_async_servers.py", EX+"multi_exec_async.py", EX+"multi_exec_subproc.py"],
 [("nb_working_workers_*, nb_max_workers, nb_items_queue_max", EX+"exec_async.py def_async_func_work_io/cpu")],
 ["number of works executing simultaneously", "length of the queues"])

add("C14", "A mean image is the exact mean of the selected images",
 "The mean-image computation returns and saves the pixel-wise mean over exactly the selected images, each counted once, for every executor, number of processes and schedule. If an image cannot be read or a process dies, no image presented as the mean of the selection is saved: the computation reports the failure. A stopped computation does not save any mean.",
 ["schedules", "inputs", "fault_sequences"],
 "all numbers of images and processes, schedules, unreadable images, dying processes",
 "Tests check one small fixed set without failures.",
 [TO+"mean.py", EX+"base.py", EX+"exec_async.py"],
 [("reduction of the partial sums", TO+"mean.py main, final_seq_work")],
 ["the saved PNG", "topology.result", "what compute raises"])

add("C15", "A failed write never leaves a result that looks finished",
 "When writing a result fails (disk full, I/O error) the failure is reported for that item, the other results are produced, and no unreadable or incomplete file is left under the name of a result; once the fault is gone, 'complete' computes exactly the missing results.",
 ["fault_sequences", "inputs"],
 "any write of any result failing at any byte, one-off or persistent faults",
 "Tests never inject I/O errors.",
 ["src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py", TO+"image2image.py", TO+"surface_tracking.py", EX+"base.py"],
 [("save methods", "src/fluidimage/data_objects/piv.py, src/fluidimage/data_objects/preproc.py")],
 ["files of the result directory after the failure and after 'complete'"])

add("C16", "Saved results reload equal to what was computed",
 "A result saved by any computation and loaded again with the public loaders holds the same displacement fields, coordinates, maxima of the correlations, errors, per-pass results, couple and parameters as the object that was computed in memory, including empty, NaN and flagged vectors, whichever executor and process wrote it (64-bit floats being saved with 32 bits). Preprocessed and processed images are loaded again as they were computed (preprocessed ones truncated to the integers of the format).",
 ["inputs", "configurations", "histories"],
 "all settings of passes, flags and masks, all result kinds, tools and formats of the images, files written by any process",
 "Tests load one file and compare one field.",
 ["src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py", "src/fluidimage/util/util.py"],
 [("_save_in_hdf5_object, _load_from_hdf5_object", "src/fluidimage/data_objects/piv.py")],
 ["objects passed to the saving work and objects loaded from the files"])

add("C17", "Running again from the saved parameter file reproduces the results",
 "The parameter file saved with a job, given to `python -m fluidimage.run_from_xml` with any saving mode, runs the same computation: the same class, the same selection of items and the same results. This is also how sub-process executors hand parameters over, so each sub-process works with the parameters of its parent.",
 ["inputs", "configurations", "histories"],
 "all parameter values (selections, passes, mask, image functions and their arguments, saving modes)",
 "One test runs one file; the round trip of the parameters through XML is not compared.",
 ["src/fluidimage/run_from_xml.py", EX+"base.py", EX+"multi_exec_subproc.py", TO+"base.py", TO+"splitters.py"],
 [("_save_job_data", EX+"base.py"), ("main", "src/fluidimage/run_from_xml.py")],
 ["results of the second computation", "parameters reloaded"])

# properties which this family cannot decide (pure functions)
add("N01", "PIV measures the displacement of the particles",
 "For images displaced by a known smooth field, the PIV fields agree with the displacement within the accuracy of the method, for all correlation and sub-pixel methods.",
 ["inputs"], "all images, displacements and methods", "Tests use one synthetic displacement.",
 ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/calcul/correl.py", "src/fluidimage/calcul/subpix.py"],
 [("correlation and peak detection", "src/fluidimage/calcul/correl.py")], ["displacement fields"])
add("N02", "All correlation methods agree",
 "The correlation methods compute the same correlation function for the same windows, up to floating-point error.",
 ["inputs"], "all window pairs, shapes and displacement limits", "Tests use one pair.",
 ["src/fluidimage/calcul/correl.py"], [("correlation classes", "src/fluidimage/calcul/correl.py")], ["correlation arrays"])
add("N03", "Camera calibrations invert",
 "Mapping world coordinates to pixels and back is the identity for every calibration.",
 ["inputs"], "all calibrations and points", "Tests use a few points.",
 ["src/fluidimage/calibration/calib_tsai.py", "src/fluidimage/calibration/calib_direct.py"],
 [("phys2pix, pix2phys", "src/fluidimage/calibration/calib_tsai.py")], ["coordinates"])
add("N04", "Post-processing formulas are exact",
 "Divergence, rotational, spectra, smoothing and averages of vector fields satisfy their defining identities.",
 ["inputs"], "all fields", "Tests use a few fields.",
 ["src/fluidimage/postproc/vector_field.py", "src/fluidimage/postproc/piv.py"],
 [("formulas", "src/fluidimage/postproc/vector_field.py")], ["returned arrays"])
add("N05", "UVmat instructions are translated faithfully",
 "Parameters built from a UVmat XML file describe the same computation as the UVmat instructions.",
 ["inputs"], "all UVmat files", "Tests use one file.",
 ["src/fluidimage/uvmat.py"], [("params_from_uvmat_xml", "src/fluidimage/uvmat.py")], ["parameters"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
