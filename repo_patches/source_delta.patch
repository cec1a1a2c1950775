From e0baf1a99f0bfe46e82abedde40fa70d64e6943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:09 +0000
Subject: [PATCH 01/46] fix: book the server before waiting for its answer

The item was no longer in the input queue and the server was still considered as
unoccupied until a thread sent the job: the computation could be considered as
finished and the item was lost.
---
 src/fluidimage/executors/exec_async_servers.py | 3 +++
 src/fluidimage/executors/servers.py            | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index a5cbb78..70e57f3 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -197,6 +197,9 @@ class ExecutorAsyncServers(ExecutorAsync):
             worker.is_available = True
             return
 
+        # before anything is awaited: the item is no longer in the queue
+        worker.book()
+
         def run_process():
             # create a communication channel
             parent_conn, child_conn = worker.new_pipe()
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 637cc13..2831ae2 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -96,9 +96,12 @@ class Worker:
 
 
 class WorkerMultiprocessing(Worker):
-    def send_job(self, obj):
+    def book(self):
+        """Has to be called (by the main thread) before `send_job`"""
         self.is_unoccupied = False
         self.nb_items_to_process += 1
+
+    def send_job(self, obj):
         self.send(obj)
 
     def send(self, obj):
-- 
2.43.0


From 8f9237c37d5cb40e25348367e887da1743077e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 02/46] fix: use the preprocessed images in the BOS topology

With params.preproc.im2im, the work 'compute bos' was taking its input in the queue
of the images not yet preprocessed (in competition with the work 'image2image'), the
image to image function was called with a tuple (image, name) as an image and the
reference image was not preprocessed.
---
 src/fluidimage/topologies/bos.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 6caacba..2a6e2a6 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -127,23 +127,25 @@ class TopologyBOS(TopologyBaseFromImages):
         )
 
         if params.preproc.im2im is not None:
-            im2im_func = image2image.get_im2im_function_from_params(
+            self.im2im_func = image2image.get_im2im_function_from_params(
                 params.preproc
             )
+            self.main_work.image_reference, _ = self.apply_im2im(
+                (self.main_work.image_reference, self.main_work.name_reference)
+            )
 
             self.add_work(
                 "image2image",
-                func_or_cls=im2im_func,
+                func_or_cls=self.apply_im2im,
                 input_queue=queue_arrays,
                 output_queue=queue_arrays1,
-                kind="eat key value",
             )
 
         self.add_work(
             "compute bos",
             func_or_cls=self.calcul,
             params_cls=params,
-            input_queue=queue_arrays,
+            input_queue=queue_arrays1,
             output_queue=queue_bos,
         )
 
@@ -155,6 +157,11 @@ class TopologyBOS(TopologyBaseFromImages):
         )
         self.results = []
 
+    def apply_im2im(self, tuple_image_name):
+        """Apply the image to image function"""
+        image, name = tuple_image_name
+        return self.im2im_func((name, image)), name
+
     def save_bos_object(self, obj):
         """Save a BOS object"""
         ret = obj.save(self.path_dir_result, kind="bos")
-- 
2.43.0


From f97349f3e8e478a9e825bbca8647923ee2231b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 03/46] fix: limits of the async executors (queues and workers)

- no more deadlock when the items needed together (couple of images far apart, large
  preprocessing windows) are more than nb_items_queue_max;
- the global works also wait when their output queue is full (all the images could be
  loaded in memory);
- nb_working_workers_* are incremented before starting the task (several works could
  start more workers than nb_max_workers).
---
 src/fluidimage/executors/exec_async.py        | 77 +++++++++++++++----
 .../executors/exec_async_multiproc.py         |  2 -
 .../executors/exec_async_sequential.py        |  2 -
 .../executors/exec_async_servers.py           | 10 ++-
 4 files changed, 68 insertions(+), 23 deletions(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 2de8281..0fb54e3 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -58,6 +58,7 @@ class ExecutorAsync(ExecutorBase):
 
         self.nb_working_workers_cpu = 0
         self.nb_working_workers_io = 0
+        self._lengths_after_global = {}
 
         # Executor parameters
         self.sleep_time = sleep_time
@@ -126,10 +127,9 @@ class ExecutorAsync(ExecutorBase):
 
                 async def func(work=work):
                     while True:
-                        while (
-                            isinstance(work.input_queue, tuple)
-                            and all(not q for q in work.input_queue)
-                        ) or not work.input_queue:
+                        while self._has_no_input(
+                            work
+                        ) or self._has_to_wait_for_output(work):
                             await trio.sleep(self.sleep_time)
                             if self._has_to_stop:
                                 return
@@ -140,6 +140,9 @@ class ExecutorAsync(ExecutorBase):
                             + " (kind='global'). mem usage"
                         )
                         work.func_or_cls(work.input_queue, work.output_queue)
+                        self._lengths_after_global[work.name] = (
+                            self._get_queue_lengths()
+                        )
                         if self._has_to_stop:
                             return
                         await trio.sleep(self.sleep_time)
@@ -163,6 +166,56 @@ class ExecutorAsync(ExecutorBase):
 
             self.async_funcs[work.name] = func
 
+    @staticmethod
+    def _has_no_input(work):
+        """Whether there is nothing in the input queue(s) of a work"""
+        if isinstance(work.input_queue, tuple):
+            return all(not queue for queue in work.input_queue)
+        return not work.input_queue
+
+    def _is_output_full(self, work):
+        """Whether an output queue of a work reached the maximal length"""
+        queues = work.output_queue
+        if queues is None:
+            return False
+        if not isinstance(queues, tuple):
+            queues = (queues,)
+        return any(len(queue) >= self.nb_items_queue_max for queue in queues)
+
+    def _get_queue_lengths(self):
+        return tuple(len(queue) for queue in self.topology.queues)
+
+    def _are_workers_idle(self):
+        return (
+            self.nb_working_workers_cpu == 0 and self.nb_working_workers_io == 0
+        )
+
+    def _has_to_wait_for_output(self, work):
+        """Whether a work has to wait because of the items in its output queue
+
+        There is no need to wait when nothing else can be done: more items are
+        needed to be able to consume those already in the queues (for example
+        a couple of images separated by more images than `nb_items_queue_max`).
+
+        """
+        if not self._is_output_full(work):
+            return False
+
+        if not self._are_workers_idle():
+            return True
+
+        lengths = self._get_queue_lengths()
+        for other in self.works:
+            if self._has_no_input(other) or self._is_output_full(other):
+                continue
+            if other.kind is not None and "global" in other.kind:
+                if self._lengths_after_global.get(other.name) == lengths:
+                    # this work has nothing to do with what is in the queues
+                    continue
+            return True
+
+        return False
+
     def def_async_func_work_io(self, work):
         """Define an asynchronous function launching a io work."""
 
@@ -171,14 +224,12 @@ class ExecutorAsync(ExecutorBase):
                 while (
                     not work.input_queue
                     or self.nb_working_workers_io >= self.nb_max_workers
-                    or (
-                        work.output_queue is not None
-                        and len(work.output_queue) >= self.nb_items_queue_max
-                    )
+                    or self._has_to_wait_for_output(work)
                 ):
                     if self._has_to_stop:
                         return
                     await trio.sleep(self.sleep_time)
+                self.nb_working_workers_io += 1
                 self.nursery.start_soon(self.async_run_work_io, work)
                 await trio.sleep(self.sleep_time)
 
@@ -192,14 +243,12 @@ class ExecutorAsync(ExecutorBase):
                 while (
                     not work.input_queue
                     or self.nb_working_workers_cpu >= self.nb_max_workers
-                    or (
-                        work.output_queue is not None
-                        and len(work.output_queue) >= self.nb_items_queue_max
-                    )
+                    or self._has_to_wait_for_output(work)
                 ):
                     if self._has_to_stop:
                         return
                     await trio.sleep(self.sleep_time)
+                self.nb_working_workers_cpu += 1
                 self.nursery.start_soon(self.async_run_work_cpu, work)
                 await trio.sleep(self.sleep_time)
 
@@ -219,8 +268,6 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
-        self.nb_working_workers_io += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
@@ -272,8 +319,6 @@ class ExecutorAsync(ExecutorBase):
           A work from the topology
 
         """
-        self.nb_working_workers_cpu += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
diff --git a/src/fluidimage/executors/exec_async_multiproc.py b/src/fluidimage/executors/exec_async_multiproc.py
index c893892..9233217 100644
--- a/src/fluidimage/executors/exec_async_multiproc.py
+++ b/src/fluidimage/executors/exec_async_multiproc.py
@@ -49,8 +49,6 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
           A work from the topology
 
         """
-        self.nb_working_workers_cpu += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
diff --git a/src/fluidimage/executors/exec_async_sequential.py b/src/fluidimage/executors/exec_async_sequential.py
index 3cb4ce2..d457385 100644
--- a/src/fluidimage/executors/exec_async_sequential.py
+++ b/src/fluidimage/executors/exec_async_sequential.py
@@ -37,8 +37,6 @@ class ExecutorAsyncSequential(ExecutorAsync):
           The value of the dictionary item to be process
 
         """
-        self.nb_working_workers_cpu += 1
-
         try:
             key, obj = work.input_queue.pop_first_item()
         except KeyError:
diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index 70e57f3..ceb6cb3 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -130,6 +130,11 @@ class ExecutorAsyncServers(ExecutorAsync):
         for worker in self.workers:
             worker.terminate()
 
+    def _are_workers_idle(self):
+        return self.nb_working_workers_io == 0 and all(
+            worker.is_unoccupied for worker in self.workers
+        )
+
     async def update_has_to_stop(self):
         """Work has to stop flag. Check if all works has been done.
 
@@ -220,9 +225,8 @@ class ExecutorAsyncServers(ExecutorAsync):
     def def_async_func_work_cpu(self, work):
         async def func(work=work):
             while True:
-                while not work.input_queue or (
-                    work.output_queue is not None
-                    and len(work.output_queue) >= self.nb_items_queue_max
+                while not work.input_queue or self._has_to_wait_for_output(
+                    work
                 ):
                     if self._has_to_stop:
                         return
-- 
2.43.0


From 2ec29cd76192e0e6a681f1378f1b83ea13cb79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 04/46] fix: nothing to be computed (exec_sequential and multi
 executors)

---
 src/fluidimage/executors/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 02d84a2..0ee6dd0 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -392,6 +392,10 @@ class ExecutorBase(ABC):
 
     def _save_results_names(self):
 
+        if not hasattr(self, "_path_results"):
+            # no job directory since there is nothing to be computed
+            return
+
         new_results = self.topology.results[self._len_saved_results :]
         self._len_saved_results = len(self.topology.results)
 
@@ -486,6 +490,7 @@ class MultiExecutorBase(ExecutorBase):
 
         if self.num_expected_results == 0:
             print("Nothing to be computed")
+            self._reset_std_as_default()
             return
 
         self.log_paths = []
-- 
2.43.0


From e4cc705d19e5827b3a301132268e79f1b75bc73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 05/46] fix: subsets of images with one image that cannot be
 read

---
 src/fluidimage/topologies/preproc.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index 4aabad2..ac6fdba 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -302,12 +302,17 @@ Parameters describing image saving after preprocessing.
             # if correspondant arrays have been loaded from images,
             # make an array subset
             if all([name in queue_arrays for name in names]):
-                arrays = (queue_arrays[name] for name in names)
+                arrays = tuple(queue_arrays[name] for name in names)
                 serie = copy.copy(self.series.get_serie_from_index(key))
 
-                array_subset = ArraySubset(
-                    names=names, arrays=arrays, serie=serie
-                )
+                for array in arrays:
+                    if isinstance(array, Exception):
+                        array_subset = array
+                        break
+                else:
+                    array_subset = ArraySubset(
+                        names=names, arrays=arrays, serie=serie
+                    )
                 output_queue[key] = array_subset
                 del queue_subsets_of_names[key]
                 # remove the image_array if it not will be used anymore
-- 
2.43.0


From 54e8307a7279f7614c361e545f93929601d595f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 06/46] fix: exec_async_servers has to log the exceptions in
 files

---
 src/fluidimage/executors/exec_async_servers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index ceb6cb3..b2c1983 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -218,6 +218,8 @@ class ExecutorAsyncServers(ExecutorAsync):
             return result
 
         ret = await trio.to_thread.run_sync(run_process)
+        if isinstance(ret, Exception):
+            self.log_exception(ret, work.name_no_space, key)
         if work.output_queue is not None:
             work.output_queue[key] = ret
         worker.well_done_thanks()
-- 
2.43.0


From 8ec6ddc949c36ef2d04a6eae07d938f62d9f5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 07/46] fix: imread has to raise for an image that cannot be
 read

---
 src/fluidimage/util/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index a2cc515..b522287 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -56,6 +56,10 @@ def imread(path):
     except Exception as error:
         raise type(error)(path).with_traceback(error.__traceback__)
 
+    if array is None:
+        # for example with OpenCV
+        raise OSError(f"The image {path} cannot be read")
+
     return array
 
 
-- 
2.43.0


From f2e26e9b5924bd568f84647bcba0aae5f870bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 08/46] fix: results appear in the directory only when they are
 completely written

---
 src/fluidimage/data_objects/piv.py       | 26 +++++++++++++---
 src/fluidimage/topologies/image2image.py |  3 +-
 src/fluidimage/util/util.py              | 39 +++++++++++++++++++++++-
 3 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 34658f7..e7cf8bc 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -30,6 +30,7 @@ from fluidimage import __version__ as fluidimage_version
 from fluidimage import imread
 from fluidimage._version import hg_rev
 from fluidimage.util import safe_eval
+from fluidimage.util.util import path_replaced_when_written
 
 from .display_piv import DisplayPIV
 
@@ -369,10 +370,16 @@ class HeavyPIVResults(DataObject):
             path_file = name
 
         if out_format == "uvmat":
-            with h5netcdf.File(path_file, "w") as file:
+            with (
+                path_replaced_when_written(path_file) as path_tmp,
+                h5netcdf.File(path_tmp, "w") as file,
+            ):
                 self._save_as_uvmat(file)
         else:
-            with h5py.File(path_file, "w") as file:
+            with (
+                path_replaced_when_written(path_file) as path_tmp,
+                h5py.File(path_tmp, "w") as file,
+            ):
                 file.attrs["class_name"] = "HeavyPIVResults"
                 file.attrs["module_name"] = "fluidimage.data_objects.piv"
                 self._save_in_hdf5_object(file)
@@ -596,10 +603,16 @@ class MultipassPIVResults(DataObject):
             path_file = name
 
         if out_format == "uvmat":
-            with h5netcdf.File(path_file, "w") as file:
+            with (
+                path_replaced_when_written(path_file) as path_tmp,
+                h5netcdf.File(path_tmp, "w") as file,
+            ):
                 self._save_as_uvmat(file)
         else:
-            with h5py.File(path_file, "w") as file:
+            with (
+                path_replaced_when_written(path_file) as path_tmp,
+                h5py.File(path_tmp, "w") as file,
+            ):
                 file.attrs["class_name"] = "MultipassPIVResults"
                 file.attrs["module_name"] = "fluidimage.data_objects.piv"
                 file.attrs["Conventions"] = (
@@ -841,7 +854,10 @@ class LightPIVResults(DataObject):
         else:
             path_file = name
 
-        with h5py.File(path_file, "w") as file:
+        with (
+            path_replaced_when_written(path_file) as path_tmp,
+            h5py.File(path_tmp, "w") as file,
+        ):
             file.attrs["class_name"] = "LightPIVResults"
             file.attrs["module_name"] = "fluidimage.data_objects.piv"
             file.attrs["Conventions"] = (
diff --git a/src/fluidimage/topologies/image2image.py b/src/fluidimage/topologies/image2image.py
index 9837ffe..317d0c6 100644
--- a/src/fluidimage/topologies/image2image.py
+++ b/src/fluidimage/topologies/image2image.py
@@ -10,10 +10,9 @@
 import sys
 from pathlib import Path
 
-from fluiddyn.io.image import imsave
 from fluidimage import ParamContainer
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import imread
+from fluidimage.util import imread, imsave
 from fluidimage.works.image2image import WorkImage2Image
 
 from .base import TopologyBaseFromImages
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index b522287..cbf5f4a 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -22,7 +22,10 @@ Provides:
 
 """
 
+import os
+from contextlib import contextmanager
 from pathlib import Path
+from threading import get_ident
 
 import psutil
 from IPython.lib.pretty import pretty
@@ -63,9 +66,43 @@ def imread(path):
     return array
 
 
+def _get_path_tmp(path):
+    """Path of a temporary (hidden) file in the same directory"""
+    return path.with_name(f".tmp_{os.getpid()}_{get_ident()}_{path.name}")
+
+
+@contextmanager
+def path_replaced_when_written(path):
+    """Yield the path of a temporary file finally renamed into ``path``
+
+    If the writing fails or is interrupted, there is no incomplete file called
+    ``path``.
+
+    """
+    path = Path(path)
+    path_tmp = _get_path_tmp(path)
+    try:
+        yield path_tmp
+        os.replace(path_tmp, path)
+    finally:
+        path_tmp.unlink(missing_ok=True)
+
+
 def imsave(path, array, **kwargs):
     "tmp docstring"
-    _imsave(path, array, **kwargs)
+    path = Path(path)
+    path_tmp = _get_path_tmp(path)
+    # `_imsave` can add the extension .tiff
+    path_tmp_tiff = path_tmp.with_name(path_tmp.name + ".tiff")
+    try:
+        _imsave(path_tmp, array, **kwargs)
+        if path_tmp_tiff.exists():
+            os.replace(path_tmp_tiff, path.with_name(path.name + ".tiff"))
+        else:
+            os.replace(path_tmp, path)
+    finally:
+        path_tmp.unlink(missing_ok=True)
+        path_tmp_tiff.unlink(missing_ok=True)
 
 
 imsave.__doc__ = _imsave.__doc__
-- 
2.43.0


From c82a5fde21722d37ea1d1c4173b31e6b5dbb7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 09/46] fix: mean image written completely or not at all

---
 src/fluidimage/topologies/mean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index 9cdbba0..f8953a9 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -20,6 +20,7 @@ from fluidimage import ParamContainer
 from fluidimage.topologies.base import TopologyBaseFromImages
 from fluidimage.topologies.splitters import SplitterFromImages
 from fluidimage.util import imread
+from fluidimage.util.util import path_replaced_when_written
 from fluidimage.works import BaseWorkFromImage
 
 # from transonic import boost, Array
@@ -182,7 +183,8 @@ class TopologyMeanImage(TopologyBaseFromImages):
         )
 
         im = Image.fromarray(self.result)
-        im.save(self.path_result, "PNG")
+        with path_replaced_when_written(self.path_result) as path_tmp:
+            im.save(path_tmp, "PNG")
         im.close()
 
         for path_tmp_file in path_tmp_files:
-- 
2.43.0


From 0defbd33cd3302a4bc14aa569244f53b00e37380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 10/46] fix: no mean image when an image or a process is
 missing

---
 src/fluidimage/executors/base.py  | 6 ++++--
 src/fluidimage/topologies/mean.py | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 0ee6dd0..acfe82e 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -292,7 +292,8 @@ class ExecutorBase(ABC):
             self._final_seq_work_run = True
 
     def _finalize_compute(self):
-        self._run_final_seq_work()
+        if not getattr(self, "errors", None):
+            self._run_final_seq_work()
         log_memory_usage(time_as_str(2) + ": end of `compute`. mem usage")
         self.topology.print_at_exit(time() - self.t_start)
         self._reset_std_as_default()
@@ -577,7 +578,8 @@ class MultiExecutorBase(ExecutorBase):
                 with open(path, encoding="utf-8") as file:
                     results.extend(line.strip() for line in file.readlines())
 
-            self._run_final_seq_work()
+            if not self.errors:
+                self._run_final_seq_work()
 
             progress.update(progress_task, completed=len(self.topology.results))
 
diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index f8953a9..a46353e 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -130,6 +130,10 @@ class TopologyMeanImage(TopologyBaseFromImages):
 
         while queue_arrays:
             name, arr = queue_arrays.pop_first_item()
+            if isinstance(arr, Exception):
+                raise RuntimeError(
+                    f"No mean image since the image {name} cannot be read."
+                ) from arr
             queue_tmp_arrays.append((arr.astype(np.uint32), 1))
 
         self.reduce_queue_tmp_arrays4(queue_tmp_arrays)
-- 
2.43.0


From bf024d8ddad7f2b54cefcdba91cc15ae6c00c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 11/46] fix: TopologyPreproc in mode complete has to check all
 the images of a subset

---
 src/fluidimage/topologies/preproc.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index ac6fdba..f0cba1a 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -15,7 +15,7 @@ from typing import Dict, Tuple
 from fluiddyn.util.paramcontainer import ParamContainer
 from fluidimage import SeriesOfArrays
 from fluidimage.data_objects.preproc import ArraySerie as ArraySubset
-from fluidimage.data_objects.preproc import PreprocResults, get_name_preproc
+from fluidimage.data_objects.preproc import PreprocResults
 from fluidimage.topologies import TopologyBaseFromSeries
 from fluidimage.topologies.splitters import SplitterFromSeries
 from fluidimage.util import imread
@@ -268,15 +268,16 @@ Parameters describing image saving after preprocessing.
         """Compute the indices corresponding to the series to be computed"""
         index_subsets = []
         for ind_subset, subset in self.series.items():
-            names_serie = subset.get_name_arrays()
-            name_preproc = get_name_preproc(
-                subset,
-                names_serie,
-                ind_subset,
-                self.series.nb_series,
-                self.params.saving.format,
-            )
-            if not (self.path_dir_result / name_preproc).exists():
+            # all the images of a subset are saved
+            names_results = subset.get_name_arrays()
+            if self.params.saving.format != "img":
+                names_results = (
+                    f"{os.path.splitext(name)[0]}.{self.params.saving.format}"
+                    for name in names_results
+                )
+            if not all(
+                (self.path_dir_result / name).exists() for name in names_results
+            ):
                 index_subsets.append(ind_subset)
         return index_subsets
 
-- 
2.43.0


From e6c3181f6fdcbd4df2e65e11e85280a7121bf55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:33 +0000
Subject: [PATCH 12/46] fix: splitters of images do not count and share the
 excluded images (BOS reference)

---
 src/fluidimage/executors/multi_exec_subproc.py | 6 +-----
 src/fluidimage/topologies/splitters.py         | 9 +++++++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 75ad013..1b25ceb 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -79,11 +79,7 @@ class MultiExecutorSubproc(MultiExecutorBase):
         )
         path_dir_params.mkdir(exist_ok=True)
 
-        if (
-            hasattr(self.topology, "how_saving")
-            and self.topology.how_saving == "complete"
-            and hasattr(splitter, "save_indices_files")
-        ):
+        if getattr(splitter, "indices_lists", None) is not None:
             splitter.save_indices_files(path_dir_params)
 
         for index_process, params_split in enumerate(
diff --git a/src/fluidimage/topologies/splitters.py b/src/fluidimage/topologies/splitters.py
index c46bac8..3c14562 100644
--- a/src/fluidimage/topologies/splitters.py
+++ b/src/fluidimage/topologies/splitters.py
@@ -236,6 +236,7 @@ class SplitterFromImages(SplitterCompleteAware):
         self._indices_files_saved = False
         self._path_dir_indices = None
 
+        indices = None
         if (
             topology is not None
             and topology.how_saving == "complete"
@@ -245,6 +246,14 @@ class SplitterFromImages(SplitterCompleteAware):
                 indices = indices_to_be_computed
             else:
                 indices = topology.compute_indices_to_be_computed()
+        elif hasattr(topology, "_fix_indices_images"):
+            # some images of the serie can be excluded
+            indices = list(self.serie.iter_indices())
+            topology._fix_indices_images(indices)
+            if len(indices) == len(self.serie):
+                indices = None
+
+        if indices is not None:
             self.num_expected_results = len(indices)
             self.indices_lists = split_list(indices, self.num_processes)
         else:
-- 
2.43.0


From ec9321278f3c7d306eb890af1dd99090fd5ea9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:07 +0000
Subject: [PATCH 13/46] fix: exec_async_multi and exec_async_servers survive
 the death of a process

---
 .../executors/exec_async_multiproc.py         | 16 +++++++++++--
 .../executors/exec_async_servers.py           | 23 +++++++++++++++++--
 src/fluidimage/executors/servers.py           |  8 +++++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/executors/exec_async_multiproc.py b/src/fluidimage/executors/exec_async_multiproc.py
index 9233217..0bcda34 100644
--- a/src/fluidimage/executors/exec_async_multiproc.py
+++ b/src/fluidimage/executors/exec_async_multiproc.py
@@ -104,9 +104,17 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
                     "has not started after 10 attempts"
                 )
 
-            # todo: use parent_conn.poll to implement a timeout
+            # only the process has to be able to send something
+            child_conn.close()
 
             # log_debug(f"waiting for result ({key})")
+            while not parent_conn.poll(1):
+                # the process can be killed before having sent the result
+                if not process.is_alive() and not parent_conn.poll():
+                    raise RuntimeError(
+                        f"The process {work.name_no_space} ({key}) ended without "
+                        f"sending its result (exitcode: {process.exitcode})"
+                    )
             result = parent_conn.recv()
             # log_debug(f"result ({key}) received")
 
@@ -117,7 +125,11 @@ class ExecutorAsyncMultiproc(ExecutorAsync):
 
             return result
 
-        ret = await trio.to_thread.run_sync(run_process)
+        # pylint: disable=W0703
+        try:
+            ret = await trio.to_thread.run_sync(run_process)
+        except Exception as error:
+            ret = error
 
         if isinstance(ret, Exception):
             self.log_exception(ret, work.name_no_space, key)
diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index b2c1983..c773ca4 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -113,7 +113,10 @@ class ExecutorAsyncServers(ExecutorAsync):
         """
         self._init_compute()
         for worker in self.workers:
-            worker.send(("__t_start__", self.t_start))
+            try:
+                worker.send(("__t_start__", self.t_start))
+            except OSError:
+                logger.error("A server did not start.")
         self.exec_one_shot_works()
         trio.run(self.start_async_works)
         self._finalize_compute()
@@ -211,13 +214,26 @@ class ExecutorAsyncServers(ExecutorAsync):
             # send (work, key, obj, comm) to the server
             worker.send_job((work.name, key, obj, child_conn))
             worker.is_available = True
+            # only the server has to be able to send something
+            child_conn.close()
             # wait for the end of the computation
+            while not parent_conn.poll(1):
+                # the server can be killed before having sent the result
+                if not worker.is_alive() and not parent_conn.poll():
+                    raise RuntimeError(
+                        f"The server computing {work.name_no_space} ({key}) "
+                        "ended without sending the result."
+                    )
             work_name_received, key_received, result = parent_conn.recv()
             assert work.name == work_name_received
             assert key == key_received
             return result
 
-        ret = await trio.to_thread.run_sync(run_process)
+        # pylint: disable=W0703
+        try:
+            ret = await trio.to_thread.run_sync(run_process)
+        except Exception as error:
+            ret = error
         if isinstance(ret, Exception):
             self.log_exception(ret, work.name_no_space, key)
         if work.output_queue is not None:
@@ -255,9 +271,12 @@ class ExecutorAsyncServers(ExecutorAsync):
             for worker in self.workers
             if worker.is_available
             and worker.nb_items_to_process < max_items_in_server
+            and worker.is_alive()
         ]
 
         if not available_workers:
+            if not any(worker.is_alive() for worker in self.workers):
+                raise RuntimeError("All the servers ended unexpectedly.")
             return False
 
         nb_items_to_process_workers = [
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 2831ae2..70b7854 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -101,6 +101,9 @@ class WorkerMultiprocessing(Worker):
         self.is_unoccupied = False
         self.nb_items_to_process += 1
 
+    def is_alive(self):
+        return self.process.is_alive()
+
     def send_job(self, obj):
         self.send(obj)
 
@@ -234,6 +237,11 @@ class WorkerServerMultiprocessing(WorkerServer):
 
     async def receive(self):
         while self._has_to_continue:
+            # no thread waiting for ever: the server has to be able to stop
+            while not self.conn.poll():
+                if not self._has_to_continue:
+                    return
+                await trio.sleep(self.sleep_time)
             ret = await trio.to_thread.run_sync(self.conn.recv)
             log_debug(f"receive: {ret}")
             if isinstance(ret, tuple) and ret[0] == "__t_start__":
-- 
2.43.0


From 7e39477be654ad01788779a071727e4452c61ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 14/46] fix: incomplete last line in the results files of a
 killed process

---
 src/fluidimage/executors/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index acfe82e..1a21887 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -576,7 +576,12 @@ class MultiExecutorBase(ExecutorBase):
             self.topology.results = results = []
             for path in self.path_job_data.glob("results_*.txt"):
                 with open(path, encoding="utf-8") as file:
-                    results.extend(line.strip() for line in file.readlines())
+                    # the last line is not complete if the process was killed
+                    results.extend(
+                        line.strip()
+                        for line in file.readlines()
+                        if line.endswith("\n")
+                    )
 
             if not self.errors:
                 self._run_final_seq_work()
-- 
2.43.0


From 8bc64d007423416fd692194a86da9c1b550316a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 15/46] fix: job files (lock released after an error, counts
 and end time never empty)

The lock was released only at exit when compute raised (and sys.stdout was
still writing in the log file). The files len_results*.txt were transiently
empty each time they were rewritten.
---
 src/fluidimage/executors/base.py              | 22 +++++++++++++++----
 .../executors/exec_async_seq_for_multi.py     |  3 +--
 src/fluidimage/topologies/base.py             |  6 ++++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 1a21887..429836a 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -38,6 +38,7 @@ from fluidimage.util import (
     safe_eval,
     str_short,
 )
+from fluidimage.util.util import path_replaced_when_written
 
 config = get_config()
 
@@ -259,10 +260,13 @@ class ExecutorBase(ABC):
 
     def _release_lock(self):
         if self._path_lockfile.exists():
-            self._path_lockfile.unlink(missing_ok=True)
             t_as_str = time_as_str()
             path_end_time = self._path_lockfile.with_name("time_end.txt")
-            path_end_time.write_text(f"{t_as_str}\n")
+            try:
+                with path_replaced_when_written(path_end_time) as path_tmp:
+                    path_tmp.write_text(f"{t_as_str}\n")
+            finally:
+                self._path_lockfile.unlink(missing_ok=True)
 
     def _save_job_data(self):
         self.path_job_data = self.path_dir_result / f"job_{self._unique_postfix}"
@@ -299,6 +303,12 @@ class ExecutorBase(ABC):
         self._reset_std_as_default()
         self._release_lock()
 
+    def _clean_up_after_error(self):
+        """The job ended with an error raised by `compute`"""
+        if not self._log_file.closed:
+            self._reset_std_as_default()
+        self._release_lock()
+
     def log_in_file(self, *args, sep=" ", end="\n"):
         """Simple write in the log file (without print)"""
         self._log_file.write(sep.join(str(arg) for arg in args) + end)
@@ -391,6 +401,11 @@ class ExecutorBase(ABC):
         )
         self._len_saved_results = 0
 
+    def _save_num_results(self, num_results):
+        # the file is read (by other processes) during the computation
+        with path_replaced_when_written(self._path_num_results) as path_tmp:
+            path_tmp.write_text(f"{num_results}\n", encoding="utf-8")
+
     def _save_results_names(self):
 
         if not hasattr(self, "_path_results"):
@@ -400,8 +415,7 @@ class ExecutorBase(ABC):
         new_results = self.topology.results[self._len_saved_results :]
         self._len_saved_results = len(self.topology.results)
 
-        with open(self._path_num_results, "w", encoding="utf-8") as file:
-            file.write(f"{self._len_saved_results}\n")
+        self._save_num_results(self._len_saved_results)
 
         if new_results:
             if isinstance(new_results[0], str):
diff --git a/src/fluidimage/executors/exec_async_seq_for_multi.py b/src/fluidimage/executors/exec_async_seq_for_multi.py
index cc2704c..7852eb7 100644
--- a/src/fluidimage/executors/exec_async_seq_for_multi.py
+++ b/src/fluidimage/executors/exec_async_seq_for_multi.py
@@ -78,8 +78,7 @@ class ExecutorAsyncSeqForMulti(ExecutorAsyncSequential):
         self._init_compute_log()
         if hasattr(self, "_path_results"):
             self._path_results.touch()
-            with open(self._path_num_results, "w", encoding="utf-8") as file:
-                file.write("0\n")
+            self._save_num_results(0)
 
     def _init_num_expected_results(self):
         pass
diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 5e23548..bfb124f 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -396,7 +396,11 @@ class TopologyBase:
                 **kwargs_executor,
             )
 
-        self.executor.compute()
+        try:
+            self.executor.compute()
+        except BaseException:
+            self.executor._clean_up_after_error()
+            raise
 
     def make_text_at_exit(self, time_since_start):
         """Make a text printed before exit."""
-- 
2.43.0


From e719e41e7768835508bb8ecc515c66fadbf8f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 16/46] fix: the monitor can be opened at any time and shows
 the final state

- AssertionError when there was no len_results file yet and error when
  info.xml was not (completely) written,
- files of processes started later were ignored,
- the last results and the total duration were not displayed when the job ended
  during the update.
---
 src/fluidimage/executors/base.py |  5 ++++-
 src/fluidimage/gui/monitor.py    | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 429836a..20ec09f 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -279,7 +279,10 @@ class ExecutorBase(ABC):
         params._save_as_xml(self.path_job_data / "params.xml")
 
         info_job = ParamContainer("info", attribs=self.info_job)
-        info_job._save_as_xml(self.path_job_data / "info.xml")
+        with path_replaced_when_written(
+            self.path_job_data / "info.xml"
+        ) as path_tmp:
+            info_job._save_as_xml(path_tmp)
 
     def _reset_std_as_default(self):
         sys.stdout = self._old_stdout
diff --git a/src/fluidimage/gui/monitor.py b/src/fluidimage/gui/monitor.py
index 301eaf9..00308f9 100644
--- a/src/fluidimage/gui/monitor.py
+++ b/src/fluidimage/gui/monitor.py
@@ -123,7 +123,11 @@ class MonitorApp(App):
             return
 
         try:
-            self.path_job_info = sorted(self.path_results.glob("job_*"))[-1]
+            # info.xml is written when all the other files are there
+            self.path_job_info = sorted(
+                path_info.parent
+                for path_info in self.path_results.glob("job_*/info.xml")
+            )[-1]
         except IndexError:
             print("No job info folder found.")
             self.exit(0)
@@ -152,18 +156,15 @@ class MonitorApp(App):
         params_default = class_topology.create_default_params()
         copy_doc(self.params, params_default)
 
-        self.paths_len_results = sorted(
-            self.path_job_info.glob("len_results*.txt")
-        )
-        assert self.paths_len_results
-
         self.num_results = 0
         self.detect_results()
 
     def detect_results(self):
         """Detect how many results have been computed"""
         num_results_vs_idx_process = []
-        for path_len_results in self.paths_len_results:
+        # the files are created by the processes when they start
+        paths_len_results = sorted(self.path_job_info.glob("len_results*.txt"))
+        for path_len_results in paths_len_results:
             with open(path_len_results, encoding="utf-8") as file:
                 content = file.read()
                 len_results = int(content) if content else 0
@@ -259,11 +260,13 @@ class MonitorApp(App):
 
     def update_info(self):
         """Update the 'info' panel"""
+        # first, so that what is displayed at last corresponds to the ended job
+        job_is_running = self.check_is_running()
         self.detect_results()
         self.progress_bar.progress = self.num_results
         self.digit_num_results.update(f"{self.num_results}")
         self.label_times.update(self.compute_times_str())
-        if not self.check_is_running():
+        if not job_is_running:
             self.timer_update_info.pause()
             self.label_is_running.update(f"Running: {self.job_is_running}")
 
-- 
2.43.0


From c44b5c1628a836ec6aec637295f98f44e87bd5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 17/46] fix: only the last blocked work goes on when the queues
 are full

Several works with full output queues could go on at the same time, and the
queues could grow over their limit plus the number of workers.
---
 src/fluidimage/executors/exec_async.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 0fb54e3..543228a 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -196,6 +196,7 @@ class ExecutorAsync(ExecutorBase):
         There is no need to wait when nothing else can be done: more items are
         needed to be able to consume those already in the queues (for example
         a couple of images separated by more images than `nb_items_queue_max`).
+        In this case, only the last of the works having something to do goes on.
 
         """
         if not self._is_output_full(work):
@@ -205,10 +206,17 @@ class ExecutorAsync(ExecutorBase):
             return True
 
         lengths = self._get_queue_lengths()
+        is_downstream = False
         for other in self.works:
-            if self._has_no_input(other) or self._is_output_full(other):
+            if other is work:
+                is_downstream = True
                 continue
-            if other.kind is not None and "global" in other.kind:
+            if self._has_no_input(other):
+                continue
+            is_global = other.kind is not None and "global" in other.kind
+            if self._is_output_full(other) and (is_global or not is_downstream):
+                continue
+            if is_global:
                 if self._lengths_after_global.get(other.name) == lengths:
                     # this work has nothing to do with what is in the queues
                     continue
-- 
2.43.0


From 9d93d6609395d95c1fbef23ac5b2383177e0c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 18/46] fix: parsing of the logs of interrupted executions and
 of keys with spaces

An incomplete last line, a log stopped before the start of compute and keys
containing spaces (names of images) do not break the parser any more.
---
 src/fluidimage/topologies/log.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index e32b754..3fc99a9 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -36,10 +36,12 @@ class DataLogFile:
         self.nb_max_workers = None
         self.executor_name = None
         self.topology_name = None
+        self.mem_start = np.nan
+        time_start = None
         self._title = str(path_file)
 
         print(f"Parsing log file: {path_file}")
-        with open(path_file, "r", encoding="utf-8") as logfile:
+        with open(path_file, "r", encoding="utf-8", errors="replace") as logfile:
             for iline, line in enumerate(logfile):
                 if iline % 100 == 0:
                     print(f"\rparse line {iline}", end="", flush=True)
@@ -47,6 +49,10 @@ class DataLogFile:
                 if line.startswith("ERROR: "):
                     continue
 
+                if not line.endswith("\n"):
+                    # the execution was interrupted during the writing
+                    continue
+
                 if self.nb_cpus_allowed is None and line.startswith(
                     "  nb_cpus_allowed = "
                 ):
@@ -81,7 +87,9 @@ class DataLogFile:
 
                     if ". Launch work " in line:
                         name = words[4]
-                        key = words[5][1:-2]
+                        # there can be spaces in the key
+                        key = line.split(f" {name} (", 1)[1]
+                        key = key.rsplit("). mem usage: ", 1)[0]
                         t = float(words[0])
                         works.append(
                             {
@@ -101,7 +109,10 @@ class DataLogFile:
                         self.date_start = date
                         self.mem_start = mem
                         time_start = t
-                    elif ": end of `compute`. mem usage" in line:
+                    elif (
+                        ": end of `compute`. mem usage" in line
+                        and time_start is not None
+                    ):
                         self.date_end = date
                         self.duration = t - time_start
                         self.mem_end = mem
@@ -109,7 +120,8 @@ class DataLogFile:
                 if line.startswith("work ") and " done in " in line:
                     words = line.split()
                     name = words[1]
-                    key = words[2][1:-1]
+                    key = line.split(f" {name} (", 1)[1]
+                    key = key.rsplit(") done in ", 1)[0]
                     try:
                         duration = float(words[-2])
                     except ValueError:
-- 
2.43.0


From 68175382c3094404a303ecdae5cef6feaacec113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 19/46] fix: server threads do not replace the standard streams

With exec_async_servers_threading, the servers live in the main process:
replacing sys.stdout redirected the log of the executor to the log files of
the servers.
---
 src/fluidimage/executors/servers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 70b7854..8f2f3d1 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -196,6 +196,13 @@ class WorkerServerMultiprocessing(WorkerServer):
 
         self._log_file = open(log_path, "w", encoding="utf-8")
 
+        if in_process:
+            self._init_std_and_logging(logging_level)
+
+        # blocking
+        super().__init__(sleep_time=sleep_time)
+
+    def _init_std_and_logging(self, logging_level):
         stdout = sys.stdout
         if isinstance(stdout, MultiFile):
             stdout = sys.__stdout__
@@ -215,9 +222,6 @@ class WorkerServerMultiprocessing(WorkerServer):
 
             config_logging(logging_level, file=sys.stdout)
 
-        # blocking
-        super().__init__(sleep_time=sleep_time)
-
     def log_in_file(self, *args, sep=" ", end="\n"):
         """Simple write in the log file (without print)"""
         self._log_file.write(sep.join(str(arg) for arg in args) + end)
-- 
2.43.0


From 525877ef69ea8586a05f4215e2197709f50463a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 20/46] fix: answers in upper case when the directory of the
 results exists

'S' is accepted as an answer but the computation went on, and the result
files were modified.
---
 src/fluidimage/topologies/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index bfb124f..999e572 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -81,6 +81,7 @@ def prepare_path_dir_result(
                     "The answer should be in ['n', 'c', 'r', 's']\n"
                     "Please type your answer again...\n"
                 )
+            answer = answer.lower()
 
             if answer == "s":
                 print("Stopped by the user.")
-- 
2.43.0


From 1d34725e22a414595c14ce013deae1feba07343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 21/46] fix: new_dir gives a directory of its own to each
 computation

Several computations started at the same time used the same directory, and
a path given as a Path could not be used.
---
 src/fluidimage/topologies/base.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 999e572..0e3a616 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -60,7 +60,7 @@ def prepare_path_dir_result(
     path_dir_input = str(path_dir_input)
 
     if path_saving is not None:
-        path_dir_result = path_saving
+        path_dir_result = str(path_saving)
     else:
         path_dir_result = path_dir_input + "." + postfix_saving
 
@@ -94,17 +94,32 @@ def prepare_path_dir_result(
             elif answer == "r":
                 how = "recompute"
 
-        if how == "new_dir":
-            i = 0
-            while os.path.exists(path_dir_result + str(i)):
-                i += 1
-            path_dir_result += str(i)
+    if how == "new_dir":
+        return _make_new_dir(path_dir_result), how
 
     path_dir_result = Path(path_dir_result)
     path_dir_result.mkdir(exist_ok=True)
     return path_dir_result, how
 
 
+def _make_new_dir(path_base):
+    """Create a directory and return its path
+
+    Another process can create the same directory at the same time.
+
+    """
+    path = Path(path_base)
+    i = 0
+    while True:
+        try:
+            path.mkdir()
+        except FileExistsError:
+            path = Path(path_base + str(i))
+            i += 1
+        else:
+            return path
+
+
 class Work:
     """Represent a work
 
-- 
2.43.0


From cda78356cff01bb17b63aa2e6774b3fddaad376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 22/46] fix: computations started within the same second in the
 same process

The names of the job directories and of the logs were not unique: error,
shared job directories or overwritten logs.
---
 src/fluidimage/executors/base.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 20ec09f..95abac8 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -83,21 +83,25 @@ class ExecutorBase(ABC):
     _path_num_results: Path
     _len_saved_results: int
 
+    def _is_postfix_used(self, postfix):
+        return any(
+            (self.path_dir_result / name).exists()
+            for name in (f"job_{postfix}", f"log_{postfix}", f"log_{postfix}.txt")
+        )
+
     def _init_log_path(self):
         self.time_start_str = time_as_str()
-        unique_postfix = f"{self.time_start_str}_{os.getpid()}"
-        path_job_data = self.path_dir_result / f"job_{unique_postfix}"
-
-        if path_job_data.exists():
-            index = 0
-            unique_postfix0 = unique_postfix
-            while path_job_data.exists():
-                index += 1
-                unique_postfix = unique_postfix0 + str(index)
-                path_job_data = self.path_dir_result / f"log_{unique_postfix}"
+        unique_postfix0 = f"{self.time_start_str}_{os.getpid()}"
+        unique_postfix = unique_postfix0
+        index = 0
+        while self._is_postfix_used(unique_postfix):
+            index += 1
+            # the separator is needed: the name has to be different from
+            # the names for the other processes
+            unique_postfix = f"{unique_postfix0}_{index}"
 
         self._unique_postfix = unique_postfix
-        self.path_job_data = path_job_data
+        self.path_job_data = self.path_dir_result / f"job_{unique_postfix}"
         self._path_lockfile = self.path_job_data / "is_running.lock"
         self.path_dir_exceptions = self.path_dir_result / f"log_{unique_postfix}"
         self._log_path = self.path_dir_result / f"log_{unique_postfix}.txt"
-- 
2.43.0


From 8ed3c63f897bf7126b6276e5cb4c741b8f223fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 23/46] fix: sub-processes use the directory of their parent
 with new_dir

With saving.how='new_dir', the sub-processes (multi_exec_subproc) and the
servers (exec_async_servers) created other directories, and the results of
multi_exec_subproc were saved there.
---
 src/fluidimage/executors/multi_exec_subproc.py | 3 +++
 src/fluidimage/executors/servers.py            | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 1b25ceb..3ba975b 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -62,6 +62,9 @@ class MultiExecutorSubproc(MultiExecutorBase):
 
         if hasattr(self.topology, "how_saving"):
             params.saving.how = self.topology.how_saving
+            if params.saving.how == "new_dir":
+                # the new directory has already been created
+                params.saving.how = "recompute"
 
         if hasattr(self.topology, ""):
             params.saving.path = self.topology.path_dir_result
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 8f2f3d1..062bb48 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -189,7 +189,8 @@ class WorkerServerMultiprocessing(WorkerServer):
         except AttributeError:
             pass
         else:
-            if params.saving.how == "ask":
+            if params.saving.how in ("ask", "new_dir"):
+                # the directory has already been prepared by the main process
                 params.saving.how = "complete"
 
         self.topology = topology_cls(params)
-- 
2.43.0


From 93a4aaad247cecfdde058e5fd20c626839f50e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 24/46] fix: sub-processes with one image selected by its index

With str_subset='3', the splitters raised IndexError.
---
 src/fluidimage/topologies/splitters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/splitters.py b/src/fluidimage/topologies/splitters.py
index 3c14562..19243da 100644
--- a/src/fluidimage/topologies/splitters.py
+++ b/src/fluidimage/topologies/splitters.py
@@ -259,8 +259,11 @@ class SplitterFromImages(SplitterCompleteAware):
         else:
             self.num_expected_results = len(self.serie)
             slicing_tuples = self.serie.get_slicing_tuples()
-            s0 = slicing_tuples[0]
-            self.ranges = split_range(s0[0], s0[1], s0[2], self.num_processes)
+            # no step in the slicing tuple for a unique index
+            r0 = range(*slicing_tuples[0])
+            self.ranges = split_range(
+                r0.start, r0.stop, r0.step, self.num_processes
+            )
 
             if len(slicing_tuples) == 1:
                 self.slicing_str_post = ""
-- 
2.43.0


From ce6424efd0168187fca52c74d6a6ff38e16c41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 25/46] fix: the reference is not an image of the BOS with a
 relative path

---
 src/fluidimage/topologies/bos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 2a6e2a6..75b2606 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -177,7 +177,8 @@ class TopologyBOS(TopologyBaseFromImages):
     def _fix_indices_images(self, indices_images):
         """Fix the indices images in fill_queue_paths"""
 
-        if not self.path_reference.is_relative_to(self.serie.path_dir):
+        path_reference = self.path_reference.absolute()
+        if not path_reference.is_relative_to(Path(self.serie.path_dir).absolute()):
             return
 
         if not self.path_reference.name.startswith(self.serie.base_name):
-- 
2.43.0


From 32c804cc475f32a5fdde6d02c5aa18b837dda6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 26/46] fix: the servers do not modify the parameters of the
 computation

With exec_async_servers_threading, the saving mode in the parameters saved
in the job directory could be changed by a server.
---
 src/fluidimage/executors/servers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 062bb48..08791d8 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -21,6 +21,7 @@
 
 """
 
+import copy
 import signal
 import sys
 import time
@@ -62,7 +63,8 @@ def launch_server(
             child_conn,
             event_has_to_stop,
             type(topology),
-            topology.params,
+            # modified by the server (which can be a thread)
+            copy.deepcopy(topology.params),
             sleep_time,
             in_process,
             log_path,
-- 
2.43.0


From a078dc08f61dcbf33bfd1ead0f3426560255e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 27/46] fix: the saved parameters are loaded unchanged

The parameters given to the sub-processes and saved in the job directory
were modified (long values with spaces, strings like '3' or 'None', Numpy
scalars) or could not be loaded (quotes).
---
 src/fluidimage/executors/base.py              |  9 ++--
 .../executors/multi_exec_subproc.py           |  3 +-
 src/fluidimage/util/util.py                   | 48 +++++++++++++++++++
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 95abac8..6c2551e 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -38,7 +38,10 @@ from fluidimage.util import (
     safe_eval,
     str_short,
 )
-from fluidimage.util.util import path_replaced_when_written
+from fluidimage.util.util import (
+    path_replaced_when_written,
+    save_params_as_xml,
+)
 
 config = get_config()
 
@@ -280,13 +283,13 @@ class ExecutorBase(ABC):
         params = self.topology.params
         if isinstance(params, dict):
             params = ParamContainer("params", attribs=params)
-        params._save_as_xml(self.path_job_data / "params.xml")
+        save_params_as_xml(params, self.path_job_data / "params.xml")
 
         info_job = ParamContainer("info", attribs=self.info_job)
         with path_replaced_when_written(
             self.path_job_data / "info.xml"
         ) as path_tmp:
-            info_job._save_as_xml(path_tmp)
+            save_params_as_xml(info_job, path_tmp)
 
     def _reset_std_as_default(self):
         sys.stdout = self._old_stdout
diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 3ba975b..0a1c076 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -14,6 +14,7 @@ from time import sleep
 from fluiddyn import time_as_str
 from fluidimage.topologies.splitters import Splitter
 from fluidimage.util import logger
+from fluidimage.util.util import save_params_as_xml
 
 from .base import MultiExecutorBase
 
@@ -95,7 +96,7 @@ class MultiExecutorSubproc(MultiExecutorBase):
             kwargs_executor.index_process = index_process
 
             path_params = path_dir_params / f"params{index_process:00d}.xml"
-            params_split._save_as_xml(path_params)
+            save_params_as_xml(params_split, path_params)
 
             process = subprocess.Popen(
                 [
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index cbf5f4a..9b56a33 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -23,10 +23,13 @@ Provides:
 """
 
 import os
+from ast import literal_eval
 from contextlib import contextmanager
 from pathlib import Path
 from threading import get_ident
+from xml.etree import ElementTree
 
+import numpy as np
 import psutil
 from IPython.lib.pretty import pretty
 from simpleeval import EvalWithCompoundTypes
@@ -88,6 +91,51 @@ def path_replaced_when_written(path):
         path_tmp.unlink(missing_ok=True)
 
 
+def _without_numpy_scalars(value):
+    if isinstance(value, np.generic):
+        return value.item()
+    if type(value) in (list, tuple):
+        return type(value)(_without_numpy_scalars(v) for v in value)
+    return value
+
+
+def _as_xml_attrib(value):
+    """Text from which fluiddyn's ParamContainer loads the same value"""
+    value = _without_numpy_scalars(value)
+    if not isinstance(value, (str, Path)):
+        return repr(value)
+    text = str(value)
+    try:
+        literal_eval(text)
+    except (SyntaxError, ValueError):
+        return text
+    # without the quotes, the string would not be loaded as a string
+    return repr(text)
+
+
+def save_params_as_xml(params, path):
+    """Save a ParamContainer in a XML file
+
+    In contrast to ``params._save_as_xml``, the values are not wrapped and the
+    special characters are escaped, so that the parameters can be loaded
+    unchanged.
+
+    """
+
+    def set_attribs(element, container):
+        for key in container._key_attribs:
+            element.set(key, _as_xml_attrib(container[key]))
+        for child, tag in zip(element, container._tag_children):
+            set_attribs(child, container[tag])
+
+    element = params._make_element_xml()
+    set_attribs(element, params)
+    ElementTree.indent(element)
+    text = ElementTree.tostring(element, encoding="unicode") + "\n"
+    with open(path, "x", encoding="utf-8") as file:
+        file.write(text)
+
+
 def imsave(path, array, **kwargs):
     "tmp docstring"
     path = Path(path)
-- 
2.43.0


From 2b21468749c9777140f1ba2a7abf905ebfb173f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 28/46] fix: no work started and no final work after a request
 to stop

With signal 12, exec_sequential ignored the request, the async executors were
not stopped as long as there was something in the queues (the flag was only
checked while waiting) and the final work of the topology was executed (mean of
a part of the images).
---
 src/fluidimage/executors/base.py            | 7 +++++--
 src/fluidimage/executors/exec_async.py      | 6 ++++++
 src/fluidimage/executors/exec_sequential.py | 3 +++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 6c2551e..e0ee546 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -188,6 +188,8 @@ class ExecutorBase(ABC):
         self.nb_items_queue_max = nb_items_queue_max
 
         self._has_to_stop = False
+        # True if the computation is stopped (by a signal) before its end
+        self._is_stopped = False
         if sys.platform != "win32":
 
             def handler_signals(signal_number, stack):
@@ -196,7 +198,7 @@ class ExecutorBase(ABC):
                     f"signal {signal_number} received: set _has_to_stop to True "
                     f"({type(self).__name__})."
                 )
-                self._has_to_stop = True
+                self._is_stopped = self._has_to_stop = True
 
             signal.signal(12, handler_signals)
 
@@ -301,6 +303,7 @@ class ExecutorBase(ABC):
         if (
             hasattr(self.topology, "final_seq_work")
             and not self._final_seq_work_run
+            and not self._is_stopped
         ):
             self.topology.final_seq_work()
             self._final_seq_work_run = True
@@ -528,7 +531,7 @@ class MultiExecutorBase(ExecutorBase):
                     f"signal {signal_number} received: set _has_to_stop to True "
                     f"({type(self).__name__})."
                 )
-                self._has_to_stop = True
+                self._is_stopped = self._has_to_stop = True
                 for process in self.processes:
                     os.kill(process.pid, signal_number)
 
diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 543228a..1599313 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -133,6 +133,8 @@ class ExecutorAsync(ExecutorBase):
                             await trio.sleep(self.sleep_time)
                             if self._has_to_stop:
                                 return
+                        if self._has_to_stop:
+                            return
                         t_start = time.time()
                         self.log_in_file_memory_usage(
                             f"{time.time() - self.t_start:.2f} s. Launch work "
@@ -237,6 +239,8 @@ class ExecutorAsync(ExecutorBase):
                     if self._has_to_stop:
                         return
                     await trio.sleep(self.sleep_time)
+                if self._has_to_stop:
+                    return
                 self.nb_working_workers_io += 1
                 self.nursery.start_soon(self.async_run_work_io, work)
                 await trio.sleep(self.sleep_time)
@@ -256,6 +260,8 @@ class ExecutorAsync(ExecutorBase):
                     if self._has_to_stop:
                         return
                     await trio.sleep(self.sleep_time)
+                if self._has_to_stop:
+                    return
                 self.nb_working_workers_cpu += 1
                 self.nursery.start_soon(self.async_run_work_cpu, work)
                 await trio.sleep(self.sleep_time)
diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index d036b58..f974786 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -27,6 +27,9 @@ class ExecutorSequential(ExecutorBase):
     def _run_works(self):
         while not all([len(queue) == 0 for queue in self.topology.queues]):
             for work in self.works:
+                if self._has_to_stop:
+                    return
+
                 # global functions
                 if work.kind is not None and "global" in work.kind:
                     if (
-- 
2.43.0


From b60940049b03983d5476affead8a79cf8796d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 29/46] fix: a request to stop is transmitted to all the
 sub-processes

A process started while the signal was handled did not receive it and computed
all its results. The handler could raise ProcessLookupError for a process already
finished.
---
 src/fluidimage/executors/base.py              | 20 +++++++++++++++++--
 src/fluidimage/executors/multi_exec_async.py  |  5 +++++
 .../executors/multi_exec_subproc.py           |  2 ++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index e0ee546..5646939 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -497,6 +497,7 @@ class MultiExecutorBase(ExecutorBase):
         self.sleep_time = sleep_time
         self.nb_processes = self.nb_max_workers
         self.processes = []
+        self._pids_signaled = set()
 
         # to avoid a pylint warning
         self.log_paths = None
@@ -532,8 +533,7 @@ class MultiExecutorBase(ExecutorBase):
                     f"({type(self).__name__})."
                 )
                 self._is_stopped = self._has_to_stop = True
-                for process in self.processes:
-                    os.kill(process.pid, signal_number)
+                self._transmit_signal(signal_number)
 
             signal.signal(12, handler_signals)
 
@@ -564,6 +564,9 @@ class MultiExecutorBase(ExecutorBase):
 
             while running_processes:
                 sleep(0.2)
+                if self._is_stopped:
+                    # for processes started when the signal was received
+                    self._transmit_signal(12)
                 for idx, process in running_processes.items():
                     ret_code = self._poll_return_code(process)
                     if ret_code is None:
@@ -617,6 +620,19 @@ class MultiExecutorBase(ExecutorBase):
 
         self._finalize_compute()
 
+    def _transmit_signal(self, signal_number):
+        """Transmit a signal (only once) to the running processes"""
+        for process in list(self.processes):
+            if process.pid in self._pids_signaled:
+                continue
+            self._pids_signaled.add(process.pid)
+            if self._poll_return_code(process) is not None:
+                continue
+            try:
+                os.kill(process.pid, signal_number)
+            except ProcessLookupError:
+                pass
+
     def _poll_return_code(self, process):
         return process.poll()
 
diff --git a/src/fluidimage/executors/multi_exec_async.py b/src/fluidimage/executors/multi_exec_async.py
index 027fd75..8b5396d 100644
--- a/src/fluidimage/executors/multi_exec_async.py
+++ b/src/fluidimage/executors/multi_exec_async.py
@@ -168,10 +168,15 @@ class MultiExecutorAsync(MultiExecutorBase):
             t_start=self.t_start,
             index_process=idx_process,
         )
+        if self._is_stopped:
+            # signal received by this process before the creation of its executor
+            return
         executor.compute()
 
     def launch_process(self, topology, idx_process):
         """Launch one process"""
+        if self._is_stopped:
+            return
 
         log_path = self._log_path.parent / f"process_{idx_process:03d}.txt"
         self.log_paths.append(log_path)
diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 0a1c076..f54f821 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -89,6 +89,8 @@ class MultiExecutorSubproc(MultiExecutorBase):
         for index_process, params_split in enumerate(
             splitter.iter_over_new_params()
         ):
+            if self._is_stopped:
+                break
             kwargs_executor = params_split.compute_kwargs.kwargs_executor
             kwargs_executor.path_log = (
                 self._log_path.parent / f"process_{index_process:03d}.txt"
-- 
2.43.0


From 4ca3e4a78f2aabe66363657c167415f144e050aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 30/46] fix: the servers end when they are asked to stop

With exec_async_servers_threading, after Ctrl+C the main thread waited for ever for
the results of servers which had stopped to send them.
---
 src/fluidimage/executors/servers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 08791d8..86d3d63 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -259,6 +259,8 @@ class WorkerServerMultiprocessing(WorkerServer):
     async def launch_works(self):
         while self._has_to_continue:
             while not self.to_be_processed:
+                if not self._has_to_continue:
+                    return
                 await trio.sleep(self.sleep_time)
 
             work_name, key, obj, child_conn = self.to_be_processed.pop(0)
@@ -296,6 +298,8 @@ class WorkerServerMultiprocessing(WorkerServer):
     async def send(self):
         while self._has_to_continue:
             while not self.to_be_resent:
+                if not self._has_to_continue:
+                    return
                 await trio.sleep(self.sleep_time)
             work_name, key, result, child_conn = self.to_be_resent.pop(0)
 
-- 
2.43.0


From 1070d3c1d9b885a01b7f4c783977af80a1450e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 31/46] fix: a FFTW operator can be used from several threads

The plans use arrays which are attributes of the operator so that two threads
using the same work object mixed their data.
---
 src/fluidimage/calcul/fft.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/calcul/fft.py b/src/fluidimage/calcul/fft.py
index 6261676..57d126c 100644
--- a/src/fluidimage/calcul/fft.py
+++ b/src/fluidimage/calcul/fft.py
@@ -27,6 +27,7 @@ that.
 """
 
 from abc import ABC, abstractmethod
+from threading import Lock
 
 import numpy as np
 import numpy.fft as np_fft
@@ -207,6 +208,9 @@ class FFTW2DReal2Complex(OperatorFFTBase):
 
     These ffts are NOT normalized (faster)!
 
+    The plans work on arrays which are attributes of the operator. A lock is
+    thus needed since an operator can be used by different threads.
+
     """
 
     type_real = "float32"
@@ -215,6 +219,8 @@ class FFTW2DReal2Complex(OperatorFFTBase):
     def __init__(self, nx, ny):
         super().__init__(nx, ny)
 
+        self._lock = Lock()
+
         self.arrayX = pyfftw.empty_aligned(self.shapeX, self.type_real)
         self.arrayK = pyfftw.empty_aligned(self.shapeK, self.type_complex)
 
@@ -234,14 +240,16 @@ class FFTW2DReal2Complex(OperatorFFTBase):
         )
 
     def fft(self, field):
-        self.arrayX[:] = field
-        self.fftplan()
-        return self.arrayK.copy()
+        with self._lock:
+            self.arrayX[:] = field
+            self.fftplan()
+            return self.arrayK.copy()
 
     def ifft(self, field_fft):
-        self.arrayK[:] = field_fft
-        self.ifftplan(normalise_idft=False)
-        return self.arrayX.copy()
+        with self._lock:
+            self.arrayK[:] = field_fft
+            self.ifftplan(normalise_idft=False)
+            return self.arrayX.copy()
 
 
 class FFTW2DReal2ComplexFloat64(FFTW2DReal2Complex):
-- 
2.43.0


From f8663e9abf48d69a5da8da881e23eb972495df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 32/46] fix: the grid of a PIV work can be prepared by several
 threads

Another thread could use the grid when only one of its two arrays was set.
---
 src/fluidimage/works/piv/singlepass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 359a360..63a88f4 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -137,8 +137,10 @@ class BaseWorkPIV(BaseWorkWithMask):
 
         ixvecs, iyvecs = np.meshgrid(ixvecs, iyvecs)
 
-        self.ixvecs_grid = ixvecs.flatten()
         self.iyvecs_grid = iyvecs.flatten()
+        # has to be the last one since other threads can use this object as
+        # soon as this attribute is set
+        self.ixvecs_grid = ixvecs.flatten()
 
     def calcul(self, couple):
         """Calcul the PIV (one pass) from a couple of images."""
-- 
2.43.0


From eff75fd096ad8f4423ab4bfd1a48c49352de4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 33/46] fix: name of the PIV files for images with three
 indices

The method get_index_separators was not called so that the results could not be
saved (TypeError).
---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index e7cf8bc..ce3aa2f 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -51,7 +51,7 @@ def get_name_piv(serie, prefix="piv"):
                 str_index += sep + last
 
         if idim > 1:
-            str_indices += serie.get_index_separators[idim - 1]
+            str_indices += serie.get_index_separators()[idim - 1]
         str_indices += str_index
 
     name = prefix + "_" + str_indices + ".h5"
-- 
2.43.0


From 5370989e61d6e0ef3c9314753fde9555d536e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 34/46] fix: y positions of the light results of the first
 passes

The x positions were used.
---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index ce3aa2f..0297611 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -738,7 +738,7 @@ class MultipassPIVResults(DataObject):
             deltaxs = piv.deltaxs_approx
             deltays = piv.deltays_approx
             ixvec = piv.ixvecs_approx
-            iyvec = piv.ixvecs_approx
+            iyvec = piv.iyvecs_approx
 
         if hasattr(self, "file_name"):
             file_name = self.file_name
-- 
2.43.0


From b996d836de8c1f8677125245c80dc544a8ff5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 35/46] fix: order of the TPS subdomains in the loaded results

With more than 10 subdomains, they were in alphabetical order.
---
 src/fluidimage/data_objects/piv.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 0297611..7d71649 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -504,14 +504,11 @@ class HeavyPIVResults(DataObject):
                 pass
 
         if "deltaxs_tps" in g_piv.keys():
+            # not g.keys() because of the alphabetical order (subdom10 < subdom2)
             g = g_piv["deltaxs_tps"]
-            self.deltaxs_tps = []
-            for arr in g.keys():
-                self.deltaxs_tps.append(g[arr][...])
+            self.deltaxs_tps = [g[f"subdom{i}"][...] for i in range(len(g))]
             g = g_piv["deltays_tps"]
-            self.deltays_tps = []
-            for arr in g.keys():
-                self.deltays_tps.append(g[arr][...])
+            self.deltays_tps = [g[f"subdom{i}"][...] for i in range(len(g))]
 
     def get_grid_pixel(self, index_pass):
         """Recompute 1d arrays containing the approximate positions of the vectors
-- 
2.43.0


From f32f1a4f1d7df1b4360e2c2a6ac16bf7dc3c4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 36/46] fix: results added by a thread while the names are
 being saved

---
 src/fluidimage/executors/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 5646939..3cb585e 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -425,8 +425,10 @@ class ExecutorBase(ABC):
             # no job directory since there is nothing to be computed
             return
 
-        new_results = self.topology.results[self._len_saved_results :]
-        self._len_saved_results = len(self.topology.results)
+        # results can be added by other threads during this method
+        num_results = len(self.topology.results)
+        new_results = self.topology.results[self._len_saved_results : num_results]
+        self._len_saved_results = num_results
 
         self._save_num_results(self._len_saved_results)
 
-- 
2.43.0


From 7b3e67d7c8b66d5f5c3844fb3dab5f4b34e1a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 37/46] fix: parse the logs with incomplete lines written by
 killed processes

---
 src/fluidimage/topologies/log.py | 35 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index 3fc99a9..173353a 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -7,6 +7,7 @@
 
 """
 
+import re
 import time
 from pathlib import Path
 
@@ -19,6 +20,16 @@ if is_run_from_ipython():
     plt.ion()
 
 
+# At the beginning of the lines, there can be an incomplete line written by a
+# process which was killed
+_pattern_mem_usage = re.compile(
+    r"\x1b\[\d+m([^\x1b]*\. mem usage: [^\x1b]* Mb)\x1b\[0m$"
+)
+_pattern_work_done = re.compile(
+    r".*work (\S+) \((.*)\) done in (\d+\.\d+) s$"
+)
+
+
 def float_no_valueerror(word):
     try:
         return float(word)
@@ -75,9 +86,10 @@ class DataLogFile:
                     if line.startswith(begin):
                         self.executor_name = line.split(begin)[1].strip()
 
-                if ". mem usage: " in line:
+                match = _pattern_mem_usage.search(line)
+                if match:
                     # to remove the characters coding for color
-                    line = line[5:]
+                    line = match.group(1)
                     words = line.split()
 
                     try:
@@ -117,19 +129,12 @@ class DataLogFile:
                         self.duration = t - time_start
                         self.mem_end = mem
 
-                if line.startswith("work ") and " done in " in line:
-                    words = line.split()
-                    name = words[1]
-                    key = line.split(f" {name} (", 1)[1]
-                    key = key.rsplit(") done in ", 1)[0]
-                    try:
-                        duration = float(words[-2])
-                    except ValueError:
-                        pass
-                    else:
-                        works_ended.append(
-                            {"name": name, "key": key, "duration": duration}
-                        )
+                match = _pattern_work_done.match(line)
+                if match:
+                    name, key, duration = match.groups()
+                    works_ended.append(
+                        {"name": name, "key": key, "duration": float(duration)}
+                    )
 
         print("\rdone" + 20 * " ")
 
-- 
2.43.0


From 52bb43e8ae0359212716ceceddd3557c72a6dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 38/46] fix: files saved with imsave_h5 appear only when they
 are completely written

---
 src/fluidimage/topologies/surface_tracking.py |  3 +--
 src/fluidimage/util/__init__.py               |  3 +--
 src/fluidimage/util/util.py                   | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index ac85126..93c75e3 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -18,10 +18,9 @@
 import sys
 from pathlib import Path
 
-from fluiddyn.io.image import imsave_h5
 from fluidimage import ParamContainer, SerieOfArraysFromFiles, SeriesOfArrays
 from fluidimage.topologies import TopologyBase
-from fluidimage.util import imread, logger
+from fluidimage.util import imread, imsave_h5, logger
 from fluidimage.works import image2image
 from fluidimage.works.surface_tracking import WorkSurfaceTracking
 
diff --git a/src/fluidimage/util/__init__.py b/src/fluidimage/util/__init__.py
index 3bf07a1..7ee4605 100644
--- a/src/fluidimage/util/__init__.py
+++ b/src/fluidimage/util/__init__.py
@@ -9,8 +9,6 @@
 
 """
 
-from fluiddyn.io.image import imsave_h5
-
 from .log import (
     DEBUG,
     config_logging,
@@ -26,6 +24,7 @@ from .util import (
     get_txt_memory_usage,
     imread,
     imsave,
+    imsave_h5,
     print_memory_usage,
     safe_eval,
     str_short,
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index 9b56a33..444efc8 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -23,6 +23,7 @@ Provides:
 """
 
 import os
+import shutil
 from ast import literal_eval
 from contextlib import contextmanager
 from pathlib import Path
@@ -36,6 +37,7 @@ from simpleeval import EvalWithCompoundTypes
 
 from fluiddyn.io.image import imread as _imread
 from fluiddyn.io.image import imsave as _imsave
+from fluiddyn.io.image import imsave_h5 as _imsave_h5
 from fluiddyn.util import get_memory_usage
 from fluiddyn.util import terminal_colors as term
 
@@ -156,6 +158,23 @@ def imsave(path, array, **kwargs):
 imsave.__doc__ = _imsave.__doc__
 
 
+def imsave_h5(path, array, *args, **kwargs):
+    "tmp docstring"
+    path = Path(path)
+    # a directory because the name of the dataset is the name of the file
+    path_dir_tmp = _get_path_tmp(path)
+    path_dir_tmp.mkdir(exist_ok=True)
+    try:
+        _imsave_h5(path_dir_tmp / path.name, array, *args, **kwargs)
+        for path_tmp in path_dir_tmp.iterdir():
+            os.replace(path_tmp, path.with_name(path_tmp.name))
+    finally:
+        shutil.rmtree(path_dir_tmp, ignore_errors=True)
+
+
+imsave_h5.__doc__ = _imsave_h5.__doc__
+
+
 def get_txt_memory_usage(string="Memory usage", color="OKGREEN"):
     mem = get_memory_usage()
     cstr = cstring((string + ": ").ljust(30) + f"{mem:.3f} Mb", color=color)
-- 
2.43.0


From d439957ef5d8d6d329891d75857016a636a3fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 39/46] fix: limit of the number of items in several output
 queues with exec_sequential

---
 src/fluidimage/executors/exec_sequential.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index f974786..87f57af 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -32,9 +32,13 @@ class ExecutorSequential(ExecutorBase):
 
                 # global functions
                 if work.kind is not None and "global" in work.kind:
-                    if (
-                        work.output_queue is not None
-                        and len(work.output_queue) > self.nb_items_queue_max
+                    queues = work.output_queue
+                    if queues is None:
+                        queues = ()
+                    elif not isinstance(queues, tuple):
+                        queues = (queues,)
+                    if any(
+                        len(queue) > self.nb_items_queue_max for queue in queues
                     ):
                         continue
 
-- 
2.43.0


From ef9cd538261be27cb285836c71af07531fc67ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 40/46] fix: surface tracking: the reference is not modified by
 the images (crop_edge)

---
 src/fluidimage/works/surface_tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/surface_tracking.py b/src/fluidimage/works/surface_tracking.py
index 51a8620..b5d8554 100644
--- a/src/fluidimage/works/surface_tracking.py
+++ b/src/fluidimage/works/surface_tracking.py
@@ -356,7 +356,7 @@ class WorkSurfaceTracking(BaseWork):
         if x_min <= self.xmin:
             x_min = self.xmin
             print("INFO:x_min adjusted")
-        calc_frame = self.ref
+        calc_frame = self.ref.copy()
         calc_frame[:, x_min - self.xmin : -(self.xmax - x_max)] = frame[
             self.ymin : self.ymax, x_min:x_max
         ]
-- 
2.43.0


From 77877c3b6a01221a916af9ef7fb2e84ea3a2bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 41/46] fix: surface tracking: a failing image only costs the
 images which depend on it

---
 src/fluidimage/topologies/surface_tracking.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index 93c75e3..0af5a2f 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -237,7 +237,10 @@ Parameters indicating the input image set.
                     array1 = queue_angles[couple[0]]
                     array2 = queue_angles[couple[0]]
 
-                    queue_couple[couple[0]] = (array1, array2)
+                    if isinstance(array1, Exception):
+                        queue_couple[couple[0]] = array1
+                    else:
+                        queue_couple[couple[0]] = (array1, array2)
                     del queue_angles[couple[0]]
                     del queue_couples_of_names[key]
             elif (
@@ -247,7 +250,12 @@ Parameters indicating the input image set.
                 array1 = queue_mod0_angles[couple[0]]
                 array2 = queue_angles[couple[1]]
 
-                queue_couple[couple[1]] = (array1, array2)
+                for array in (array1, array2):
+                    if isinstance(array, Exception):
+                        queue_couple[couple[1]] = array
+                        break
+                else:
+                    queue_couple[couple[1]] = (array1, array2)
                 del queue_angles[couple[1]]
                 del queue_couples_of_names[key]
                 output_queues[0][couple[0]] = queue_mod0_angles[couple[0]]
-- 
2.43.0


From cfbf4cb9e3223d3c29aac46d1793e01e7c56df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 42/46] fix: surface tracking: the results are reported

---
 src/fluidimage/topologies/surface_tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index 0af5a2f..4a66ac3 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -216,6 +216,7 @@ Parameters indicating the input image set.
             input_queue=queue_heights,
             kind=("io", "eat key value"),
         )
+        self.results = []
 
     def make_couples(self, input_queues, output_queues):
         """correctphase"""
@@ -266,6 +267,7 @@ Parameters indicating the input image set.
         name_file = Path(path).name
         path_out = self.path_dir_result / name_file
         imsave_h5(path_out, image, splitext=False)
+        self.results.append(name_file + ".h5")
 
     def fill_queue_paths(self, input_queue, output_queues):
         assert input_queue is None
-- 
2.43.0


From 2c18177c41f88bdb1fbe439026aa85999fd617a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 43/46] fix: surface tracking with how='complete': only the
 missing results, selections with steps

---
 src/fluidimage/executors/base.py              |  6 ++-
 src/fluidimage/topologies/surface_tracking.py | 45 ++++++++++++++-----
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 3cb585e..c732477 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -367,7 +367,11 @@ class ExecutorBase(ABC):
             )
 
     def _init_num_expected_results(self):
-        if hasattr(self.topology, "series"):
+        if hasattr(self.topology, "compute_num_expected_results"):
+            self.num_expected_results = (
+                self.topology.compute_num_expected_results()
+            )
+        elif hasattr(self.topology, "series"):
             self._init_num_expected_results_series()
         else:
             self._init_num_expected_results_first_queue()
diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index 4a66ac3..b42804f 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -218,6 +218,24 @@ Parameters indicating the input image set.
         )
         self.results = []
 
+    def _get_path_result(self, name):
+        return self.path_dir_result / (name + ".h5")
+
+    def _get_names_to_be_saved(self):
+        names = self.serie.get_name_arrays()
+        if self.how_saving != "complete":
+            return list(names)
+        return [name for name in names if not self._get_path_result(name).exists()]
+
+    def compute_num_expected_results(self):
+        """Compute the number of results that the computation has to produce"""
+        return len(self._get_names_to_be_saved())
+
+    def _put_if_to_be_saved(self, queue, name, angle):
+        # the other images are only used to correct the phase of the next ones
+        if name in self._names_to_be_saved:
+            queue[name] = angle
+
     def make_couples(self, input_queues, output_queues):
         """correctphase"""
         queue_couples_of_names = input_queues[2]
@@ -226,7 +244,9 @@ Parameters indicating the input image set.
         queue_couple = output_queues[1]
         if not (queue_couples_of_names):
             for key in tuple(queue_mod0_angles):
-                output_queues[0][key] = queue_mod0_angles[key]
+                self._put_if_to_be_saved(
+                    output_queues[0], key, queue_mod0_angles[key]
+                )
                 del queue_mod0_angles[key]
         if not (queue_angles):
             print("no queue")
@@ -259,7 +279,7 @@ Parameters indicating the input image set.
                     queue_couple[couple[1]] = (array1, array2)
                 del queue_angles[couple[1]]
                 del queue_couples_of_names[key]
-                output_queues[0][couple[0]] = queue_mod0_angles[couple[0]]
+                self._put_if_to_be_saved(output_queues[0], couple[0], array1)
                 del queue_mod0_angles[couple[0]]
 
     def save_image(self, tuple_path_image):
@@ -279,15 +299,16 @@ Parameters indicating the input image set.
             logger.warning("add 0 image. No image to process.")
             return
 
-        names = serie.get_name_arrays()
+        self._names_to_be_saved = self._get_names_to_be_saved()
+
+        names = []
+        if self._names_to_be_saved:
+            # the images before the last one are needed to correct its phase
+            names = list(serie.get_name_arrays())
+            names = names[: names.index(self._names_to_be_saved[-1]) + 1]
+
         for name in names:
-            path_im_output = self.path_dir_result / name
-            path_im_input = str(self.path_dir_src / name)
-            if self.how_saving == "complete":
-                if not path_im_output.exists():
-                    queue_paths[name] = path_im_input
-            else:
-                queue_paths[name] = path_im_input
+            queue_paths[name] = str(self.path_dir_src / name)
 
         if len(names) == 0:
             if self.how_saving == "complete":
@@ -323,7 +344,9 @@ Parameters indicating the input image set.
         name = serie.get_name_arrays()[0]
         queue_couples_of_names[ind_serie - 1] = (name, name)
         for ind_serie, serie in series.items():
-            queue_couples_of_names[ind_serie] = serie.get_name_arrays()
+            couple = serie.get_name_arrays()
+            if couple[1] in names:
+                queue_couples_of_names[ind_serie] = couple
 
 
 Topology = TopologySurfaceTracking
-- 
2.43.0


From 33c828754d10328390a73f10cfdccf576c7a524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 44/46] fix: default executor for the topologies which cannot
 be split

---
 src/fluidimage/topologies/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 0e3a616..4da1b7c 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -365,7 +365,8 @@ class TopologyBase:
 
         executor : str or fluidimage.executors.base.ExecutorBase, optional
 
-          If None, ``executor="multi_exec_async"``
+          If None, ``executor="multi_exec_async"`` (or ``"exec_async"`` for the
+          topologies which cannot be split).
 
         nb_max_workers : int, optional
 
@@ -390,6 +391,9 @@ class TopologyBase:
             # "multi_exec_async" on Linux
             # "multi_exec_subproc" elsewhere
             executor = supported_multi_executors[0]
+            if not hasattr(self, "Splitter"):
+                # the multi executors cannot be used with this topology
+                executor = "exec_async"
 
         if not isinstance(executor, ExecutorBase):
             if executor not in get_executor_names():
-- 
2.43.0


From cfb7f6a327fb19c3199d84be3285a957efcc3946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 45/46] fix: preproc: names of the files saved with the
 different formats

---
 src/fluidimage/data_objects/preproc.py | 13 ++++++++++++-
 src/fluidimage/topologies/preproc.py   | 12 +++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index a4cf94f..ba1c93a 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -81,6 +81,15 @@ def get_name_preproc(serie, name_files, ind_serie, nb_series, out_format):
         return fname
 
 
+def get_name_result(name, out_format):
+    """Name of the file in which a preprocessed image is saved"""
+    if out_format in ("h5", "hdf5"):
+        return os.path.splitext(name)[0] + ".h5"
+    if out_format.lower() == "tiff" and not name.endswith((".tif", ".tiff")):
+        return name + ".tiff"
+    return name
+
+
 class ArraySerie(ArrayCouple):
     def __init__(
         self,
@@ -157,7 +166,7 @@ class PreprocResults(LightPIVResults):
             path_file = os.path.join(path, k)
             if out_format == "img":
                 imsave(path_file, v, as_int=True)
-            elif out_format == "h5":
+            elif out_format in ("h5", "hdf5"):
                 attrs = {
                     "class_name": "PreprocResults",
                     "module_name": self.__module__,
@@ -167,5 +176,7 @@ class PreprocResults(LightPIVResults):
                 # Try to save in formats supported by PIL.Image
                 imsave(path_file, v, format=out_format, as_int=True)
 
+            path_file = os.path.join(path, get_name_result(k, out_format))
+
         self.clear_data()
         return path_file
diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index f0cba1a..88cec52 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -15,7 +15,7 @@ from typing import Dict, Tuple
 from fluiddyn.util.paramcontainer import ParamContainer
 from fluidimage import SeriesOfArrays
 from fluidimage.data_objects.preproc import ArraySerie as ArraySubset
-from fluidimage.data_objects.preproc import PreprocResults
+from fluidimage.data_objects.preproc import PreprocResults, get_name_result
 from fluidimage.topologies import TopologyBaseFromSeries
 from fluidimage.topologies.splitters import SplitterFromSeries
 from fluidimage.util import imread
@@ -269,12 +269,10 @@ Parameters describing image saving after preprocessing.
         index_subsets = []
         for ind_subset, subset in self.series.items():
             # all the images of a subset are saved
-            names_results = subset.get_name_arrays()
-            if self.params.saving.format != "img":
-                names_results = (
-                    f"{os.path.splitext(name)[0]}.{self.params.saving.format}"
-                    for name in names_results
-                )
+            names_results = (
+                get_name_result(name, self.params.saving.format)
+                for name in subset.get_name_arrays()
+            )
             if not all(
                 (self.path_dir_result / name).exists() for name in names_results
             ):
-- 
2.43.0


From 48e4c638a88883041008c80088c7c1e90a8ec7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 46/46] fix: parse the logs written while the clock was set
 back (negative durations)

---
 src/fluidimage/topologies/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index 173353a..ce286dc 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -26,7 +26,7 @@ _pattern_mem_usage = re.compile(
     r"\x1b\[\d+m([^\x1b]*\. mem usage: [^\x1b]* Mb)\x1b\[0m$"
 )
 _pattern_work_done = re.compile(
-    r".*work (\S+) \((.*)\) done in (\d+\.\d+) s$"
+    r".*work (\S+) \((.*)\) done in (-?\d+\.\d+) s$"
 )
 
 
-- 
2.43.0

