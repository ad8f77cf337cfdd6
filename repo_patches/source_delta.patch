From 5e22bcf3e6befe4f5d2fef1ed3be7fe1a3baa85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 01/30] fix: serve a file again when it is listed twice in a
 row

The exhausted file stayed cached, so an identical next path was taken as
already consumed and skipped; episodes sampled with replacement got misaligned.
---
 src/synthpix/scheduler/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..0304e6a 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -188,6 +188,10 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self._slice_idx += 1
                 return sample
             except FileEndedError as e:
+                # Drop the exhausted file, so that it is read again if it is
+                # also the next one in the list.
+                self._cached_file = None
+                self._cached_data = None
                 self.index += 1
                 continue  # Skip to the next file
 
-- 
2.43.0


From 84050ba79b6dca1ec4e99a3e7697b7aeeb2e68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 02/30] fix: pad the last batch of RGB images

The padding assumed grey images and raised on the (H, W, 3) images of the
numpy scheduler.
---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 0304e6a..58e9c2f 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -272,14 +272,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From 750d22f386e5a379a304c721143e8a47dce82e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 03/30] fix: accept directories of .h5 files

The extension check looked at the given entries, not at the files found in them.
---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..277f3a4 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From 2d94e948c0e4673e94444708d8286609917b93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 04/30] fix: find files in directories whose names have glob
 characters

---
 src/synthpix/scheduler/base.py     | 2 +-
 src/synthpix/scheduler/episodic.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 58e9c2f..dd1d827 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -73,7 +73,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
         for file_path in file_list:
             if os.path.isdir(file_path):
                 logger.debug(f"Searching for files in {file_path}")
-                pattern = os.path.join(file_path, self._file_pattern)
+                pattern = os.path.join(glob.escape(file_path), self._file_pattern)
                 found_files = sorted(glob.glob(pattern, recursive=True))
                 logger.debug(f"Found {len(found_files)} files in {file_path}")
                 self._file_list.extend(found_files)
diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..3be54c4 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -234,7 +234,10 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
         """
         # Extract the leaf directories from the file list
         leaf_dirs = discover_leaf_dirs(self.file_list)
-        dir2files = {d: sorted(glob.glob(os.path.join(d, "*.mat"))) for d in leaf_dirs}
+        dir2files = {
+            d: sorted(glob.glob(os.path.join(glob.escape(d), "*.mat")))
+            for d in leaf_dirs
+        }
 
         # Sanity-check: all directories must contain enough frames
         for d, files in dir2files.items():
-- 
2.43.0


From 3e72b027aab2e22c03b346854f05150a9b90e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 05/30] fix: resize .mat images to (height, width), bilinearly

PIL takes (width, height): images of a non-square output_shape came out
transposed with respect to the flow. The docs state bilinear interpolation.
---
 src/synthpix/scheduler/mat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..408fead 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -147,7 +147,10 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
                     data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
+                        Image.fromarray(img).resize(
+                            (self.output_shape[1], self.output_shape[0]),
+                            Image.Resampling.BILINEAR,
+                        )
                     )
 
         flow = data["V"]
-- 
2.43.0


From 745cfa423f2cc3a46d797ba45feb1b2a3abd029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 06/30] fix: let the seed choose the order of the files

make() derives a key for the scheduler from the seed, but from_config dropped it.
---
 src/synthpix/scheduler/hdf5.py  | 1 +
 src/synthpix/scheduler/mat.py   | 1 +
 src/synthpix/scheduler/numpy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 277f3a4..b6d8c07 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -116,4 +116,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 408fead..1de3bf8 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -229,4 +229,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
             output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..e833424 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -140,4 +140,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
             include_images=config.get("include_images", False),
+            key=config.get("key"),
         )
-- 
2.43.0


From 390c733aa2ba86bad8c1a80f5baab455e969cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 07/30] fix: keep the frames of an episode in order with
 randomize=True

---
 src/synthpix/scheduler/episodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index 3be54c4..f5f4b8d 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -288,6 +288,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
             f"{len(interleaved)} files"
         )
 
-        # Inject new order and reset cursors without reshuffling internally
-        self.scheduler.file_list = interleaved
+        # Reset cursors, then inject the new order: a randomized scheduler
+        # shuffles its file list when reset
         self.scheduler.reset()
+        self.scheduler.file_list = interleaved
-- 
2.43.0


From 3f543f6b3dde7b09de497ff58e53b2b3b018e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 08/30] fix: enumerate episode directories in a fixed order

The order of a set of strings changes with the hash seed, so a seed gave
different episodes in different processes.
---
 src/synthpix/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..0e9ff55 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -463,7 +463,7 @@ def discover_leaf_dirs(
     dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
     leaves: list[str] = []
 
-    for d in dir_paths:
+    for d in sorted(dir_paths):
         try:
             with os.scandir(d) as it:
                 # Early-exit on the first subdirectory
-- 
2.43.0


From 31b7343770a18ecd76f9d4392d6863844f90e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 09/30] fix: keep an exhausted sampler exhausted

After StopIteration, next() went on generating images from the last flows.
---
 src/synthpix/sampler/synthetic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..1af11de 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -466,10 +466,11 @@ class SyntheticImageSampler(Sampler):
             self._current_flows is None
             or self._batches_generated >= self.batches_per_flow_batch
         ):
+            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
+
             # Reset the batch counter
             self._batches_generated = 0
 
-            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             self._current_flows = scheduler_batch.flow_fields
             self._mask_scheduler = (
                 scheduler_batch.mask
-- 
2.43.0


From 13c66bf5232f8a9fe1524b96ebc483bc43d6833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 10/30] fix: stop when looping over files none of which can be
 read

With loop=True the scheduler retried the unreadable files forever.
---
 src/synthpix/scheduler/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index dd1d827..bcee876 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -162,7 +162,10 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
         Raises:
             StopIteration: If no more data and loop is False.
         """
-        while self.index < len(self.file_list) or self.loop:
+        misses = 0  # Consecutive files that did not provide any slice
+        while self.index < len(self.file_list) or (
+            self.loop and misses <= len(self.file_list)
+        ):
             # Handle loop around
             if self.index >= len(self.file_list):
                 self.reset()
@@ -181,6 +184,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 except Exception as e:
                     logger.error(f"Error loading file {path}: {e}")
                     self.index += 1
+                    misses += 1
                     continue  # Skip to the next file
 
             try:
@@ -193,6 +197,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self._cached_file = None
                 self._cached_data = None
                 self.index += 1
+                misses += 1
                 continue  # Skip to the next file
 
         raise StopIteration
@@ -222,10 +227,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             except StopIteration:
                 break
         if len(batch) == 0:
-            if not self.loop:
-                raise StopIteration
-            self.reset()
-        if len(batch) < batch_size and not self.loop:
+            raise StopIteration
+        if len(batch) < batch_size:
             mask = np.zeros((batch_size,), dtype=bool)
             mask[: len(batch)] = True
 
-- 
2.43.0


From e68488d7f3b387421b5875aef36a609d3d8f28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 11/30] fix: wrap the scheduler for flow_fields_per_batch flows

The synthetic sampler asks for flow_fields_per_batch flows, but the episodic
and prefetching wrappers were built for batch_size and refused any other size.
---
 src/synthpix/make.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..415c4b2 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -180,6 +180,11 @@ def make(
             "output_shape": tuple(dataset_config.get("image_shape", (256, 256))),
         }
 
+    # The synthetic sampler draws flow_fields_per_batch flows for each batch
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
+
     # Initialize the base scheduler
     scheduler = scheduler_class.from_config(kwargs)
 
@@ -188,7 +193,7 @@ def make(
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +202,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From 3e58a253fbe17e661a24abfd560c4c94eb409d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 12/30] fix: accept a single path as file_list, as the
 tutorials do

---
 src/synthpix/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index 415c4b2..1153f9c 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -161,8 +161,12 @@ def make(
 
     key, sched_key = jax.random.split(key)
 
+    file_list = dataset_config.get("file_list", [])
+    if isinstance(file_list, str):
+        file_list = [file_list]
+
     kwargs = {
-        "file_list": dataset_config.get("file_list", []),
+        "file_list": file_list,
         "randomize": dataset_config.get("randomize", False),
         "loop": dataset_config.get("loop", True),
         "key": sched_key,
-- 
2.43.0


From 9c38dfc3286109aa5d5a8cee24599f6b051d856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 13/30] fix: displace the particles by the flow that is
 returned

The flow is resampled on a whole number of grid steps, while the displacement
used the untruncated resolution: with coarse flows the particles moved
several percent more than the returned flow says.
---
 src/synthpix/sampler/synthetic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 1af11de..10b43ce 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -359,6 +359,15 @@ class SyntheticImageSampler(Sampler):
             img_offset=self.img_offset,
         )
 
+        # Resolution of the grid on which the flow field adapter samples the flow
+        # in the position bounds, which has a whole number of steps
+        grid_res_y, grid_res_x = (
+            max(1, int(bound / resolution * res)) * resolution / bound
+            for bound, res in zip(
+                self.position_bounds, (self.flow_field_res_y, self.flow_field_res_x)
+            )
+        )
+
         if DEBUG_JIT:  # pragma: no cover
             _current_flows = jnp.asarray(
                 self.scheduler.get_batch(self.flow_fields_per_batch).flow_fields
@@ -395,8 +404,8 @@ class SyntheticImageSampler(Sampler):
             flow_field=flow,
             parameters=generation_specification,
             position_bounds=self.position_bounds,
-            flow_field_res_x=self.flow_field_res_x,
-            flow_field_res_y=self.flow_field_res_y,
+            flow_field_res_x=grid_res_x,
+            flow_field_res_y=grid_res_y,
             mask=self.mask_images,
             histogram=self.histogram,
         )
-- 
2.43.0


From d548aaa477e6ffaf42a6722efd7e68c56db8a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 14/30] fix: stop the prefetching thread on shutdown

The end-of-stream signal refilled the slot just freed for the blocked
producer, which then never ended, and shutdown() waited in vain for it.
---
 src/synthpix/scheduler/prefetch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..8fc77c8 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -236,16 +236,17 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         except queue.Empty:
             pass
 
-        # If consumer is stuck on get(), inject the end-of-stream signal
+        # Wait for the thread to finish
+        if self._thread.is_alive():
+            self._thread.join(timeout=join_timeout)
+
+        # If consumer is stuck on get(), inject the end-of-stream signal. Not
+        # earlier, or it could take the slot that the producer is waiting for
         try:
             self._queue.put(None, block=False)
         except queue.Full:
             pass
 
-        # Wait for the thread to finish
-        if self._thread.is_alive():
-            self._thread.join(timeout=join_timeout)
-
     def __del__(self) -> None:
         """Gracefully shuts down the scheduler upon deletion."""
         self.shutdown()
-- 
2.43.0


From 8ec3a6511eb05c52c52b3e753692006a4d132ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 15/30] fix: deliver every prefetched batch to a slow consumer

When the queue stayed full for 2 s at the end of the stream, the oldest
prefetched batch was dropped to make room for the end-of-stream signal.
---
 src/synthpix/scheduler/prefetch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 8fc77c8..27f8609 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -161,15 +161,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
+                    # If the queue is full for <eos_timeout>, I put the
+                    # end‑of‑stream signal beyond its capacity: the batches
+                    # that are still queued must reach the consumer.
 
                     # Acquire the mutex to ensure atomicity
                     with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
                         # Write the EOS sentinel atomically
                         self._queue.queue.append(None)
 
-- 
2.43.0


From ca2e652591a635d587503af7f2034f187608451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 16/30] fix: keep the other values when updating a
 configuration file

The values were written with str(): None, strings that need quotes, infinities
and a file_list given as a string did not come back when the file was read.
---
 src/synthpix/sanity.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 244d50d..c695e54 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -8,6 +8,7 @@ import sys
 import h5py
 import jax.numpy as jnp
 import numpy as np
+import yaml
 from goggles import get_logger
 from tqdm import tqdm
 
@@ -50,16 +51,12 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
     for key, value in updated_values.items():
         config_data[key] = convert_to_standard_type(value)
 
-    # Handle file_list separately
-    file_list = config_data.pop("file_list", [])
+    # Keep file_list at the end
+    if "file_list" in config_data:
+        config_data.move_to_end("file_list")
 
     with open(config_path, "w") as file:
-        for key, value in config_data.items():
-            file.write(f"{key}: {value}\n")
-        if file_list and isinstance(file_list, list):
-            file.write("file_list:\n")
-            for item in file_list:
-                file.write(f"  - {str(item)}\n")
+        yaml.safe_dump(dict(config_data), file, sort_keys=False)
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From 0338f2e28cb0d09513cc59bc227447aae97dfe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 17/30] fix: start at the first step after next_episode() with
 a slow loader

Batches of the old episode that were not loaded within join_timeout were
served as the beginning of the next one, and every later episode was misaligned.
---
 src/synthpix/scheduler/prefetch.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 27f8609..1c5a33d 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -61,6 +61,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
         self._started = False
         self._t = 0
+        self._to_discard = 0  # Batches of a flushed episode yet to be discarded
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
             raise ValueError("startup_timeout must be a positive number.")
@@ -103,10 +104,16 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     "Use next_episode() to continue."
                 )
         try:
-            if self.startup:
-                batch = self._queue.get(block=True, timeout=self.startup_timeout)
-            else:
-                batch = self._queue.get(block=True, timeout=self.steady_state_timeout)
+            while True:
+                if self.startup:
+                    batch = self._queue.get(block=True, timeout=self.startup_timeout)
+                else:
+                    batch = self._queue.get(
+                        block=True, timeout=self.steady_state_timeout
+                    )
+                if batch is None or self._to_discard == 0:
+                    break
+                self._to_discard -= 1
 
             if self.startup:
                 self.startup = False
@@ -207,6 +214,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         # Reinitialize the scheduler and start the thread
         self.scheduler.reset()
         self._t = 0
+        self._to_discard = 0
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
@@ -284,10 +292,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             return
 
         if self._started and self.steps_remaining() > 0:
-            to_discard = self.steps_remaining()
-            discarded = 0
+            self._to_discard += self.steps_remaining()
             deadline = time.time() + join_timeout
-            while discarded < to_discard:
+            # What does not arrive in time is discarded by get_batch()
+            while self._to_discard > 0:
                 remaining_time = deadline - time.time()
                 if remaining_time <= 0:
                     break
@@ -296,8 +304,9 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 except queue.Empty:
                     continue
                 if item is None:  # End-of-stream signal
+                    self._to_discard = 0
                     break
-                discarded += 1
+                self._to_discard -= 1
         else:
             self._start_worker()
 
-- 
2.43.0


From d4ed66a4bd35f411f756d262be95333627815321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 18/30] fix: keep images at their size when position bounds are
 rounded down

---
 src/synthpix/sampler/synthetic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 10b43ce..d6a25f0 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -347,10 +347,11 @@ class SyntheticImageSampler(Sampler):
             int((img_offset[1] - position_bounds_offset[1]) * resolution),
         )
 
-        # Calculate the position bounds in pixels
+        # Calculate the position bounds in pixels, which contain the whole image
+        # even if the conversion from length measure units is rounded down
         self.position_bounds = (
-            int(position_bounds[0] * resolution),
-            int(position_bounds[1] * resolution),
+            max(int(position_bounds[0] * resolution), self.img_offset[0] + image_shape[0]),
+            max(int(position_bounds[1] * resolution), self.img_offset[1] + image_shape[1]),
         )
 
         # Update generation specification with adjusted parameters
-- 
2.43.0


From a7d6f5792121bab13cc496ab49bd6c3d1d04bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 19/30] fix: render only the part of a particle that is inside
 of the image

---
 src/synthpix/generate.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/generate.py b/src/synthpix/generate.py
index 6f5566a..fc37008 100644
--- a/src/synthpix/generate.py
+++ b/src/synthpix/generate.py
@@ -97,7 +97,7 @@ def img_gen_from_data(
 
     Notes:
         - Particle positions are rounded to the nearest integer pixel locations.
-        - Out-of-bounds particles are clipped to ensure valid rendering.
+        - Only the part of a particle inside of the image is rendered.
 
     Args:
         particle_positions: Array of particle positions (y, x) in pixels.
@@ -129,9 +129,9 @@ def img_gen_from_data(
     def single_particle_scatter(pos, diameter_x, diameter_y, rho, amp):
         y0, x0 = pos[0], pos[1]
 
-        # Clip to image bounds
-        y0 = jnp.clip(y0, patch_radius, H - patch_radius - 1e-6)
-        x0 = jnp.clip(x0, patch_radius, W - patch_radius - 1e-6)
+        # Clip to the positions from which the patch does not reach the image
+        y0 = jnp.clip(y0, -patch_size, H + patch_size)
+        x0 = jnp.clip(x0, -patch_size, W + patch_size)
 
         # Compute top-left corner of the patch
         top_left = (
@@ -167,9 +167,11 @@ def img_gen_from_data(
     all_coords = coords_updates[0].reshape(-1, 2)
     all_updates = coords_updates[1].reshape(-1)
 
-    # Scatter into final image
+    # Scatter into final image, dropping the pixels outside of it
+    # (negative indices would count from the end)
+    all_coords = jnp.where(all_coords < 0, max(H, W), all_coords)
     image = jnp.zeros((H, W))
-    image = image.at[tuple(all_coords.T)].add(all_updates)
+    image = image.at[tuple(all_coords.T)].add(all_updates, mode="drop")
 
     # Clip to image bounds
     if clip:
-- 
2.43.0


From 5894dbac33da04511d1ecf9bea708c9afae018b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 20/30] fix: restore the axes of arrays that MATLAB wrote to
 v7.3 files

---
 src/synthpix/scheduler/mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 1de3bf8..b2cb4b5 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -106,6 +106,9 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
                 path = f"{prefix}/{name}" if prefix else name
                 if isinstance(item, h5py.Dataset):
                     out[path] = item[()]
+                    # MATLAB stores its (column-major) arrays with the axes reversed
+                    if "MATLAB_class" in item.attrs:
+                        out[path] = np.transpose(out[path])
                 elif isinstance(item, h5py.Group):
                     out.update(recursively_load_hdf5_group(item, path))
             return out
-- 
2.43.0


From 4568ea969f753a983c2bfdeb8e305a752d1c17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 21/30] fix: skip files whose slices or images cannot be read

---
 src/synthpix/scheduler/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index bcee876..798eb99 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -199,6 +199,13 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self.index += 1
                 misses += 1
                 continue  # Skip to the next file
+            except Exception as e:
+                logger.error(f"Error reading from file {path}: {e}")
+                self._cached_file = None
+                self._cached_data = None
+                self.index += 1
+                misses += 1
+                continue  # Skip to the next file
 
         raise StopIteration
 
-- 
2.43.0


From 56594dc81337fd1f4fef2f6cd1f0b452bfd34bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 22/30] fix: stop the prefetching thread when it waits for
 space after shutdown

---
 src/synthpix/scheduler/prefetch.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 1c5a33d..f49a703 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -184,10 +184,14 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 self._stop_event.set()
                 return
 
-            # This will block until there is free space in the queue:
-            # no busy‑waiting needed.
-            # Exception cannot be raised here, would be dead code.
-            self._queue.put(batch, block=True)
+            # This will block until there is free space in the queue, or until
+            # the thread is stopped: nobody may be left to make space then.
+            while not self._stop_event.is_set():
+                try:
+                    self._queue.put(batch, block=True, timeout=0.1)
+                    break
+                except queue.Full:
+                    continue
 
     def reset(self) -> None:
         """Resets the prefetching scheduler and underlying scheduler."""
-- 
2.43.0


From 073051fb6e0322eeac928574ef1e8d661f6cd817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 23/30] fix: write the updated configuration with the YAML
 library it is read with

---
 src/synthpix/sanity.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index c695e54..b922cda 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -8,8 +8,8 @@ import sys
 import h5py
 import jax.numpy as jnp
 import numpy as np
-import yaml
 from goggles import get_logger
+from ruamel.yaml import YAML
 from tqdm import tqdm
 
 from .sampler import SyntheticImageSampler
@@ -55,8 +55,11 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
     if "file_list" in config_data:
         config_data.move_to_end("file_list")
 
-    with open(config_path, "w") as file:
-        yaml.safe_dump(dict(config_data), file, sort_keys=False)
+    writer = YAML(typ="safe", pure=True)
+    writer.default_flow_style = False
+    writer.sort_base_mapping_type_on_output = False
+    with open(config_path, "w", encoding="utf-8") as file:
+        writer.dump(dict(config_data), file)
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From 35bba33a66f35680788fe4ab6ce924b1f57831d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 24/30] fix: check the configuration that the user completed,
 not the incomplete one

---
 src/synthpix/sanity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index b922cda..9cb8527 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -223,11 +223,12 @@ def main() -> None:  # pragma: no cover
         print(f"Configuration file does not exist: {config_path}")
         sys.exit(1)
 
-    config = load_configuration(config_path)
-
     # 1. Check min/max speeds and offer to fix
     missing_speeds_panel(config_path)
 
+    # The panel may have completed the configuration
+    config = load_configuration(config_path)
+
     # 2. Try to instantiate the scheduler with the config
     scheduler = None
     try:
-- 
2.43.0


From e979b1889ebfb569203f46b43499d5f49aa6828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 25/30] fix: find the samples of a dataset directory whose name
 has glob characters

---
 scripts/download_piv_1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/download_piv_1.py b/scripts/download_piv_1.py
index 389a658..6a22c5d 100644
--- a/scripts/download_piv_1.py
+++ b/scripts/download_piv_1.py
@@ -250,7 +250,9 @@ def convert(dataset_dir: str, out_dir: str, target_shape: tuple) -> None:
     os.makedirs(out_dir, exist_ok=True)
     # Recursively find all *_flow.* files
     for flow_path in sorted(
-        glob.glob(os.path.join(dataset_dir, "**", "*_flow.*"), recursive=True)
+        glob.glob(
+            os.path.join(glob.escape(dataset_dir), "**", "*_flow.*"), recursive=True
+        )
     ):
         rel_dir = os.path.relpath(os.path.dirname(flow_path), dataset_dir)
         prefix = flow_path.rsplit("_flow", 1)[0]
-- 
2.43.0


From a1d08f63b44708fedb4748e36734cfede93ab05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 26/30] fix: skip HDF5 files whose dataset is not a stack of
 flows

---
 src/synthpix/scheduler/hdf5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index b6d8c07..5cb94ad 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -56,6 +56,11 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
                 raise ValueError(
                     f"Expected Dataset but got {type(dset)} for key '{dataset_key}' in {file_path}"
                 )
+            if dset.ndim != 4 or dset.shape[3] < 2:
+                raise ValueError(
+                    f"Expected a dataset of shape (X, Y, Z, C) with at least two "
+                    f"components but got {dset.shape} in {file_path}"
+                )
             data = dset[...]
             logger.debug(f"Loading file {file_path} with shape {data.shape}")
         return SchedulerData(flow_fields=data, files=(file_path,))
-- 
2.43.0


From 2f13f02f8f472a29104c328edf873be85425190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 27/30] fix: skip numpy files whose array is not a flow

---
 src/synthpix/scheduler/numpy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index e833424..9d07b31 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -85,7 +85,13 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
         Returns:
             Loaded SchedulerData.
         """
-        return SchedulerData(flow_fields=np.load(file_path), files=(file_path,))
+        flow = np.load(file_path)
+        if flow.ndim != 3 or flow.shape[2] < 2:
+            raise ValueError(
+                f"Expected an array of shape (H, W, C) with at least two components "
+                f"but got {flow.shape} in {file_path}"
+            )
+        return SchedulerData(flow_fields=flow, files=(file_path,))
 
     def get_next_slice(self) -> SchedulerData:
         """Return either the flow array or, if enabled, flow plus images.
-- 
2.43.0


From e5c06d5bac8446545b95d505f84a74892120a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 28/30] fix: do not take subdirectories named like data files
 for files

---
 src/synthpix/scheduler/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 798eb99..77bab62 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -74,7 +74,11 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if os.path.isdir(file_path):
                 logger.debug(f"Searching for files in {file_path}")
                 pattern = os.path.join(glob.escape(file_path), self._file_pattern)
-                found_files = sorted(glob.glob(pattern, recursive=True))
+                found_files = sorted(
+                    path
+                    for path in glob.glob(pattern, recursive=True)
+                    if not os.path.isdir(path)
+                )
                 logger.debug(f"Found {len(found_files)} files in {file_path}")
                 self._file_list.extend(found_files)
             else:
-- 
2.43.0


From ab5731d8b732c203e3f5dbc44753f486324175a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 29/30] fix: make() failed without a seed, which it documents
 as optional (default 0)

---
 src/synthpix/sampler/synthetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index d6a25f0..15d5e0d 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -599,7 +599,7 @@ class SyntheticImageSampler(Sampler):
                 flow_field_size=tuple(config["flow_field_size"]),
                 resolution=config["resolution"],
                 velocities_per_pixel=config["velocities_per_pixel"],
-                seed=config["seed"],
+                seed=config.get("seed", 0),
                 max_speed_x=config["max_speed_x"],
                 max_speed_y=config["max_speed_y"],
                 min_speed_x=config["min_speed_x"],
-- 
2.43.0


From 2ba5d97d60dc22b1dff726f91dfe256fef23732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 30/30] fix: a full queue at shutdown left the consumer waiting
 for its time-out

---
 src/synthpix/scheduler/prefetch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index f49a703..bd8e03d 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -254,7 +254,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         try:
             self._queue.put(None, block=False)
         except queue.Full:
-            pass
+            # What is queued comes first, but the end has to follow it
+            with self._queue.mutex:
+                self._queue.queue.append(None)
+                self._queue.not_empty.notify_all()
 
     def __del__(self) -> None:
         """Gracefully shuts down the scheduler upon deletion."""
-- 
2.43.0

