From f27c6559bad39ac262ca70e1b2fb61512fda75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 01/25] fix: serve a file again when it is listed twice in a
 row

---
 src/synthpix/scheduler/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..c37602b 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -188,6 +188,10 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self._slice_idx += 1
                 return sample
             except FileEndedError as e:
+                # The same path may be listed again right after this entry:
+                # drop the exhausted cache so that it is served again.
+                self._cached_file = None
+                self._cached_data = None
                 self.index += 1
                 continue  # Skip to the next file
 
-- 
2.43.0


From 7605b94ed3d3bd10fc3faac9e1e861df8597c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 02/25] fix: keep episodes in temporal order when the base
 scheduler randomizes

---
 src/synthpix/scheduler/episodic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..257f12a 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -286,5 +286,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
         )
 
         # Inject new order and reset cursors without reshuffling internally
-        self.scheduler.file_list = interleaved
+        # (reset() may shuffle the list the scheduler currently holds, so the
+        # episode order has to be injected after it)
         self.scheduler.reset()
+        self.scheduler.file_list = interleaved
-- 
2.43.0


From bea4e1d69954601407db5883f79e221a8710b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 03/25] fix: honour the configured key when shuffling the file
 list

---
 src/synthpix/scheduler/hdf5.py  | 1 +
 src/synthpix/scheduler/mat.py   | 1 +
 src/synthpix/scheduler/numpy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..aa83070 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -116,4 +116,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..316b62c 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -226,4 +226,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
             output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key"),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..e833424 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -140,4 +140,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
             include_images=config.get("include_images", False),
+            key=config.get("key"),
         )
-- 
2.43.0


From 3e1bc6ea88831992cb4d75c56d6bcb38551d9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 04/25] fix: return leaf directories in a reproducible order

---
 src/synthpix/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..0e9ff55 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -463,7 +463,7 @@ def discover_leaf_dirs(
     dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
     leaves: list[str] = []
 
-    for d in dir_paths:
+    for d in sorted(dir_paths):
         try:
             with os.scandir(d) as it:
                 # Early-exit on the first subdirectory
-- 
2.43.0


From 8f283bde26b723139290316369c4e496e4f21e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 05/25] fix: resize .mat images to (height, width) for
 non-square output shapes

---
 src/synthpix/scheduler/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 316b62c..1ad6be5 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -147,7 +147,8 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
                     data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
+                        # PIL resize expects (width, height)
+                        Image.fromarray(img).resize(self.output_shape[::-1])
                     )
 
         flow = data["V"]
-- 
2.43.0


From c1bfa22cbe532bbb29ee89d1e33309ab9f18bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 06/25] fix: accept directories of .h5 files in
 HDF5FlowFieldScheduler

---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index aa83070..b6d8c07 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From 76a15fef13b47dc2d8f6f2492b1f68b0b08fa17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 07/25] fix: pad incomplete batches of colour images

---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index c37602b..25211c5 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -272,14 +272,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From 197434190532e53a086b80d629e3bbfc87d34435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 08/25] fix: let the prefetching thread stop while the queue is
 full

---
 src/synthpix/scheduler/prefetch.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..3708ca9 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -180,10 +180,14 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 self._stop_event.set()
                 return
 
-            # This will block until there is free space in the queue:
-            # no busy‑waiting needed.
-            # Exception cannot be raised here, would be dead code.
-            self._queue.put(batch, block=True)
+            # Wait for free space in the queue, but keep an eye on the stop
+            # event so that a full queue never keeps the thread alive.
+            while not self._stop_event.is_set():
+                try:
+                    self._queue.put(batch, block=True, timeout=0.1)
+                    break
+                except queue.Full:
+                    continue
 
     def reset(self) -> None:
         """Resets the prefetching scheduler and underlying scheduler."""
-- 
2.43.0


From 7e720e9202e528b09281a2552ffecd42a33b804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 09/25] fix: size scheduler wrappers by the flow fields the
 sampler requests

---
 src/synthpix/make.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..91d14aa 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -183,12 +183,19 @@ def make(
     # Initialize the base scheduler
     scheduler = scheduler_class.from_config(kwargs)
 
+    # Number of flow fields the sampler requests from the scheduler at once:
+    # real images come with one flow field each, while synthetic images
+    # can share the flow fields
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
+
     # If episode_length is specified, use EpisodicFlowFieldScheduler
     if episode_length > 0:
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +204,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From 429bd62ef996af3caf7fd275f2022c22d1101a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 10/25] fix: use one batch per flow batch for prefetched
 episodes as well

---
 src/synthpix/sampler/synthetic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..18df136 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -15,6 +15,7 @@ from synthpix.data_generate import (
     generate_images_from_flow,
 )
 from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
+from synthpix.scheduler.prefetch import PrefetchingFlowFieldScheduler
 from synthpix.types import ImageGenerationSpecification, SynthpixBatch
 from synthpix.utils import (
     DEBUG_JIT,
@@ -160,8 +161,12 @@ class SyntheticImageSampler(Sampler):
         if not isinstance(batches_per_flow_batch, int) or batches_per_flow_batch <= 0:
             raise ValueError("batches_per_flow_batch must be a positive integer.")
         self.batches_per_flow_batch = batches_per_flow_batch
+        # The episodic scheduler may be wrapped by the prefetching one
+        inner_scheduler = self.scheduler
+        if isinstance(inner_scheduler, PrefetchingFlowFieldScheduler):
+            inner_scheduler = inner_scheduler.scheduler
         if (
-            isinstance(self.scheduler, EpisodicFlowFieldScheduler)
+            isinstance(inner_scheduler, EpisodicFlowFieldScheduler)
             and batches_per_flow_batch != 1
         ):
             self.batches_per_flow_batch = 1
-- 
2.43.0


From d88f0bb1c0b6f79f1e05d99e62b7149ee158f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 11/25] fix: provide mask and files for every sample of a
 synthetic batch

---
 src/synthpix/sampler/synthetic.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 18df136..8978835 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -485,6 +485,20 @@ class SyntheticImageSampler(Sampler):
 
             # Shard the flow fields across devices
             self._current_flows = jnp.array(self._current_flows, device=self.sharding)
+            # Each device cycles over its own flow fields to fill its share of
+            # the batch: let the mask and the files follow the samples
+            flows_per_device = self.flow_fields_per_batch // self.ndevices
+            flow_of_sample = [
+                device * flows_per_device + i % flows_per_device
+                for device in range(self.ndevices)
+                for i in range(self.batch_size // self.ndevices)
+            ]
+            if self._mask_scheduler is not None:
+                self._mask_scheduler = np.asarray(self._mask_scheduler)[flow_of_sample]
+            if self._files_scheduler is not None:
+                self._files_scheduler = tuple(
+                    self._files_scheduler[i] for i in flow_of_sample
+                )
             # Creating the output flow field
             self.output_flow_fields, self._current_flows = self.flow_field_adapter_jit(
                 self._current_flows
-- 
2.43.0


From 046b3be241ae19a8b53df9b16ecb85776eb2b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 12/25] fix: do not loop forever over files that provide no
 data

---
 src/synthpix/scheduler/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 25211c5..64c915d 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -162,7 +162,11 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
         Raises:
             StopIteration: If no more data and loop is False.
         """
+        skipped = 0  # files left behind since the last slice
         while self.index < len(self.file_list) or self.loop:
+            if skipped > len(self.file_list):
+                raise RuntimeError("None of the files provides any data.")
+
             # Handle loop around
             if self.index >= len(self.file_list):
                 self.reset()
@@ -181,6 +185,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 except Exception as e:
                     logger.error(f"Error loading file {path}: {e}")
                     self.index += 1
+                    skipped += 1
                     continue  # Skip to the next file
 
             try:
@@ -193,6 +198,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self._cached_file = None
                 self._cached_data = None
                 self.index += 1
+                skipped += 1
                 continue  # Skip to the next file
 
         raise StopIteration
-- 
2.43.0


From 0d07c7f52e51edf61b88eb49f4dac8df6d22d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 13/25] fix: keep null, string and file_list entries when
 updating a configuration

---
 src/synthpix/sanity.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 244d50d..27f8593 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -2,6 +2,7 @@
 
 import argparse
 import collections
+import json
 import os
 import sys
 
@@ -51,15 +52,18 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
         config_data[key] = convert_to_standard_type(value)
 
     # Handle file_list separately
-    file_list = config_data.pop("file_list", [])
+    file_list = []
+    if isinstance(config_data.get("file_list"), list):
+        file_list = config_data.pop("file_list")
 
+    # NOTE: json is valid yaml
     with open(config_path, "w") as file:
         for key, value in config_data.items():
-            file.write(f"{key}: {value}\n")
-        if file_list and isinstance(file_list, list):
+            file.write(f"{key}: {json.dumps(value, default=str)}\n")
+        if file_list:
             file.write("file_list:\n")
             for item in file_list:
-                file.write(f"  - {str(item)}\n")
+                file.write(f"  - {json.dumps(str(item))}\n")
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From 79e03fe30261a8c1afdcff3f9cedb1985f0ce1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 14/25] fix: check the sanity of the configuration as updated
 by the speeds panel

---
 src/synthpix/sanity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 27f8593..daeaa6f 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -227,11 +227,12 @@ def main() -> None:  # pragma: no cover
         print(f"Configuration file does not exist: {config_path}")
         sys.exit(1)
 
-    config = load_configuration(config_path)
-
     # 1. Check min/max speeds and offer to fix
     missing_speeds_panel(config_path)
 
+    # The panel may have updated the configuration file
+    config = load_configuration(config_path)
+
     # 2. Try to instantiate the scheduler with the config
     scheduler = None
     try:
-- 
2.43.0


From 414b3af38482ddb29f1851e9596a8e12ec29b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 15/25] fix: do not overwrite the samples of other TFRecord
 files

---
 scripts/download_piv_2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/download_piv_2.py b/scripts/download_piv_2.py
index 2b83eca..cb1152a 100644
--- a/scripts/download_piv_2.py
+++ b/scripts/download_piv_2.py
@@ -87,7 +87,8 @@ def process_tfrecord(tfrecord_path: str, out_dir: str) -> None:
 
             # Ensure shapes for .mat (H,W for images and H,W,2 for flow)
             # convert.py used I0 shape (256, 256)
-            fname = f"sample_{count:05d}.mat"
+            # NOTE: several TFRecord files may share the same output directory
+            fname = f"{Path(tfrecord_path).name}_sample_{count:05d}.mat"
             out_path = out_dir / fname
 
             with h5py.File(out_path, "w") as f:
-- 
2.43.0


From d97fd4cb7e3238578f51ada6a83ac6babec50b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 16/25] fix: do not take an interrupted download for a complete
 one

---
 scripts/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 4ec80a1..e83fcc2 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -3,6 +3,7 @@
 TODO: add documentation about how to call download_piv_1.py and download_piv_2.py (in the readme)
 """
 
+import os
 from pathlib import Path
 import urllib.request
 
@@ -19,7 +20,10 @@ def download_file(url: str, output_path: Path) -> bool:
     """
     print(f"Downloading {url} to {output_path}...")
     try:
-        urllib.request.urlretrieve(url, output_path)
+        # Do not leave a partial file behind at output_path
+        partial_path = f"{output_path}.part"
+        urllib.request.urlretrieve(url, partial_path)
+        os.replace(partial_path, output_path)
         print("Done.")
         return True
     except Exception as e:
-- 
2.43.0


From 034337b5397a89a9754218ecfea79aa4633115b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 17/25] fix: hand errors of the prefetching thread over to the
 consumer

---
 src/synthpix/scheduler/prefetch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 3708ca9..ff37b0a 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -61,6 +61,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
         self._started = False
         self._t = 0
+        self._error: Exception | None = None
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
             raise ValueError("startup_timeout must be a positive number.")
@@ -113,6 +114,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
             self._t += 1
             if batch is None:
+                if self._error is not None:
+                    raise self._error
                 logger.info("End of stream reached, stopping iteration.")
                 raise StopIteration
             return batch
@@ -149,7 +152,11 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 assert isinstance(self.scheduler, EpisodicSchedulerProtocol)
                 self.scheduler.next_episode()
                 continue
-            except StopIteration:
+            except Exception as e:
+                if not isinstance(e, StopIteration):
+                    # Let the consumer know that the stream did not end by itself
+                    self._error = e
+
                 # Intended behavior here:
                 # I called get_batch() and ran into a StopIteration,
                 # it means there is no more data left.
@@ -214,6 +221,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         # Reinitialize the scheduler and start the thread
         self.scheduler.reset()
         self._t = 0
+        self._error = None
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
-- 
2.43.0


From e97c313e0893e79a822c6017ad4e4fc724639e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 18/25] fix: skip the rest of an episode that could not be
 flushed in time

---
 src/synthpix/scheduler/prefetch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index ff37b0a..f2c9552 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -61,6 +61,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
         self._started = False
         self._t = 0
+        self._stale = 0
         self._error: Exception | None = None
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
@@ -109,6 +110,11 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             else:
                 batch = self._queue.get(block=True, timeout=self.steady_state_timeout)
 
+            # Skip what next_episode() could not flush of the previous episodes
+            while self._stale > 0 and batch is not None:
+                self._stale -= 1
+                batch = self._queue.get(block=True, timeout=self.steady_state_timeout)
+
             if self.startup:
                 self.startup = False
 
@@ -221,6 +227,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         # Reinitialize the scheduler and start the thread
         self.scheduler.reset()
         self._t = 0
+        self._stale = 0
         self._error = None
         self._started = False
         self._stop_event.clear()
@@ -298,7 +305,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             return
 
         if self._started and self.steps_remaining() > 0:
-            to_discard = self.steps_remaining()
+            to_discard = self._stale + self.steps_remaining()
             discarded = 0
             deadline = time.time() + join_timeout
             while discarded < to_discard:
@@ -312,6 +319,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 if item is None:  # End-of-stream signal
                     break
                 discarded += 1
+            self._stale = to_discard - discarded
         else:
             self._start_worker()
 
-- 
2.43.0


From fa0889cf28f465882e2ce126ca143ac32d29596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 19/25] fix: keep the whole image inside the position bounds
 despite rounding

---
 src/synthpix/sampler/synthetic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 8978835..c0b6a58 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -353,9 +353,16 @@ class SyntheticImageSampler(Sampler):
         )
 
         # Calculate the position bounds in pixels
+        # (rounding errors must not leave out the last pixels of the image)
         self.position_bounds = (
-            int(position_bounds[0] * resolution),
-            int(position_bounds[1] * resolution),
+            max(
+                int(position_bounds[0] * resolution),
+                image_shape[0] + self.img_offset[0],
+            ),
+            max(
+                int(position_bounds[1] * resolution),
+                image_shape[1] + self.img_offset[1],
+            ),
         )
 
         # Update generation specification with adjusted parameters
-- 
2.43.0


From 0014e5e01f18c2fe84fbe63a05a73d307477f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 20/25] fix: keep all prefetched batches when the stream ends
 with a full buffer

---
 src/synthpix/scheduler/prefetch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index f2c9552..b21fac4 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -174,15 +174,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
+                    # If the queue is full for <eos_timeout>, I put the
+                    # end‑of‑stream signal on top of the maximum size, so that
+                    # none of the batches that still wait in the queue is lost.
 
                     # Acquire the mutex to ensure atomicity
                     with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
                         # Write the EOS sentinel atomically
                         self._queue.queue.append(None)
 
-- 
2.43.0


From e94437ea583fcd0caad48f4b946354ebde361a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 21/25] fix: report a failure to start the next episode to the
 consumer

---
 src/synthpix/scheduler/prefetch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index b21fac4..ccf7bfd 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -153,11 +153,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         """
         while not self._stop_event.is_set():
             try:
-                batch = self.scheduler.get_batch(self.batch_size)
-            except EpisodeEnd as e:
-                assert isinstance(self.scheduler, EpisodicSchedulerProtocol)
-                self.scheduler.next_episode()
-                continue
+                try:
+                    batch = self.scheduler.get_batch(self.batch_size)
+                except EpisodeEnd as e:
+                    assert isinstance(self.scheduler, EpisodicSchedulerProtocol)
+                    self.scheduler.next_episode()
+                    continue
             except Exception as e:
                 if not isinstance(e, StopIteration):
                     # Let the consumer know that the stream did not end by itself
-- 
2.43.0


From 5630c382af47e467339ceaf8aff82a992073f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 22/25] fix: report the producer's failure even when its end of
 stream signal was consumed

---
 src/synthpix/scheduler/prefetch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index ccf7bfd..bc305ce 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -126,6 +126,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 raise StopIteration
             return batch
         except queue.Empty:
+            if self._error is not None:
+                raise self._error
             logger.info("Unable to get data.")
             raise StopIteration
 
-- 
2.43.0


From 150981b8bb9bf0659a229ed94d61b3106149df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 23/25] fix: do not reuse old flow fields after the scheduler
 ran out of data

---
 src/synthpix/sampler/synthetic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index c0b6a58..86aeff0 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -478,10 +478,11 @@ class SyntheticImageSampler(Sampler):
             self._current_flows is None
             or self._batches_generated >= self.batches_per_flow_batch
         ):
+            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
+
             # Reset the batch counter
             self._batches_generated = 0
 
-            scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             self._current_flows = scheduler_batch.flow_fields
             self._mask_scheduler = (
                 scheduler_batch.mask
-- 
2.43.0


From 70d3cd8320976543c6252fe6c6e82b808dfca411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 24/25] fix: an unfinished download of the class 1 archives
 passed for complete

---
 scripts/download_piv_1.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scripts/download_piv_1.py b/scripts/download_piv_1.py
index 389a658..015c8b9 100644
--- a/scripts/download_piv_1.py
+++ b/scripts/download_piv_1.py
@@ -270,7 +270,7 @@ def convert(dataset_dir: str, out_dir: str, target_shape: tuple) -> None:
             print(f"Failed for {prefix}: {e}")
 
 
-def download_from_gdrive(raw_dir_path: Path) -> None:
+def download_from_gdrive(raw_dir_path: Path) -> bool:
     """Download all files from the two public Google Drive folders.
 
     Downloads the contents into raw_dir_path, then recursively unzip
@@ -278,8 +278,12 @@ def download_from_gdrive(raw_dir_path: Path) -> None:
 
     Args:
         raw_dir_path: Directory to store downloaded raw data.
+
+    Returns:
+        True if every folder was downloaded, False otherwise.
     """
     raw_dir_path.mkdir(parents=True, exist_ok=True)
+    finished = True
 
     print("Press Ctrl+C to interrupt download safely and proceed to processing.")
 
@@ -298,14 +302,17 @@ def download_from_gdrive(raw_dir_path: Path) -> None:
                 )
             except KeyboardInterrupt:
                 print("\n\nInterrupted by user! Stopping download loop.")
+                finished = False
                 break
             except Exception as e:
                 print(f"Error downloading folder {idx}: {e}")
                 # Optional: continue to next folder or break?
                 # Let's break to be safe if it's a major error
+                finished = False
                 break
     except KeyboardInterrupt:
         print("\n\nInterrupted by user!")
+        finished = False
 
     # Now unzip everything we just downloaded
     print("\nExtracting all .zip archives under", raw_dir_path)
@@ -324,6 +331,7 @@ def download_from_gdrive(raw_dir_path: Path) -> None:
         # zip_path.unlink()
 
     print("\nDownload + extraction from Google Drive complete.")
+    return finished
 
 
 def load_split_file(path: Path) -> set[str]:
@@ -446,8 +454,12 @@ def main(out_dir: str, target_shape: str) -> None:
     packed_dir.mkdir(parents=True, exist_ok=True)
 
     # 1. Download + extract from Google Drive
-    if not any(raw_dir_path.iterdir()):
-        download_from_gdrive(raw_dir_path)
+    # (an unfinished download must not pass for complete in the next run)
+    unfinished = out_dir_path / "raw_class1.unfinished"
+    if unfinished.exists() or not any(raw_dir_path.iterdir()):
+        unfinished.touch()
+        if download_from_gdrive(raw_dir_path):
+            unfinished.unlink()
     else:
         print(f"{raw_dir_path} not empty — skipping download/extraction.")
 
-- 
2.43.0


From ade980047d0cbd3bc5870755e99519d703651868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:08 +0000
Subject: [PATCH 25/25] fix: a request that fails serves no step of the episode

---
 src/synthpix/scheduler/episodic.py | 3 +--
 src/synthpix/scheduler/prefetch.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index 257f12a..af45ddb 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -160,9 +160,8 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
             # wait for the next episode
             raise EpisodeEnd
 
-        self._t += 1
-
         batch = self.scheduler.get_batch(batch_size)
+        self._t += 1
 
         logger.debug(f"timestep: {self._t}")
         return batch
diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index bc305ce..7b7135f 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -118,12 +118,12 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             if self.startup:
                 self.startup = False
 
-            self._t += 1
             if batch is None:
                 if self._error is not None:
                     raise self._error
                 logger.info("End of stream reached, stopping iteration.")
                 raise StopIteration
+            self._t += 1
             return batch
         except queue.Empty:
             if self._error is not None:
-- 
2.43.0

