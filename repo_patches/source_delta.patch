From 6225e145630dc7ab29389e4931f9cfb50596c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 01/29] fix: classification pair masks leaked between score
 thresholds

The score mask was narrowed in place, so every threshold after the first also
applied all earlier (possibly higher) thresholds.
---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..224333a 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -287,9 +287,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From 8c403c5eec251ec3a9a9ff3c7234a6b2253e5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 02/29] fix: ROCAUC depended on how the curve was chunked

The previous point was dropped whenever it was the origin, so the first segment
of a curve was lost when the chunk held a single point.
---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 224333a..1332f39 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,7 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        if fps[0] > prev[label_idx, 0]:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 72f7402aac23f88bbe2b22a2c4a402b59bb024c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 03/29] fix: in-memory write_table overtook buffered rows

Flush the buffer first, as the file-based writer does, so rows keep write order.
---
 src/valor_lite/cache/ephemeral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..bb1ac3e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -254,6 +254,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From 0709e3722f1e69333a89ef8583960d37b6a86b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 04/29] fix: object detection finalize could run twice

A second call appended every ranked pair again and corrupted the metrics; refuse
it like the classification builder does.
---
 src/valor_lite/object_detection/evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..c6e728c 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -56,6 +56,7 @@ class Builder:
         self._detailed_writer = detailed_writer
         self._ranked_writer = ranked_writer
         self._metadata_fields = metadata_fields
+        self._finalized = False
 
     @classmethod
     def in_memory(
@@ -183,6 +184,9 @@ class Builder:
         self._detailed_writer.flush()
         if self._detailed_writer.count_rows() == 0:
             raise EmptyCacheError()
+        elif self._finalized:
+            raise RuntimeError("data already finalized")
+        self._finalized = True
 
         self._detailed_writer.sort_by(
             [
-- 
2.43.0


From d8f016827e30183827241abd072d79d344449699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 05/29] fix: overlapping segmentation masks were counted more
 than once

A mask that overlapped an earlier one was never accumulated, so a third mask
could claim the same pixels again.
---
 src/valor_lite/semantic_segmentation/annotation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..b5cce6f 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,6 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
+                mask_accumulation = mask_accumulation | bitmask.mask
             else:
                 mask_accumulation = mask_accumulation | bitmask.mask
         if (
-- 
2.43.0


From 0d206cc9f6f397e252f1deec368877597d66d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 06/29] fix: repeated labels in one segmentation overwrote each
 other's pixels

Accumulate the counts of masks that share a label instead of keeping only the
last one, so every pixel is counted exactly once.
---
 .../semantic_segmentation/computation.py      | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..18b302f 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,22 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts.astype(np.uint64),
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix[0],
+        prediction_labels + 1,
+        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
+    )
+    np.add.at(
+        confusion_matrix[:, 0],
+        groundtruth_labels + 1,
+        (groundtruth_counts - intersected_groundtruth_counts).astype(
+            np.uint64
+        ),
     )
     return confusion_matrix
 
-- 
2.43.0


From 877ae622aa179f6554176b3b912750123324af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 07/29] fix: some malformed LLM responses escaped the retry
 logic

Unhashable verdicts, JSON nested too deeply and numbers with too many digits
raised TypeError, RecursionError and ValueError instead of
InvalidLLMResponseError.
---
 src/valor_lite/text_generation/llm/utilities.py  | 10 +++++++---
 src/valor_lite/text_generation/llm/validators.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/utilities.py b/src/valor_lite/text_generation/llm/utilities.py
index 1ffd809..6063382 100644
--- a/src/valor_lite/text_generation/llm/utilities.py
+++ b/src/valor_lite/text_generation/llm/utilities.py
@@ -30,9 +30,9 @@ def trim_and_load_json(text: str) -> dict[str, Any]:
 
     try:
         return json.loads(extracted_text)
-    except json.JSONDecodeError as e:
+    except (ValueError, RecursionError) as e:
         raise InvalidLLMResponseError(
-            f"Evaluation LLM responded with invalid JSON. JSONDecodeError: {str(e)}"
+            f"Evaluation LLM responded with invalid JSON. {type(e).__name__}: {str(e)}"
         )
 
 
@@ -40,4 +40,8 @@ def find_first_signed_integer(text: str) -> int | None:
     match = re.search(r"-?\d+", text)
     if not match:
         return None
-    return int(match.group())
+    try:
+        return int(match.group())
+    except ValueError:
+        # exceeds the interpreter's limit for integer string conversion
+        return None
diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..dc072ae 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -61,7 +61,7 @@ def validate_verdicts(
             )
         elif (
             allowed_values is not None
-            and value["verdict"] not in allowed_values
+            and value["verdict"] not in list(allowed_values)
         ):
             raise InvalidLLMResponseError(
                 f"LLM response contains verdicts from outside the allowed set {allowed_values}: {response}"
-- 
2.43.0


From 9c2924bfc078dd754a37c471eb39567c04d10db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 08/29] fix: context recall divided by zero without statements

A ground truth from which no statements are extracted scores 0.0, as missing
ground truth context does.
---
 src/valor_lite/text_generation/computation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..9c09b3b 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -304,6 +304,11 @@ def calculate_context_recall(
             system_prompt=system_prompt,
             text=groundtruth,
         )
+        # Without statements there is nothing that the context could recall.
+        if len(groundtruth_statements) == 0:
+            scores.append(0.0)
+            continue
+
         verdicts = generate_context_recall_verdicts(
             client=client,
             system_prompt=system_prompt,
-- 
2.43.0


From ef79e2cc2f7080a6a006b9395b1ea9eaa537fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 09/29] fix: merge sort lost rows behind an empty batch

An empty leading batch ended its fragment, so sorting several files into memory
produced an empty cache; the single in-memory fragment was not sorted either.
---
 src/valor_lite/cache/compute.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..8bf67f2 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -26,6 +26,9 @@ def _merge(
         else:
             sorted_tbl = tbl.sort_by(sorting)
         intermediate_sink.write_table(sorted_tbl)
+    if isinstance(intermediate_sink, MemoryCacheWriter):
+        # in-memory caches hold a single fragment
+        intermediate_sink.sort_by(sorting)
     intermediate_source = intermediate_sink.to_reader()
 
     # define merge key
@@ -46,6 +49,10 @@ def _merge(
             row_idx,
         )
 
+    # empty batches do not mark the end of a fragment
+    def next_batch(batch_iter) -> pa.RecordBatch | None:
+        return next((b for b in batch_iter if len(b) > 0), None)
+
     # merge sorted rows
     heap = []
     batch_iterators = []
@@ -56,7 +63,7 @@ def _merge(
         )
     ):
         batch_iterators.append(batch_iter)
-        batches.append(next(batch_iterators[batch_idx], None))
+        batches.append(next_batch(batch_iterators[batch_idx]))
         if batches[batch_idx] is not None and len(batches[batch_idx]) > 0:
             heap.append(create_sort_key(batches, batch_idx, 0))
     heapq.heapify(heap)
@@ -74,7 +81,7 @@ def _merge(
                 create_sort_key(batches, batch_idx, row_idx),
             )
         else:
-            batches[batch_idx] = next(batch_iterators[batch_idx], None)
+            batches[batch_idx] = next_batch(batch_iterators[batch_idx])
             if batches[batch_idx] is not None and len(batches[batch_idx]) > 0:
                 heapq.heappush(
                     heap,
-- 
2.43.0


From 5927735d9055bda890b551762cd702d064905374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 10/29] fix: filtered accuracy was divided by the unfiltered
 datum count

---
 src/valor_lite/classification/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..5bd410b 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,7 +593,7 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
+        n_datums = self.get_info(datums=datums).number_of_datums
         n_labels = self.info.number_of_labels
 
         # intermediates
-- 
2.43.0


From e1d66ac1fd979952da77b52582090a8bc9ee47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 11/29] fix: cache paths were interpreted as glob patterns

With brackets in the path every file overwrote 000000.parquet, and wildcards
could match the files of another cache.
---
 src/valor_lite/cache/persistent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..ef25af7 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -107,7 +107,10 @@ class FileCache:
         if not self._path.exists():
             return []
         return [
-            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
+            Path(filepath)
+            for filepath in glob.glob(
+                f"{glob.escape(str(self._path))}/*.parquet"
+            )
         ]
 
 
-- 
2.43.0


From 5bb43ee22eb42e8580e40c479ae0b7a8a0673d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 12/29] fix: an interrupted cache creation or deletion could
 not be deleted

Once the configuration file was gone, or only partially written, delete() failed
and the path could never be reused.
---
 src/valor_lite/cache/persistent.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index ef25af7..cbea47c 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -365,6 +365,13 @@ class FileCacheWriter(FileCache):
         if not path.exists():
             return
 
+        # resume if an earlier creation or deletion was interrupted
+        cfg_path = cls._generate_config_path(path)
+        if path.is_dir() and not any(p != cfg_path for p in path.iterdir()):
+            cfg_path.unlink(missing_ok=True)
+            path.rmdir()
+            return
+
         # delete dataset files
         reader = FileCacheReader.load(path)
         for file in reader.get_dataset_files():
@@ -372,7 +379,6 @@ class FileCacheWriter(FileCache):
                 file.unlink()
 
         # delete config file
-        cfg_path = cls._generate_config_path(path)
         if cfg_path.exists() and cfg_path.is_file():
             cfg_path.unlink()
 
-- 
2.43.0


From 785f9f6ba972c01dc17f412790282d4c0a4434ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 13/29] fix: rows were silently lost after a failed cache write

When writing a file failed, rows that had been accepted before were dropped and a
later flush or finalize reported success without them. The writer now refuses to
continue once a write has failed.
---
 src/valor_lite/cache/persistent.py | 36 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index cbea47c..717e64a 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -3,6 +3,7 @@ import glob
 import json
 import os
 from collections.abc import Iterator
+from contextlib import contextmanager
 from pathlib import Path
 from typing import Any
 
@@ -298,6 +299,18 @@ class FileCacheWriter(FileCache):
         self._writer = None
         self._buffer = []
         self._count = 0
+        self._failed = False
+
+    @contextmanager
+    def _mutate(self):
+        """Refuse to continue after a failed write as rows may be missing."""
+        if self._failed:
+            raise RuntimeError(
+                f"cache is incomplete as an earlier write failed: {self.path}"
+            )
+        self._failed = True
+        yield
+        self._failed = False
 
     @classmethod
     def create(
@@ -446,8 +459,9 @@ class FileCacheWriter(FileCache):
             self._buffer = []
 
         # write batch
-        writer = self._get_or_create_writer()
-        writer.write_batch(batch)
+        with self._mutate():
+            writer = self._get_or_create_writer()
+            writer.write_batch(batch)
 
         # check file size
         self._count += size
@@ -467,7 +481,8 @@ class FileCacheWriter(FileCache):
             A populated table.
         """
         self.flush()
-        pq.write_table(table, where=self._generate_next_filename())
+        with self._mutate():
+            pq.write_table(table, where=self._generate_next_filename())
 
     def flush(self):
         """Flush the cache buffer."""
@@ -479,11 +494,13 @@ class FileCacheWriter(FileCache):
             batch = pa.RecordBatch.from_arrays(
                 combined_arrays, schema=self._schema
             )
-            writer = self._get_or_create_writer()
-            writer.write_batch(batch)
-        self._buffer = []
-        self._count = 0
-        self._close_writer()
+            with self._mutate():
+                writer = self._get_or_create_writer()
+                writer.write_batch(batch)
+        with self._mutate():
+            self._buffer = []
+            self._count = 0
+            self._close_writer()
 
     def sort_by(
         self,
@@ -503,7 +520,8 @@ class FileCacheWriter(FileCache):
             tbl = pf.read()
             pf.close()
             sorted_tbl = tbl.sort_by(sorting)
-            pq.write_table(sorted_tbl, file)
+            with self._mutate():
+                pq.write_table(sorted_tbl, file)
 
     def _generate_next_filename(self) -> Path:
         """Generates next dataset filepath."""
-- 
2.43.0


From 413baed2b10bc475853e042cb9105fe24ef0bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 14/29] fix: classification finalize could be repeated after
 failing half-way

Until the first curve point was flushed, repeating a failed finalize appended the
sorted intermediate again and doubled the ROC curve.
---
 src/valor_lite/classification/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 5bd410b..0f1e653 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -64,6 +64,7 @@ class Builder:
         self._roc_curve_writer = roc_curve_writer
         self._intermediate_writer = intermediate_writer
         self._metadata_fields = metadata_fields
+        self._finalized = False
 
     @classmethod
     def in_memory(
@@ -281,8 +282,9 @@ class Builder:
         self._writer.flush()
         if self._writer.count_rows() == 0:
             raise EmptyCacheError()
-        elif self._roc_curve_writer.count_rows() > 0:
+        elif self._finalized:
             raise RuntimeError("data already finalized")
+        self._finalized = True
 
         # sort in-place and locally
         self._writer.sort_by(
-- 
2.43.0


From 0dd6b6111c41d53b1e27682868aa93ead71f2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:09 +0000
Subject: [PATCH 15/29] fix: a cache could be loaded before it was complete

After a crash a partially written cache loaded without complaint and reported
wrong metrics. Mark caches as incomplete until finalize is done and refuse to
load them before.
---
 src/valor_lite/classification/evaluator.py        | 12 ++++++++++++
 src/valor_lite/classification/shared.py           |  5 +++++
 src/valor_lite/object_detection/evaluator.py      | 13 +++++++++++++
 src/valor_lite/object_detection/shared.py         |  5 +++++
 src/valor_lite/semantic_segmentation/evaluator.py | 12 ++++++++++++
 src/valor_lite/semantic_segmentation/shared.py    |  5 +++++
 6 files changed, 52 insertions(+)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 0f1e653..45f7efb 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -33,6 +33,7 @@ from valor_lite.classification.shared import (
     extract_groundtruth_count_per_label,
     extract_labels,
     generate_cache_path,
+    generate_incomplete_path,
     generate_intermediate_cache_path,
     generate_intermediate_schema,
     generate_metadata_path,
@@ -151,6 +152,9 @@ class Builder:
             compression=compression,
         )
 
+        # mark as incomplete until finalized
+        generate_incomplete_path(path).touch()
+
         # write metadatata config
         metadata_path = generate_metadata_path(path)
         with open(metadata_path, "w") as f:
@@ -312,6 +316,12 @@ class Builder:
         )
         roc_curve_reader = self._roc_curve_writer.to_reader()
 
+        # the cache is complete and may be loaded from now on
+        if isinstance(self._writer, FileCacheWriter):
+            generate_incomplete_path(self._writer.path.parent).unlink(
+                missing_ok=True
+            )
+
         return Evaluator(
             reader=reader,
             roc_curve_reader=roc_curve_reader,
@@ -376,6 +386,8 @@ class Evaluator:
             raise NotADirectoryError(
                 f"Path exists but is not a directory: {path}"
             )
+        elif generate_incomplete_path(path).exists():
+            raise RuntimeError(f"Cache was never finalized: {path}")
 
         # load cache
         reader = FileCacheReader.load(generate_cache_path(path))
diff --git a/src/valor_lite/classification/shared.py b/src/valor_lite/classification/shared.py
index fdc9b1e..25dc7cb 100644
--- a/src/valor_lite/classification/shared.py
+++ b/src/valor_lite/classification/shared.py
@@ -33,6 +33,11 @@ def generate_metadata_path(path: str | Path) -> Path:
     return Path(path) / "metadata.json"
 
 
+def generate_incomplete_path(path: str | Path) -> Path:
+    """Generate path of the file which marks a cache as not yet finalized."""
+    return Path(path) / ".incomplete"
+
+
 def generate_schema(
     metadata_fields: list[tuple[str, str | pa.DataType]] | None
 ) -> pa.Schema:
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index c6e728c..208365c 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -32,6 +32,7 @@ from valor_lite.object_detection.shared import (
     extract_labels,
     generate_detailed_cache_path,
     generate_detailed_schema,
+    generate_incomplete_path,
     generate_metadata_path,
     generate_ranked_cache_path,
     generate_ranked_schema,
@@ -133,6 +134,9 @@ class Builder:
             compression=compression,
         )
 
+        # mark as incomplete until finalized
+        generate_incomplete_path(path).touch()
+
         # write metadata
         metadata_path = generate_metadata_path(path)
         with open(metadata_path, "w") as f:
@@ -206,6 +210,13 @@ class Builder:
         self._rank(batch_size)
 
         ranked_reader = self._ranked_writer.to_reader()
+
+        # the cache is complete and may be loaded from now on
+        if isinstance(self._detailed_writer, FileCacheWriter):
+            generate_incomplete_path(self._detailed_writer.path.parent).unlink(
+                missing_ok=True
+            )
+
         return Evaluator(
             detailed_reader=detailed_reader,
             ranked_reader=ranked_reader,
@@ -267,6 +278,8 @@ class Evaluator:
             raise NotADirectoryError(
                 f"Path exists but is not a directory: {path}"
             )
+        elif generate_incomplete_path(path).exists():
+            raise RuntimeError(f"Cache was never finalized: {path}")
 
         detailed_reader = FileCacheReader.load(
             generate_detailed_cache_path(path)
diff --git a/src/valor_lite/object_detection/shared.py b/src/valor_lite/object_detection/shared.py
index 976a4ad..ec4c0ed 100644
--- a/src/valor_lite/object_detection/shared.py
+++ b/src/valor_lite/object_detection/shared.py
@@ -35,6 +35,11 @@ def generate_metadata_path(path: str | Path) -> Path:
     return Path(path) / "metadata.json"
 
 
+def generate_incomplete_path(path: str | Path) -> Path:
+    """Generate path of the file which marks a cache as not yet finalized."""
+    return Path(path) / ".incomplete"
+
+
 def generate_detailed_schema(
     metadata_fields: list[tuple[str, str | pa.DataType]] | None
 ) -> pa.Schema:
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 9eb34d1..1ada010 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -24,6 +24,7 @@ from valor_lite.semantic_segmentation.shared import (
     extract_counts,
     extract_labels,
     generate_cache_path,
+    generate_incomplete_path,
     generate_metadata_path,
     generate_schema,
 )
@@ -103,6 +104,9 @@ class Builder:
             compression=compression,
         )
 
+        # mark as incomplete until finalized
+        generate_incomplete_path(path).touch()
+
         # write metadata
         metadata_path = generate_metadata_path(path)
         with open(metadata_path, "w") as f:
@@ -143,6 +147,12 @@ class Builder:
             index_to_label_override=index_to_label_override,
         )
 
+        # the cache is complete and may be loaded from now on
+        if isinstance(self._writer, FileCacheWriter):
+            generate_incomplete_path(self._writer.path.parent).unlink(
+                missing_ok=True
+            )
+
         return Evaluator(
             reader=reader,
             index_to_label=index_to_label,
@@ -212,6 +222,8 @@ class Evaluator:
             raise NotADirectoryError(
                 f"Path exists but is not a directory: {path}"
             )
+        elif generate_incomplete_path(path).exists():
+            raise RuntimeError(f"Cache was never finalized: {path}")
 
         # load cache
         reader = FileCacheReader.load(generate_cache_path(path))
diff --git a/src/valor_lite/semantic_segmentation/shared.py b/src/valor_lite/semantic_segmentation/shared.py
index b1c9889..772a5f8 100644
--- a/src/valor_lite/semantic_segmentation/shared.py
+++ b/src/valor_lite/semantic_segmentation/shared.py
@@ -29,6 +29,11 @@ def generate_metadata_path(path: str | Path) -> Path:
     return Path(path) / "metadata.json"
 
 
+def generate_incomplete_path(path: str | Path) -> Path:
+    """Generate path of the file which marks a cache as not yet finalized."""
+    return Path(path) / ".incomplete"
+
+
 def generate_schema(
     metadata_fields: list[tuple[str, str | pa.DataType]] | None
 ) -> pa.Schema:
-- 
2.43.0


From b84accf3fa50146e99cb7751212f2bf8f89f6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:18 +0000
Subject: [PATCH 16/29] fix: a refused datum left its labels behind and broke
 the evaluator

---
 src/valor_lite/classification/loader.py        | 12 +++++++++++-
 src/valor_lite/object_detection/loader.py      | 12 +++++++++++-
 src/valor_lite/semantic_segmentation/loader.py | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/classification/loader.py b/src/valor_lite/classification/loader.py
index 52a0380..df96aa1 100644
--- a/src/valor_lite/classification/loader.py
+++ b/src/valor_lite/classification/loader.py
@@ -36,6 +36,15 @@ class Loader(Builder):
             self._index_to_label[idx] = value
         return idx
 
+    def _write_datum(self, rows: list[dict], n_labels: int):
+        """Write datum and forget its labels if it cannot be written."""
+        try:
+            self._writer.write_rows(rows)
+        except Exception:
+            for label in list(self._labels)[n_labels:]:
+                self._index_to_label.pop(self._labels.pop(label))
+            raise
+
     def add_data(
         self,
         classifications: list[Classification],
@@ -66,6 +75,7 @@ class Loader(Builder):
 
             # write to cache
             rows = []
+            n_known_labels = len(self._labels)
             gidx = self._add_label(classification.groundtruth)
             max_score_idx = np.argmax(np.array(classification.scores))
             for idx, (plabel, score) in enumerate(
@@ -91,7 +101,7 @@ class Loader(Builder):
                         "match": (gidx == pidx) and pidx >= 0,
                     }
                 )
-            self._writer.write_rows(rows)
+            self._write_datum(rows, n_known_labels)
 
             # update datum count
             self._datum_count += 1
diff --git a/src/valor_lite/object_detection/loader.py b/src/valor_lite/object_detection/loader.py
index 9a741b5..b71c4c3 100644
--- a/src/valor_lite/object_detection/loader.py
+++ b/src/valor_lite/object_detection/loader.py
@@ -46,6 +46,15 @@ class Loader(Builder):
             self._labels[value] = idx
         return idx
 
+    def _write_datum(self, rows: list[dict], n_labels: int):
+        """Write datum and forget its labels if it cannot be written."""
+        try:
+            self._detailed_writer.write_rows(rows)
+        except Exception:
+            for label in list(self._labels)[n_labels:]:
+                self._labels.pop(label)
+            raise
+
     def _add_data(
         self,
         detections: list[Detection],
@@ -61,6 +70,7 @@ class Loader(Builder):
             datum_idx = self._datum_count
             datum_metadata = detection.metadata if detection.metadata else {}
             pairs = []
+            n_known_labels = len(self._labels)
             if detection.groundtruths:
                 for gidx, gann in enumerate(detection.groundtruths):
                     gt_id = self._groundtruth_count + gidx
@@ -189,7 +199,7 @@ class Loader(Builder):
             self._groundtruth_count += len(detection.groundtruths)
             self._prediction_count += len(detection.predictions)
 
-            self._detailed_writer.write_rows(pairs)
+            self._write_datum(pairs, n_known_labels)
 
     def add_bounding_boxes(
         self,
diff --git a/src/valor_lite/semantic_segmentation/loader.py b/src/valor_lite/semantic_segmentation/loader.py
index aa526c7..674af64 100644
--- a/src/valor_lite/semantic_segmentation/loader.py
+++ b/src/valor_lite/semantic_segmentation/loader.py
@@ -32,6 +32,15 @@ class Loader(Builder):
             self._index_to_label[idx] = value
         return idx
 
+    def _write_datum(self, rows: list[dict], n_labels: int):
+        """Write datum and forget its labels if it cannot be written."""
+        try:
+            self._writer.write_rows(rows)
+        except Exception:
+            for label in list(self._labels)[n_labels:]:
+                self._index_to_label.pop(self._labels.pop(label))
+            raise
+
     def add_data(
         self,
         segmentations: list[Segmentation],
@@ -51,6 +60,7 @@ class Loader(Builder):
         disable_tqdm = not show_progress
         for segmentation in tqdm(segmentations, disable=disable_tqdm):
 
+            n_known_labels = len(self._labels)
             groundtruth_labels = -1 * np.ones(
                 len(segmentation.groundtruths), dtype=np.int64
             )
@@ -199,7 +209,7 @@ class Loader(Builder):
                     "count": counts[0, 0],
                 }
             )
-            self._writer.write_rows(rows)
+            self._write_datum(rows, n_known_labels)
 
             # update datum count
             self._datum_count += 1
-- 
2.43.0


From b6e97ace0a049a5e91fa192d409590bcf48d12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:21 +0000
Subject: [PATCH 17/29] fix: a cache under construction could be loaded

---
 src/valor_lite/classification/evaluator.py     | 18 ++++++++++--------
 src/valor_lite/object_detection/evaluator.py   | 18 ++++++++++--------
 .../semantic_segmentation/evaluator.py         | 18 ++++++++++--------
 3 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 45f7efb..bcb147b 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -386,7 +386,16 @@ class Evaluator:
             raise NotADirectoryError(
                 f"Path exists but is not a directory: {path}"
             )
-        elif generate_incomplete_path(path).exists():
+
+        # read config
+        metadata_path = generate_metadata_path(path)
+        metadata_fields = None
+        with open(metadata_path, "r") as f:
+            encoded_types = json.load(f)
+            metadata_fields = decode_metadata_fields(encoded_types)
+
+        # the config exists, so an unfinished cache is marked as such
+        if generate_incomplete_path(path).exists():
             raise RuntimeError(f"Cache was never finalized: {path}")
 
         # load cache
@@ -401,13 +410,6 @@ class Evaluator:
             index_to_label_override=index_to_label_override,
         )
 
-        # read config
-        metadata_path = generate_metadata_path(path)
-        metadata_fields = None
-        with open(metadata_path, "r") as f:
-            encoded_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_types)
-
         return cls(
             reader=reader,
             roc_curve_reader=roc_curve_reader,
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 208365c..0986b4c 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -278,7 +278,16 @@ class Evaluator:
             raise NotADirectoryError(
                 f"Path exists but is not a directory: {path}"
             )
-        elif generate_incomplete_path(path).exists():
+
+        # read config
+        metadata_path = generate_metadata_path(path)
+        metadata_fields = None
+        with open(metadata_path, "r") as f:
+            encoded_metadata_types = json.load(f)
+            metadata_fields = decode_metadata_fields(encoded_metadata_types)
+
+        # the config exists, so an unfinished cache is marked as such
+        if generate_incomplete_path(path).exists():
             raise RuntimeError(f"Cache was never finalized: {path}")
 
         detailed_reader = FileCacheReader.load(
@@ -292,13 +301,6 @@ class Evaluator:
             index_to_label_override=index_to_label_override,
         )
 
-        # read config
-        metadata_path = generate_metadata_path(path)
-        metadata_fields = None
-        with open(metadata_path, "r") as f:
-            encoded_metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_metadata_types)
-
         return cls(
             detailed_reader=detailed_reader,
             ranked_reader=ranked_reader,
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 1ada010..cce3e3f 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -222,7 +222,16 @@ class Evaluator:
             raise NotADirectoryError(
                 f"Path exists but is not a directory: {path}"
             )
-        elif generate_incomplete_path(path).exists():
+
+        # read config
+        metadata_path = generate_metadata_path(path)
+        metadata_fields = None
+        with open(metadata_path, "r") as f:
+            metadata_types = json.load(f)
+            metadata_fields = decode_metadata_fields(metadata_types)
+
+        # the config exists, so an unfinished cache is marked as such
+        if generate_incomplete_path(path).exists():
             raise RuntimeError(f"Cache was never finalized: {path}")
 
         # load cache
@@ -234,13 +243,6 @@ class Evaluator:
             index_to_label_override=index_to_label_override,
         )
 
-        # read config
-        metadata_path = generate_metadata_path(path)
-        metadata_fields = None
-        with open(metadata_path, "r") as f:
-            metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(metadata_types)
-
         return cls(
             reader=reader,
             index_to_label=index_to_label,
-- 
2.43.0


From cc1f1afdb8c1a7645bc59b766d4ada1f6ec9911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:28 +0000
Subject: [PATCH 18/29] fix: Mistral responses cut short by the model's context
 limit or an error were scored

---
 src/valor_lite/text_generation/llm/integrations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/text_generation/llm/integrations.py b/src/valor_lite/text_generation/llm/integrations.py
index 1461ae2..b0c0f3a 100644
--- a/src/valor_lite/text_generation/llm/integrations.py
+++ b/src/valor_lite/text_generation/llm/integrations.py
@@ -215,10 +215,14 @@ class MistralWrapper:
             0
         ].finish_reason  # Enum: "stop" "length" "model_length" "error" "tool_calls"
 
-        if finish_reason == "length":
+        if finish_reason in {"length", "model_length"}:
             raise ValueError(
                 "Mistral response reached max token limit. Resulting evaluation is likely invalid or of low quality."
             )
+        elif finish_reason == "error":
+            raise ValueError(
+                "Mistral response ended with an error. Resulting evaluation is likely invalid or of low quality."
+            )
 
         if not isinstance(response, str):
             raise TypeError("Mistral AI response was not a string.")
-- 
2.43.0


From 2648e9d7b6ec4f6597070624eb356ab8a043d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:10 +0000
Subject: [PATCH 19/29] fix: a failed directory listing made a cache overwrite
 its files

---
 src/valor_lite/cache/persistent.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 717e64a..fe54a75 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -1,5 +1,4 @@
 import base64
-import glob
 import json
 import os
 from collections.abc import Iterator
@@ -108,10 +107,9 @@ class FileCache:
         if not self._path.exists():
             return []
         return [
-            Path(filepath)
-            for filepath in glob.glob(
-                f"{glob.escape(str(self._path))}/*.parquet"
-            )
+            self._path / entry
+            for entry in os.listdir(self._path)
+            if entry.endswith(".parquet") and not entry.startswith(".")
         ]
 
 
-- 
2.43.0


From 02ab28f5634ba1e93708f094753e57baaa835520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 20/29] fix: rounding put some recalls into the bin below in
 the precision-recall curve

---
 src/valor_lite/object_detection/computation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..1a37fb3 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -480,14 +480,15 @@ def compute_counts(
         where=running_total_count > 0,
         out=precision,
     )
-    recall = np.zeros_like(running_total_count, dtype=np.float64)
-    np.divide(
-        running_tp_count,
-        running_gt_count,
+    # integer arithmetic, as rounding could put a recall into the bin below
+    recall_index = np.zeros_like(running_total_count)
+    np.floor_divide(
+        running_tp_count * np.uint64(100),
+        running_gt_count.astype(np.uint64),
         where=running_gt_count > 0,
-        out=recall,
+        out=recall_index,
     )
-    recall_index = np.floor(recall * 100.0).astype(np.int32)
+    recall_index = recall_index.astype(np.int32)
 
     # sort precision in descending order
     precision_indices = np.argsort(-precision, axis=1)
-- 
2.43.0


From 84eef7dd37b789316acb4a94534781ff8d900947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 21/29] fix: labels with large indices were taken for one
 another

---
 src/valor_lite/classification/computation.py   | 4 ++--
 src/valor_lite/object_detection/computation.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 1332f39..77d0c3d 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -132,7 +132,7 @@ def compute_counts(
     gt_labels = ids[:, 1]
     pd_labels = ids[:, 2]
 
-    mask_matching_labels = np.isclose(gt_labels, pd_labels)
+    mask_matching_labels = gt_labels == pd_labels
     mask_score_nonzero = ~np.isclose(scores, 0.0)
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
@@ -286,7 +286,7 @@ def compute_pair_classifications(
         dtype=np.uint8,
     )
 
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
         mask_score = mask_score_nonzero & (
diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index 1a37fb3..86d4bf9 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -210,7 +210,7 @@ def rank_pairs(
     indices = np.where(mask_predictions)[0]
 
     # find best fits for prediction
-    mask_label_match = np.isclose(pairs[:, 3], pairs[:, 4])
+    mask_label_match = pairs[:, 3] == pairs[:, 4]
     matched_predictions = np.unique(pairs[mask_label_match, 2])
 
     mask_unmatched_predictions = ~np.isin(pairs[:, 2], matched_predictions)
@@ -401,7 +401,7 @@ def compute_counts(
 
     mask_score_nonzero = scores > EPSILON
     mask_gt_exists = gt_ids >= 0.0
-    mask_labels_match = np.isclose(gt_labels, pd_labels)
+    mask_labels_match = gt_labels == pd_labels
 
     mask_gt_exists_labels_match = mask_gt_exists & mask_labels_match
 
@@ -739,7 +739,7 @@ def compute_pair_classifications(
 
     mask_gt_exists = gt_ids > -0.5
     mask_pd_exists = pd_ids > -0.5
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > EPSILON
     mask_iou_nonzero = ious > EPSILON
 
-- 
2.43.0


From cd321242997d8d86d82fcafab031979d49da74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:24 +0000
Subject: [PATCH 22/29] fix: classification counts and confusion matrix
 disagreed on which scores are zero

---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 77d0c3d..37676b4 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -133,7 +133,7 @@ def compute_counts(
     pd_labels = ids[:, 2]
 
     mask_matching_labels = gt_labels == pd_labels
-    mask_score_nonzero = ~np.isclose(scores, 0.0)
+    mask_score_nonzero = scores > 1e-9
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
     mask_valid_pds = pd_labels >= 0
-- 
2.43.0


From 259dfb5bc1171ee195ea79c59e8d08aa81ff0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:49 +0000
Subject: [PATCH 23/29] fix: evaluators shared metadata fields and label
 overrides with their callers

---
 src/valor_lite/classification/evaluator.py        | 10 ++++++++--
 src/valor_lite/classification/shared.py           |  2 +-
 src/valor_lite/object_detection/evaluator.py      | 10 ++++++++--
 src/valor_lite/object_detection/shared.py         |  2 +-
 src/valor_lite/semantic_segmentation/evaluator.py | 10 ++++++++--
 src/valor_lite/semantic_segmentation/shared.py    |  2 +-
 6 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index bcb147b..fc8772f 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -64,7 +64,9 @@ class Builder:
         self._writer = writer
         self._roc_curve_writer = roc_curve_writer
         self._intermediate_writer = intermediate_writer
-        self._metadata_fields = metadata_fields
+        self._metadata_fields = (
+            list(metadata_fields) if metadata_fields is not None else None
+        )
         self._finalized = False
 
     @classmethod
@@ -352,7 +354,11 @@ class Evaluator:
         datums: pc.Expression | None = None,
     ) -> EvaluatorInfo:
         info = EvaluatorInfo()
-        info.metadata_fields = self._metadata_fields
+        info.metadata_fields = (
+            list(self._metadata_fields)
+            if self._metadata_fields is not None
+            else None
+        )
         info.number_of_rows = self._reader.count_rows()
         info.number_of_labels = len(self._index_to_label)
         info.number_of_datums = extract_counts(
diff --git a/src/valor_lite/classification/shared.py b/src/valor_lite/classification/shared.py
index 25dc7cb..dd0981f 100644
--- a/src/valor_lite/classification/shared.py
+++ b/src/valor_lite/classification/shared.py
@@ -105,7 +105,7 @@ def extract_labels(
     index_to_label_override: dict[int, str] | None = None,
 ) -> dict[int, str]:
     if index_to_label_override is not None:
-        return index_to_label_override
+        return dict(index_to_label_override)
 
     index_to_label = {}
     for tbl in reader.iterate_tables(
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 0986b4c..a11c464 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -56,7 +56,9 @@ class Builder:
     ):
         self._detailed_writer = detailed_writer
         self._ranked_writer = ranked_writer
-        self._metadata_fields = metadata_fields
+        self._metadata_fields = (
+            list(metadata_fields) if metadata_fields is not None else None
+        )
         self._finalized = False
 
     @classmethod
@@ -250,7 +252,11 @@ class Evaluator:
     ) -> EvaluatorInfo:
         info = EvaluatorInfo()
         info.number_of_rows = self._detailed_reader.count_rows()
-        info.metadata_fields = self._metadata_fields
+        info.metadata_fields = (
+            list(self._metadata_fields)
+            if self._metadata_fields is not None
+            else None
+        )
         info.number_of_labels = len(self._index_to_label)
         (
             info.number_of_datums,
diff --git a/src/valor_lite/object_detection/shared.py b/src/valor_lite/object_detection/shared.py
index ec4c0ed..1c1d73e 100644
--- a/src/valor_lite/object_detection/shared.py
+++ b/src/valor_lite/object_detection/shared.py
@@ -131,7 +131,7 @@ def extract_labels(
     index_to_label_override: dict[int, str] | None = None,
 ) -> dict[int, str]:
     if index_to_label_override is not None:
-        return index_to_label_override
+        return dict(index_to_label_override)
 
     index_to_label = {}
     for tbl in reader.iterate_tables(
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index cce3e3f..e5da1d8 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -40,7 +40,9 @@ class Builder:
         metadata_fields: list[tuple[str, str | pa.DataType]] | None = None,
     ):
         self._writer = writer
-        self._metadata_fields = metadata_fields
+        self._metadata_fields = (
+            list(metadata_fields) if metadata_fields is not None else None
+        )
 
     @classmethod
     def in_memory(
@@ -184,7 +186,11 @@ class Evaluator:
         info = EvaluatorInfo()
         info.number_of_rows = self._reader.count_rows()
         info.number_of_labels = len(self._index_to_label)
-        info.metadata_fields = self._metadata_fields
+        info.metadata_fields = (
+            list(self._metadata_fields)
+            if self._metadata_fields is not None
+            else None
+        )
         (
             info.number_of_datums,
             info.number_of_pixels,
diff --git a/src/valor_lite/semantic_segmentation/shared.py b/src/valor_lite/semantic_segmentation/shared.py
index 772a5f8..8d27524 100644
--- a/src/valor_lite/semantic_segmentation/shared.py
+++ b/src/valor_lite/semantic_segmentation/shared.py
@@ -89,7 +89,7 @@ def extract_labels(
     index_to_label_override: dict[int, str] | None = None,
 ) -> dict[int, str]:
     if index_to_label_override is not None:
-        return index_to_label_override
+        return dict(index_to_label_override)
 
     index_to_label = {}
     for tbl in reader.iterate_tables(
-- 
2.43.0


From 3edfa2050605a66d0ebe75a9edef56eadf68e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:18 +0000
Subject: [PATCH 24/29] fix: creating a cache of another task type over a
 finalized one damaged it

---
 src/valor_lite/classification/evaluator.py        | 4 ++++
 src/valor_lite/object_detection/evaluator.py      | 4 ++++
 src/valor_lite/semantic_segmentation/evaluator.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index fc8772f..d372c59 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -131,6 +131,10 @@ class Builder:
         """
         path = Path(path)
 
+        # never build over the cache of another task type
+        if generate_metadata_path(path).exists():
+            raise FileExistsError(f"Cache already exists: {path}")
+
         # create cache
         writer = FileCacheWriter.create(
             path=generate_cache_path(path),
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index a11c464..4ab8af9 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -120,6 +120,10 @@ class Builder:
         """
         path = Path(path)
 
+        # never build over the cache of another task type
+        if generate_metadata_path(path).exists():
+            raise FileExistsError(f"Cache already exists: {path}")
+
         # create caches
         detailed_writer = FileCacheWriter.create(
             path=generate_detailed_cache_path(path),
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index e5da1d8..38571cb 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -97,6 +97,10 @@ class Builder:
         """
         path = Path(path)
 
+        # never build over the cache of another task type
+        if generate_metadata_path(path).exists():
+            raise FileExistsError(f"Cache already exists: {path}")
+
         # create cache
         writer = FileCacheWriter.create(
             path=generate_cache_path(path),
-- 
2.43.0


From 4256ed4fda46ef4e357f381bb1ae51f20b76779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:58 +0000
Subject: [PATCH 25/29] fix: a detection loader refused for its metadata fields
 left a cache behind

---
 src/valor_lite/object_detection/evaluator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 4ab8af9..02559c4 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -124,17 +124,21 @@ class Builder:
         if generate_metadata_path(path).exists():
             raise FileExistsError(f"Cache already exists: {path}")
 
+        # validate metadata fields before anything is created
+        detailed_schema = generate_detailed_schema(metadata_fields)
+        ranked_schema = generate_ranked_schema(metadata_fields)
+
         # create caches
         detailed_writer = FileCacheWriter.create(
             path=generate_detailed_cache_path(path),
-            schema=generate_detailed_schema(metadata_fields),
+            schema=detailed_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
         )
         ranked_writer = FileCacheWriter.create(
             path=generate_ranked_cache_path(path),
-            schema=generate_ranked_schema(metadata_fields),
+            schema=ranked_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
-- 
2.43.0


From 466ce59ed662870e917f259cb973a41d883eb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:47 +0000
Subject: [PATCH 26/29] fix: overlapping masks were cut in the caller's array,
 which other masks may share

---
 src/valor_lite/semantic_segmentation/annotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b5cce6f..bfb97cb 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -93,7 +93,7 @@ class Segmentation:
     def _validate_bitmasks(self, bitmasks: list[Bitmask], key: str):
         mask_accumulation = None
         mask_overlap_accumulation = None
-        for idx, bitmask in enumerate(bitmasks):
+        for bitmask in bitmasks:
             if not isinstance(bitmask, Bitmask):
                 raise ValueError(f"expected 'Bitmask', got '{bitmask}'")
             if self.shape != bitmask.mask.shape:
@@ -106,7 +106,8 @@ class Segmentation:
                 mask_overlap_accumulation = np.zeros_like(mask_accumulation)
             elif np.logical_and(mask_accumulation, bitmask.mask).any():
                 mask_overlap = np.logical_and(mask_accumulation, bitmask.mask)
-                bitmasks[idx].mask[mask_overlap] = False
+                # the array may be shared with the caller and other bitmasks
+                bitmask.mask = np.logical_and(bitmask.mask, ~mask_overlap)
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
-- 
2.43.0


From 1a9ab497a7aa319cdf58b949d385a09f604fe977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:20 +0000
Subject: [PATCH 27/29] fix: a reopened cache could not be filtered if a
 metadata type has no alias in Arrow

---
 src/valor_lite/classification/evaluator.py        | 9 ++++++++-
 src/valor_lite/object_detection/evaluator.py      | 9 ++++++++-
 src/valor_lite/semantic_segmentation/evaluator.py | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index d372c59..113b8e8 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -460,12 +460,19 @@ class Evaluator:
                 raise ValueError(
                     "expected path to be defined for file-based loader"
                 )
+            # a loaded cache only names its types and not every name is an alias
+            schema = self._reader.schema
             loader = Loader.persistent(
                 path=path,
                 batch_size=self._reader.batch_size,
                 rows_per_file=self._reader.rows_per_file,
                 compression=self._reader.compression,
-                metadata_fields=self.info.metadata_fields,
+                metadata_fields=[
+                    (name, schema.field(name).type)
+                    for name, _ in self._metadata_fields
+                ]
+                if self._metadata_fields is not None
+                else None,
             )
         else:
             loader = Loader.in_memory(
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 02559c4..a699782 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -358,12 +358,19 @@ class Evaluator:
                 raise ValueError(
                     "expected path to be defined for file-based loader"
                 )
+            # a loaded cache only names its types and not every name is an alias
+            schema = self._detailed_reader.schema
             loader = Loader.persistent(
                 path=path,
                 batch_size=self._detailed_reader.batch_size,
                 rows_per_file=self._detailed_reader.rows_per_file,
                 compression=self._detailed_reader.compression,
-                metadata_fields=self._metadata_fields,
+                metadata_fields=[
+                    (name, schema.field(name).type)
+                    for name, _ in self._metadata_fields
+                ]
+                if self._metadata_fields is not None
+                else None,
             )
         else:
             loader = Loader.in_memory(
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 38571cb..7089ff5 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -290,12 +290,19 @@ class Evaluator:
                 raise ValueError(
                     "expected path to be defined for file-based cache"
                 )
+            # a loaded cache only names its types and not every name is an alias
+            schema = self._reader.schema
             builder = Builder.persistent(
                 path=path,
                 batch_size=self._reader.batch_size,
                 rows_per_file=self._reader.rows_per_file,
                 compression=self._reader.compression,
-                metadata_fields=self.info.metadata_fields,
+                metadata_fields=[
+                    (name, schema.field(name).type)
+                    for name, _ in self._metadata_fields
+                ]
+                if self._metadata_fields is not None
+                else None,
             )
         else:
             builder = Builder.in_memory(
-- 
2.43.0


From 90ee14eccd7207915ea863bb3592c60771fdbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 28/29] fix: columns written to a cache follow its schema

write_columns inferred types and column order from the values it was given,
so a batch that was accepted could make a later write or flush fail, together
with everything buffered before it.
---
 src/valor_lite/cache/ephemeral.py  | 2 +-
 src/valor_lite/cache/persistent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index bb1ac3e..be996e4 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -204,7 +204,7 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
     def write_batch(
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index fe54a75..c0cfa3d 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -427,7 +427,7 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self._schema)
         self.write_batch(batch)
 
     def write_batch(
-- 
2.43.0


From b3711975df104fb1e96454530d457ba5e3193ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 29/29] fix: cache writers keep no reference to arrays they
 were given

The buffer of a writer shared the memory of numpy columns; a caller that
used its arrays again before the flush changed rows already written.
---
 src/valor_lite/cache/ephemeral.py  | 5 +++++
 src/valor_lite/cache/persistent.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index be996e4..bbca1e3 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -204,6 +204,11 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
+        # arrow shares the memory of arrays, which the caller may use again
+        columns = {
+            name: values.copy() if isinstance(values, np.ndarray) else values
+            for name, values in columns.items()
+        }
         batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index c0cfa3d..0e1940f 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -427,6 +427,11 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
+        # arrow shares the memory of arrays, which the caller may use again
+        columns = {
+            name: values.copy() if isinstance(values, np.ndarray) else values
+            for name, values in columns.items()
+        }
         batch = pa.RecordBatch.from_pydict(columns, schema=self._schema)
         self.write_batch(batch)
 
-- 
2.43.0

