#!/usr/bin/env python3
"""Writes properties.jsonl, sim/budget.json and MANIFEST.json from one description."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/valor_lite/"
EVAL = [S + "classification/evaluator.py", S + "object_detection/evaluator.py", S + "semantic_segmentation/evaluator.py"]
LOAD = [S + "classification/loader.py", S + "object_detection/loader.py", S + "semantic_segmentation/loader.py"]
CACHE = [S + "cache/persistent.py", S + "cache/ephemeral.py"]
TG = S + "text_generation/"

DISK = "real: all of valor_lite, pyarrow and its C++ Parquet/file layer, numpy, shapely, on a real tmpfs directory; every mutating libc call of it passes the simulated disk"
DISKSTUB = "stub: libc file calls below pyarrow/Python (LD_PRELOAD shim: errors, torn and short writes, crash with everything after it lost, permuted directory order); the restarted process is a second real interpreter"
LLMREAL = "real: all of valor_lite.text_generation"
LLMSTUB = "stub: the evaluating LLM (simulated from the prompt text)"
TRUST = ["the reference model (sim/tasks, sim/props/_llm.py) is an independent reading of the documented definitions",
         "one process per simulated machine; data written before a crash instant is durable, nothing after it is (no reordering of writes by the kernel is simulated)"]
LTRUST = ["the reference plans in sim/props/_llm.py are an independent reading of the documented metric definitions"]

P = []


# quick budgets are set so that a check takes about a minute on 8 cores
SCALE = {"C13": 2.5, "C04": 2.0, "C05": 2.2}


def prop(id, title, statement, over, text, why, files, mech, obs, quick, rule, real, stub, assume, note, wall=240, thorough=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs,
                  quick=quick, rule=rule, real=real, stub=stub, assume=assume, note=note, wall=wall, thorough=thorough or 10_000_000))


prop("C01", "A cache returns exactly the rows written, once, in order",
     "Whatever mixture of row, column, batch and table writes, flushes and intermediate reads fills an in-memory or on-disk cache, reading it back yields every written row exactly once, in the order written, with its values, and rows handed over in one write are never split over two tables; a file on disk is closed by the write that brings it to rows_per_file rows, so files neither outgrow that by more than a buffered write nor multiply; counts, column selections, row filters, array and batch iteration and a reader opened by another process after a flush all agree with that. A reader handed out earlier keeps seeing a prefix of those rows that includes everything written before it was made.",
     ["histories", "inputs", "configurations"], "for every write history, schema, null pattern, batch size, rows per file, compression, directory name and directory order, in memory and on disk",
     "The tests write a few fixed sequences with fixed batch sizes; order, buffering and file-rollover interact over histories of mixed writes, and directory order is chosen by the file system.",
     CACHE, [("buffer and flush", S + "cache/persistent.py:FileCacheWriter.write_batch"), ("file rollover", S + "cache/persistent.py:FileCacheWriter._get_or_create_writer"), ("ordered listing", S + "cache/persistent.py:FileCache.get_dataset_files"), ("in-memory twin", S + "cache/ephemeral.py:MemoryCacheWriter")],
     ["FileCacheReader / MemoryCacheReader iteration, in this and in a restarted process"], 1500,
     "One evaluation is one write/flush/read history against a list of rows. Non-trivial: at least two rows and three operations.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over write histories, layouts and directory orders against a list-of-rows model; read back in the same and in a restarted process.")
prop("C02", "External sort is an ordered permutation and leaves no trace",
     "Sorting a cache whose tables are sorted into another cache yields all its rows exactly once in the requested lexicographic order (ascending or descending per key), whatever the batch size, number of tables, ties and column subset. The source is unchanged, no temporary files remain after success, and if a disk operation fails the call either raises or the result is still complete and ordered. The in-place sort orders rows within each table, stably, and changes nothing else.",
     ["inputs", "configurations", "fault_sequences"], "for every row content, split over tables, batch size, key list, column subset, and every single disk fault during the sort",
     "Tests sort a few fixed tables; batches running out at different points of the merge and disk faults in the middle of it are not sampled.",
     [S + "cache/compute.py"] + CACHE, [("k-way merge", S + "cache/compute.py:_merge"), ("sort", S + "cache/compute.py:sort"), ("in-place sort", S + "cache/persistent.py:FileCacheWriter.sort_by")],
     ["rows of the sink", "temporary directory", "bytes of the source"], 3200,
     "One evaluation is one sort, with or without a fault. Non-trivial: more than one source table.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over tables, batch sizes and fault points; oracle: Python's stable sort of the same rows.")
prop("C03", "Pages of examples partition the datums in a stable order",
     "Requesting examples page by page with any limit and offset (and any datum filter) yields, on every page, exactly the datums at those positions of the full datum order and their complete examples; consecutive pages together give every datum exactly once. The order does not depend on how the data is split over files or on directory order.",
     ["inputs", "configurations", "histories"], "for every dataset, file layout, filter, limit and offset, in memory, on disk and reopened",
     "Tests page through one small in-memory dataset; page borders falling inside, between and beyond files are not covered.",
     [S + "cache/compute.py", EVAL[0], EVAL[1]], [("page bounds over fragments", S + "cache/compute.py:paginate_index"), ("example iteration", EVAL[0] + ":Evaluator.compute_examples")],
     ["compute_examples with limit/offset"], 2400,
     "One evaluation is one requested page. Non-trivial: at least three datums.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over datasets, layouts and pages; oracle: slices of the reference model's examples.")
prop("C04", "A disk error is reported, never turned into a wrong result",
     "If any disk operation fails while a cache or evaluator is created, filled, finalized, filtered or read (error, full disk, torn or short write, failing read or directory listing, unreadable or truncated file), the call raises, or everything it returns is complete and right. After an error, continuing, retrying, finalizing or loading never yields a result that silently lacks or repeats data whose addition had been acknowledged. Once the disk works again, what was finalized before answers correctly.",
     ["fault_sequences", "histories", "inputs"], "for every dataset, layout, phase, fault position, fault kind and follow-up action of the application",
     "The tests never make a disk operation fail.",
     CACHE + EVAL + LOAD, [("writer poisoned after failure", S + "cache/persistent.py:FileCacheWriter._mutate"), ("finalize", EVAL[0] + ":Builder.finalize"), ("filter", EVAL[1] + ":Evaluator.filter")],
     ["results of every later successful call, in this and in a restarted process"], 1250,
     "One evaluation is one life of a cache with one injected fault (or none). Every one is non-trivial.", [DISK], [DISKSTUB],
     TRUST + ["a failed add may have taken a prefix of its datums; any such prefix is accepted"],
     "Seeded search over fault positions and kinds in every phase; oracle: reference metrics over the acknowledged data.")
prop("C05", "After a crash a cache is complete or refused",
     "If the process dies at any instant while an evaluator is being built, finalized or filtered, a later process that opens the path either gets an evaluator whose every answer equals that of the complete data, or an error; never an evaluator over part of the data. A path whose finalize (or filter) had returned before the crash always opens.",
     ["crash_points", "inputs", "histories"], "for every dataset, layout and every disk operation as the crash instant, with the operation in flight torn at any byte",
     "No test kills the process part-way.",
     EVAL + [S + "cache/persistent.py"], [("completeness marker and configuration written last", EVAL[0] + ":Builder.finalize"), ("refusal on load", EVAL[0] + ":Evaluator.load"), ("object detection twin", EVAL[1] + ":Builder.finalize")],
     ["Evaluator.load and all metrics in a restarted process"], 1150,
     "One evaluation is one build or filter with a crash at one disk operation, then a restart. Every one is non-trivial.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over crash instants; everything after the instant is lost; a second interpreter opens what is left.")
prop("C06", "A finalized cache is durable and immutable",
     "Once finalized, a cache on disk keeps its bytes and its answers whatever happens next: computing metrics, filtering from it (also onto its own path), creating another cache (also of another task type) on its path or filtering one onto it, finalizing again, unrelated work beside it, read errors, write errors and crashes during those operations, and reopening it in this or another process.",
     ["histories", "fault_sequences", "crash_points"], "for every sequence of later operations and faults",
     "Tests check a result once after building; no test repeats operations under faults and compares bytes.",
     EVAL + [S + "cache/persistent.py"], [("refusal to create over an existing path", S + "cache/persistent.py:FileCacheWriter.create"), ("read-only readers", S + "cache/persistent.py:FileCacheReader"), ("filter into a new path", EVAL[0] + ":Evaluator.filter")],
     ["bytes below the path", "metrics here and after restart"], 800,
     "One evaluation is one later operation followed by the checks. Non-trivial: at least three operations.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over operation and fault histories; oracle: byte comparison and the reference model.")
prop("C07", "Deleting a cache removes all of it and nothing else",
     "Deleting (or recreating with deletion) removes exactly the named cache: neighbours, parents, foreign files inside it and directories that are no cache keep their bytes, whatever the names contain. If it reports success the cache is gone; if it is interrupted by an error or crash, or the cache itself was left half created, repeating it completes. With foreign files inside it does not report success.",
     ["fault_sequences", "crash_points", "inputs"], "for every path name (glob characters included), cache content, fault and crash instant during creation and deletion",
     "Tests delete one intact cache with a plain name.",
     [S + "cache/persistent.py"], [("delete", S + "cache/persistent.py:FileCacheWriter.delete"), ("listing of own files", S + "cache/persistent.py:FileCache.get_files"), ("create with deletion", S + "cache/persistent.py:FileCacheWriter.create")],
     ["the directory tree around the cache"], 3600,
     "One evaluation is one deletion or recreation with at most one fault, and its resumption. Non-trivial: the cache holds rows.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over names, contents and fault points inside a scratch directory; oracle: comparison of the whole tree.")
prop("C08", "Classification metrics equal their definition for every history",
     "Counts, precision, recall, F1, accuracy (with and without hardmax, at every score threshold) and, where every datum scores every label, ROC areas equal the documented definitions over the datums added, and so do metrics over any datum subset and the reported counts of datums, rows and labels. They do not depend on how data was split into add calls, batches and files, on memory or disk, on how often or in which order metrics are computed, or on reopening the cache in another process.",
     ["inputs", "histories", "configurations"], "for every dataset (ties, repeated scores, missing labels), layout, order of computation and reopening",
     "Tests compare a few fixed datasets in one layout; chunking, ties and recomputation interact.",
     [S + "classification/evaluator.py", S + "classification/computation.py", S + "classification/utilities.py", S + "classification/loader.py"],
     [("counts per chunk", S + "classification/computation.py:compute_counts"), ("ROC over sorted intermediate", S + "classification/evaluator.py:Builder._create_rocauc_intermediate"), ("hardmax winners", S + "classification/loader.py:Loader.add_data")],
     ["compute_precision_recall, compute_rocauc, info"], 1300,
     "One evaluation is one build followed by a sequence of computations and reopenings. Non-trivial: at least two datums.", [DISK], [DISKSTUB], TRUST + ["ROC areas for sparse predictions only have to be independent of layout (known finding F3)"],
     "Seeded search over datasets, layouts, directory orders and computation histories; oracle: brute-force reference in plain Python.")
prop("C09", "Object detection metrics equal their definition for every history",
     "For boxes, polygons and bitmasks, counts, precision, recall, F1, AP, AR, mAP, mAR and their averages at every IoU and score threshold equal the documented definitions (greedy one-to-one matching by score, 101-point interpolation) over the datums added, as do metrics over any datum subset and the reported counts. They do not depend on how data was split into add calls, batches and files, on memory or disk, on the order of computations, or on reopening the cache in another process.",
     ["inputs", "histories", "configurations"], "for every dataset (overlaps, ties, empty datums, several labels per prediction), layout, order of computation and reopening",
     "Tests compare a few fixed datasets in one layout; ranking across files, ties and pair deduplication interact.",
     [S + "object_detection/evaluator.py", S + "object_detection/computation.py", S + "object_detection/loader.py", S + "object_detection/utilities.py"],
     [("ranked pairs", S + "object_detection/computation.py:rank_table"), ("counts", S + "object_detection/computation.py:compute_counts"), ("ranking cache", S + "object_detection/evaluator.py:Builder.finalize")],
     ["compute_precision_recall, info"], 2700,
     "One evaluation is one build followed by a sequence of computations and reopenings. Non-trivial: at least two datums.", [DISK], [DISKSTUB], TRUST + ["exact ties in score are generated only where the definition leaves one answer"],
     "Seeded search over datasets, layouts, directory orders and computation histories; oracle: brute-force reference in plain Python.")
prop("C10", "Segmentation metrics equal their definition for every history",
     "Pixel counts, precision, recall, F1, IoU, mIoU, accuracy and the pixel confusion matrix equal their definitions over the datums added, every pixel counting once even if masks of one datum overlap or repeat a label, and so do metrics over any datum subset and the reported counts. They do not depend on how data was split into add calls, batches and files, on memory or disk, on the order of computations, or on reopening the cache in another process.",
     ["inputs", "histories", "configurations"], "for every dataset (overlapping, empty and repeated masks, different shapes), layout, order of computation and reopening",
     "Tests compare a few fixed datasets with disjoint masks in one layout.",
     [S + "semantic_segmentation/evaluator.py", S + "semantic_segmentation/computation.py", S + "semantic_segmentation/loader.py"],
     [("pixel counts", S + "semantic_segmentation/computation.py:compute_intermediates"), ("metrics", S + "semantic_segmentation/computation.py:compute_metrics")],
     ["compute_precision_recall_iou, info"], 4000,
     "One evaluation is one build followed by a sequence of computations and reopenings. Non-trivial: at least two datums.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over datasets, layouts, directory orders and computation histories; oracle: per-pixel reference in plain Python.")
prop("C11", "Filtering equals evaluating the kept data from scratch",
     "An evaluator filtered by datums, ground truths or predictions reports exactly what an evaluator built only from the kept data reports (labels and counts included), also after further filtering, in memory, on disk and reopened; filtering by datums equals asking for those datums. The source keeps its bytes and answers, and a filter that keeps nothing is refused and leaves nothing that opens.",
     ["inputs", "histories", "configurations"], "for every dataset, filter expression over metadata, labels and datums, chain of filters, layout and batch size",
     "Tests filter a few fixed datasets once; chains, empty results, partially removed annotations and layouts are not covered.",
     EVAL, [("classification filter", EVAL[0] + ":Evaluator.filter"), ("detection filter", EVAL[1] + ":Evaluator.filter"), ("segmentation filter", EVAL[2] + ":Evaluator.filter"), ("row filter", S + "object_detection/computation.py")],
     ["all metrics of the filtered evaluator, bytes of the source"], 1150,
     "One evaluation is one filter step. Non-trivial: a filter kept something.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over datasets, filters and chains; oracle: the reference model of the kept data.")
prop("C12", "Confusion matrices and examples equal their definition and agree",
     "For classification and detection, every confusion matrix cell, unmatched list and per-datum example list equals its definition at every threshold, for all data and any datum subset, in every layout and after reopening. The plain confusion matrix, the one with examples and the examples agree: each cell lists exactly as many examples as it counts.",
     ["inputs", "histories", "configurations"], "for every dataset, set of thresholds, layout, order of computation and reopening",
     "Tests compare a few fixed datasets, mostly with one threshold; pairs competing for one annotation across thresholds are rare in them.",
     [S + "classification/evaluator.py", S + "classification/utilities.py", S + "object_detection/evaluator.py", S + "object_detection/computation.py", S + "object_detection/utilities.py"],
     [("pair masks", S + "object_detection/computation.py:compute_pair_classifications"), ("classification masks", S + "classification/computation.py:compute_pair_classifications"), ("assembly", S + "object_detection/utilities.py")],
     ["compute_confusion_matrix, compute_examples, compute_confusion_matrix_with_examples"], 1900,
     "One evaluation is one build followed by a sequence of computations and reopenings. Non-trivial: at least two datums.", [DISK], [DISKSTUB], TRUST,
     "Seeded search as for C08/C09; oracle: brute-force reference plus mutual agreement of the three views.")
prop("C13", "Concurrent use gives the serial results",
     "Threads computing metrics, filtering, paging and loading on one shared finalized evaluator, and threads building or filtering caches side by side, each get exactly the result they would get alone, under every interleaving and also if one of them meets a disk error. Of several threads creating or filtering onto one path at most one succeeds, and its result is intact. A thread that opens a cache while another builds it gets a refusal or the complete cache.",
     ["schedules", "inputs", "fault_sequences"], "for every interleaving of 2 to 5 threads at statement granularity, dataset, layout and single disk fault",
     "The tests are single-threaded.",
     EVAL + LOAD + CACHE + [S + "cache/compute.py"], [("no shared mutable state in evaluators", EVAL[0] + ":Evaluator"), ("exclusive creation", S + "cache/persistent.py:FileCacheWriter.create"), ("completeness marker", EVAL[0] + ":Builder.finalize")],
     ["results of each thread"], 1700,
     "One evaluation is one set of threads under one schedule. Non-trivial: at least one switch between threads beyond start and end.", [DISK + "; real threads, one running at a time"],
     [DISKSTUB, "stub: the interpreter's thread scheduler (seeded hand-over before statements of valor_lite; locks it creates yield)"],
     TRUST + ["threads switch only between statements of valor_lite, not inside pyarrow or numpy calls"],
     "Seeded search over schedules; oracle: the reference model, i.e. the serial result.")
prop("C14", "Any model answer ends in a valid metric or an error metric, bounded",
     "Whatever text the evaluating model answers, an LLM-guided metric ends after at most 1 + retries attempts, each with no more calls than its definition needs, with either a value in the metric's range or an error metric naming the last failure, the evaluator and the retries; no answer makes it raise or return nothing. Exactly the invalid answers use up attempts: the first attempt whose answers are all valid decides, and all 1 + retries attempts are made before giving up.",
     ["inputs", "fault_sequences", "histories"], "for every metric, input, number of retries and sequence of well-formed, malformed, truncated, mistyped or arbitrary answers",
     "Tests feed a handful of hand-written bad answers and one retry pattern.",
     [TG + "manager.py", TG + "llm/generation.py", TG + "llm/validators.py", TG + "llm/utilities.py", TG + "computation.py"],
     [("retry loop", TG + "manager.py:llm_guided_metric"), ("validation", TG + "llm/validators.py"), ("extraction", TG + "llm/utilities.py:trim_and_load_json")],
     ["returned Metric", "calls received by the client"], 12000,
     "One evaluation is one metric computation against a simulated model. Non-trivial: at least one answer was invalid or damaged.", [LLMREAL], [LLMSTUB], LTRUST,
     "Seeded search over answer sequences; oracle: validity known by construction, or range and bounds for arbitrary answers.")
prop("C15", "An LLM-guided metric is its definition over one valid attempt",
     "The value reported equals the documented formula over the answers of a single attempt, all of them valid; nothing from failed attempts, earlier computations or other inputs leaks into it or into the requests. Each request carries the configured system prompt and the complete texts the definition names, in their order, and asks for the judgement that metric needs. Computing all metrics together gives each metric its own value under its own name, and an error in one does not disturb the others.",
     ["inputs", "histories", "fault_sequences"], "for every metric, texts (quotes, braces, newlines, duplicates), lists, answer sequence with failed attempts in between, and sequence of computations on one evaluator",
     "Tests compare a few canned dialogues without failed attempts.",
     [TG + "computation.py", TG + "llm/generation.py", TG + "llm/instructions.py", TG + "manager.py"],
     [("formulas", TG + "computation.py"), ("requests", TG + "llm/generation.py"), ("prompts", TG + "llm/instructions.py"), ("all metrics", TG + "manager.py:Evaluator.compute_all")],
     ["returned Metric", "messages received by the client"], 9000,
     "One evaluation is one metric computation (or one of all metrics). Non-trivial: it asked the model and gave a value.", [LLMREAL], [LLMSTUB, "stub: the ROUGE library, in computations of all metrics"], LTRUST,
     "Seeded search over texts and answers; the simulated model answers what the prompt asks, so a wrong prompt gives another value; oracle: reference plan and formula.")
prop("C16", "Provider failures reach the caller and nothing cut short is scored",
     "If a call to the evaluating model fails (connection, timeout, HTTP error, garbled body, any exception of a client), the failure reaches the caller at once, is not retried as if it were an invalid answer, and is never turned into a metric; later computations are unaffected. A completion the provider marks as cut short by a token limit, content filter or error is refused and never scored; an empty completion counts as an invalid answer. Token totals equal the usage reported over all completions received, refused ones included, and every request names the configured model and seed.",
     ["fault_sequences", "histories", "inputs"], "for every provider fault at every call of every metric, mixed with invalid answers and retries",
     "Tests mock single calls of the SDK with fixed objects.",
     [TG + "llm/integrations.py", TG + "manager.py"], [("OpenAI wrapper", TG + "llm/integrations.py:OpenAIWrapper"), ("Mistral wrapper", TG + "llm/integrations.py:MistralWrapper"), ("retry only on invalid answers", TG + "manager.py:llm_guided_metric")],
     ["exceptions and metrics returned", "HTTP requests received by the simulated provider", "token totals"], 2200,
     "One evaluation is one metric computation. Non-trivial: a fault was scheduled in it.", [LLMREAL + ", and the installed OpenAI and Mistral SDKs down to their HTTP transport"],
     [LLMSTUB, "stub: HTTP transport, provider, time.sleep (virtual)"], LTRUST,
     "Seeded search over provider faults through the real SDKs on a simulated transport and clock; oracle: reference plan, usage ledger of the simulated provider.")
prop("C17", "Concurrent LLM-guided evaluations do not disturb each other",
     "Threads sharing one evaluator (or client) and computing LLM-guided metrics at the same time each get the value, error metric or exception they would get alone, with requests carrying only their own data and attempts counted separately, under every interleaving; token totals equal the usage reported over all of them.",
     ["schedules", "fault_sequences", "inputs"], "for every interleaving of 2 to 4 threads at statement granularity, with invalid answers and provider failures",
     "The tests are single-threaded.",
     [TG + "manager.py", TG + "llm/generation.py", TG + "llm/integrations.py", TG + "computation.py"], [("per-call state only", TG + "manager.py:llm_guided_metric"), ("token totals", TG + "llm/integrations.py:OpenAIWrapper")],
     ["results and requests of each thread"], 2400,
     "One evaluation is one metric computation in one of the threads. Non-trivial: threads were switched beyond start and end.", [LLMREAL + "; real threads, one running at a time"],
     [LLMSTUB, "stub: the interpreter's thread scheduler; HTTP transport for the OpenAI client"], LTRUST,
     "Seeded search over schedules; oracle: the serial reference of each evaluation.")
prop("C18", "Refused calls leave no trace and objects are not shared",
     "A call the library refuses (finalizing without data, finalizing classification or detection twice, a malformed datum, reserved metadata names, an existing path, missing thresholds, opening what is no finalized cache, filtering without a path or by an unknown field) raises and leaves the loader or evaluator and its data as if it had not been made, except that datums before a malformed one in the same call stay added. Objects passed in are not changed (a Segmentation takes overlapping pixels out of its Bitmask objects when it is made, but not out of the arrays they were made from) and may be changed by the caller afterwards, and returned objects may be changed, without any effect on the evaluator or on later results.",
     ["histories", "inputs"], "for every sequence of valid and refused calls and changes to passed or returned objects, for all three tasks, in memory and on disk",
     "Tests call each refusal once and stop there; none goes on to evaluate after a refusal.",
     EVAL + LOAD, [("datum rollback", LOAD[0] + ":Loader._write_datum"), ("argument checks", EVAL[0] + ":Evaluator"), ("load checks", EVAL[0] + ":Evaluator.load")],
     ["metrics and info after the sequence", "the directory tree"], 1450,
     "One evaluation is one sequence of calls. Every build with at least one refusal or change is non-trivial.", [DISK], [DISKSTUB], TRUST,
     "Seeded search over call sequences; oracle: the reference model over the accepted data.")

NA = [("C19", "BLEU and ROUGE scores equal their definitions",
       "Sentence BLEU and ROUGE scores of a response equal the definitions of the underlying libraries over the reference texts, take the best reference, and lie between 0 and 1.",
       ["inputs"], "for every response, list of references, weights and options",
       "Tests sample a few sentences.",
       [TG + "computation.py"], [("BLEU", TG + "computation.py:calculate_sentence_bleu"), ("ROUGE", TG + "computation.py:calculate_rouge_scores")],
       "A pure function of its arguments without concurrency, time, I/O or other parties: there is no schedule or fault to simulate, and input fuzzing would be another technique. (ROUGE also downloads its implementation, which is impossible offline.)")]

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                                                    "observe_at": p["obs"], "hook_needed": None}}) + "\n")
    for id, title, st, over, text, why, files, mech, reason in NA:
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}) + "\n")
with open(os.path.join(V, "sim", "budget.json"), "w") as f:
    json.dump({p["id"]: {"quick": {"scenarios": int(p["quick"] * SCALE.get(p["id"], 1.75)), "wall": p["wall"]}, "thorough": {"scenarios": p["thorough"], "wall": 780},
                         "rule": p["rule"], "real": p["real"], "stub": p["stub"], "assumptions": p["assume"]} for p in P}, f, indent=1)
    f.write("\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true",
               "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration",
                           "level_note": p["note"] + " Assurance: no violation in the explored runs (counts in the evidence); assumes " + "; ".join(p["assume"]) + "."} for p in P],
               "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
               "notes": "No hooks in /repo are needed: seams are the libc file calls (LD_PRELOAD), the thread trace function, time.sleep, the HTTP transport of the SDKs and the LLM client object. Fix commits in /repo are listed in known_findings.txt."}, f, indent=1)
    f.write("\n")
