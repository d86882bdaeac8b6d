#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 mkmanifest.py"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
REAL = "stateless exploration of the real code on an in-memory machine: "
CRASH = "crash-point enumeration on the real code: "
C = {
 "C01": ("model_checking", REAL + "every transition (live set x per-key choice) of a small key universe, compared with a map model", "all transitions of 5 key placements; thorough also 5 keys"),
 "C02": ("model_checking", REAL + "same transitions, successor chain and heights of every entry compared with the model", "as C01"),
 "C03": ("model_checking", REAL + "same transitions, root recomputed from the log bytes and active entries by an independent auditor", "as C01"),
 "C04": ("model_checking", REAL + "proofs of every live entry in every reached state, verified by an independent verifier", "bounded states"),
 "C05": ("model_checking", "exhaustive single-field, single-bit and structural mutations of real proofs, every byte prefix for the parser", "bounded mutations"),
 "C06": ("model_checking", REAL + "lockstep runs of one history under every choice of map order, worker count, preparation order, restarts and build constants", "bounded histories"),
 "C07": ("model_checking", REAL + "restart after every step of every history, lockstep comparison", "bounded histories"),
 "C08": ("fault_enumeration", CRASH + "all crash images of block commits from the recorded disk event log, each reopened and continued", "per-file durable-prefix model, deviation-bounded"),
 "C09": ("model_checking", REAL + "every per-key choice on the entries a compaction moves, for every compacting block of filling histories", "bounded histories"),
 "C10": ("model_checking", REAL + "all small twig geometries and prune ranges, all prune heights of filling histories, lockstep with an unpruned run", "bounded histories"),
 "C11": ("fault_enumeration", CRASH + "all crash images of prunes, each reopened, compared, pruned again and continued", "bounded histories"),
 "C12": ("model_checking", REAL + "all block sequences of two neighbouring keys, all lookup heights, prune heights, compacted record subsets; database histories with all heights", "known findings D7 and D8 are exact classes"),
 "C13": ("model_checking", "exhaustive small contents (marker patterns at every offset and overlap) through the real encoder, file and decoder", "bounded contents"),
 "C14": ("model_checking", REAL + "all operation sequences to a depth on segmented files against a byte-array model, with crash images", "bounded sequences"),
 "C15": ("model_checking", REAL + "all operation sequences over small key sets and every range bound, B-tree sizes across node splits", "bounded sequences"),
 "C16": ("model_checking", REAL + "all sequences of store operations, commits and discards over small key sets against a layered map model", "bounded sequences"),
 "C17": ("model_checking", REAL + "all operation sequences over key sets with every collision shape (short keys of one byte) against a map model", "bounded sequences"),
 "C18": ("model_checking", "controlled scheduler on the real code: all schedules of the real workers up to a deviation bound", "deviation-bounded"),
 "C19": ("model_checking", "controlled scheduler on the real code: all schedules of writer and readers up to a deviation bound", "deviation-bounded"),
 "C20": ("model_checking", REAL + "all setter/commit/reload/crash sequences, all wrapper operation sequences and iterator bounds; conformance of the stand-in store with the real RocksDB", "bounded sequences"),
 "C21": ("model_checking", REAL + "all block-kind sequences, tree dumped and loaded after each, lockstep comparison", "bounded sequences"),
 "C23": ("model_checking", REAL + "every decisive prune height after every block of filling histories, files and index records left compared with what an independent auditor of the log says is needed", "bounded histories"),
 "C22": ("model_checking", "the stand-in database itself: every transition of a small key universe and filling histories, compared with a map model", "bounded histories"),
}
done = [l.strip() for l in open(os.path.join(here, "claimed.txt")) if l.strip()]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
old = json.load(open(os.path.join(here, "MANIFEST.json")))
for k in old:
    if k not in m:
        m[k] = old[k]
for i in sorted(C):
    lv, t, n = C[i]
    if i in done:
        m["checks"].append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i, "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
