#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = {
 "B": "runtime monitoring of the real buffer against a bounded-deque reference model, all views compared after every operation",
 "C": "runtime monitoring of the real counter against a reference multiset over generated histories",
 "D": "runtime monitoring of the real disjoint set against a partition model over enumerated and generated histories",
 "I": "runtime monitoring of the real interval types against a point-run model of a dense line, all operand pairs over boundary tables",
}
S = {
 "B02": "element-lifetime ledger (construct, clone, move, drop events) over generated histories",
 "B03": "Miri (Stacked and Tree Borrows), AddressSanitizer and native debug assertions over enumerated and generated histories of many element types",
 "B08": "counting global allocator observed around every operation of generated histories",
 "B09": "fault injection (panicking drop, clone, comparison, iterator) with an element-lifetime ledger, AddressSanitizer and Miri",
 "B10": "callgrind instruction counting of operation batches at very different sizes",
 "B11": "callgrind instruction counting of whole-buffer operations, per element, at very different sizes",
 "C07": "callgrind instruction counting of counter operations, per element, at very different sizes",
 "I15": "fault injection (panicking comparison, clone and arithmetic at every point, and real overflow), bounds checked afterwards",
 "X02": "metering global allocator: bytes held by library calls checked after every operation of generated histories",
 "C06": "fault injection (panicking hash, equality, iterators) with a reference multiset",
 "D04": "callgrind instruction counting over adversarial union orders, and small-stack execution with a million elements",
 "D06": "fault injection (panicking hash, equality, iterators) with a partition model",
 "X01": "Miri and ThreadSanitizer race detection over concurrent workloads, results compared with models, auto-trait probes",
}
N = "Held on the executions counted in the evidence file; says nothing about executions not produced. Trusted: the reference models and monitors in /verif/harness, rustc/std, and where used Miri, the sanitizers and valgrind."
checks = []
for i in ids:
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "technique": S.get(i, T.get(i[0])), "level": "fault_enumeration" if i in ("B09", "C06", "D06", "I15") else "exploration", "level_note": N})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "Everything is black-box through the public API; /repo contains no hooks. Seed: VERIF_SEED."}, open(V + "/MANIFEST.json", "w"), indent=1)
