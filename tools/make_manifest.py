#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C16": "AddressSanitizer, MemorySanitizer, library precondition checks and Miri over hostile calls, with coverage feedback",
    "C17": "offline comparison of recorded outcomes of one workload between four builds of the real code",
    "C23": "offline comparison of recorded outcomes of one workload between the real code built for x86_64, for i686 (run natively) and for s390x (run in Miri)",
    "C19": "ThreadSanitizer, Miri's race detector, and comparison of recorded outcomes between call orders and concurrent threads",
}
L = "online metamorphic monitor: both sides of each law are computed by the real code and compared, over generated and coverage-guided workloads, in a plain and a checked build"
T["C21"] = L
T["C22"] = "online cost monitor: comparisons counted by compiler instrumentation, thread CPU time and a counting allocator judge every call of generated and coverage-guided workloads"
D = "online reference-model monitor over generated and coverage-guided workloads, in a plain and a checked (overflow/assertion/coverage) build"
N = {
    "C16": "No sanitizer, Miri or library check reported anything on the calls executed; text of every call was validated. Red-zone tools miss some overflows; Miri sees a small coverage-selected sample.",
    "C17": "All transcripts agreed between debug, checked, optimised and size-optimised builds on the calls executed. Trusts that the builds differ in the ways users' builds do (rustc stable, x86-64).",
    "C23": "All transcripts agreed between the targets on the calls executed; the big-endian target is interpreted and sees about a thousand coverage-selected calls (quick). Trusts Miri's emulation of s390x.",
    "C19": "All transcripts agreed between orders, processes and 8 concurrent threads; no race report on the schedules seen. Not a statement about unseen schedules.",
}
N["C22"] = "Every call executed stayed within fixed budgets, far above what calls cost now (see DESIGN.md). Not a statement about the cost of calls not executed."
T["C24"] = "online memory monitor: a counting allocator judges the heap bytes alive with every produced, copied and used value of generated and coverage-guided workloads"
N["C24"] = "Every value produced by the calls executed held no heap memory. Not a statement about values not produced; memory obtained other than through the Rust allocator is not seen."
DN = "Held on every execution explored (counts in the evidence file), judged by an independent exact model. Trusts the model (harness/src/model.rs, big.rs) and the reading of the property in the oracle."
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "technique": T.get(p, D),
            "level": "exploration",
            "level_note": N.get(p, DN),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public interface and compiler instrumentation of the unmodified sources. --tier overrides VERIF_TIER.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
