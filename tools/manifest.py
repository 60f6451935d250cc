"""Writes MANIFEST.json."""
import json, os
T = "TLA+ specification checked by TLC; "
REPLAY = T + "TLC-generated behaviours replayed into the real code"
NOTE = ("Every input explored is run through the specification by TLC (design invariants and progress checked in every state) and "
        "through the real code built from /repo's working tree, and the two outcomes are compared. Exhaustive over the stated grids, "
        "sampled beyond them. Trusts the specification's reading of the language (cross-checked by the declarative laws), the cluster "
        "table, TLC, rustc and the comparison in tools/.")
extra = {
 "C01": (T + "replay, plus enumeration of all small texts for a verdict", "Termination and an answer on complete grids of small texts (every mode), on texts from the specification, on random Unicode and on long runs; the specification itself is checked to make progress in every state. Deep nesting beyond a thread's stack is a recorded finding (recursive parser)."),
 "C06": (T + "replay; doubles decided exactly by TLC (Nearest.tla)", None),
 "C17": (T + "sessions enumerated by TLC replayed into a real session", None),
 "C18": (T + "TLC-computed reports compared with the real command's output", "Compares status, standard output and standard error of the real binary with what the specification prescribes. The text of an accepted program (Rust's debug form of the tree) is taken from the library, whose tree is compared with the specification's."),
 "C19": (T + "TLC-computed trees and causes compared with the compiled wasm module", "The compiled wasm32 module runs under node through hand-written glue (no wasm-bindgen CLI is installed); the objects it builds are compared with the specification's trees and messages."),
 "C20": (T + "determinism of the code's outcomes against the specification's, over repetition, threads, processes and concatenation", "Samples interleavings of threads (it does not enumerate them); the crate has no shared state, and any it gained would have to show in 70,000 parses between repetitions or on 8 threads at once."),
}
checks = []
for i in range(1, 22):
    c = "C%02d" % i
    t, n = extra.get(c, (REPLAY, None))
    checks.append({"property": c, "quick_cmd": "tools/check " + c, "thorough_cmd": "VERIF_TIER=thorough tools/check " + c,
                   "evidence_file": "evidence/%s.json" % c, "technique": t, "level": "model_checking",
                   "level_note": (n + " " if n else "") + NOTE})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "tools/setup", "checks": checks, "not_applicable": []}, f, indent=1)
    f.write("\n")
