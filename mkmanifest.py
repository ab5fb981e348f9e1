#!/usr/bin/env python3
"""Write MANIFEST.json from the obligations table."""
import json, os, subprocess
import obligations
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C16": "Linearizability of unbounded multi-threaded histories on weak memory is a whole-history property of several threads; Kani has one thread and sequentially consistent atomics, and no installed deductive verifier accepts this code with its raw pointers and weak atomics. The per-thread half (each attempt uses validated state, writes under locks, leaves no trace when it fails) is C11-C13.",
    "C17": "Lock-freedom/progress is a liveness property under a fair scheduler; partial-correctness contracts do not express it (Kani does not check termination, and the retry loops are unbounded by design).",
}
NOTE = "Unbounded per-function proof by Kani/CBMC on the code of /repo in place: symbolic keys, node contents, levels and interference; loops bounded by the key length or node capacity with unwinding assertions. Trusted: Kani and CBMC, the ghost contracts standing for callees where DESIGN.md says they are proved elsewhere, crossbeam-epoch, sequentially consistent atomics, and the paper composition of contracts along a path."
claimed = sorted({p for d in obligations.G.values() for x in d["harnesses"] for p in x["props"]})
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
extra = getattr(obligations, "NOTES", {})
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import check'",
    "hooks": {
        "guard": "cfg(kani) and cfg(congee_verif)",
        "enable": "cfg(kani) is set by cargo kani (the modules are read from $CONGEE_VERIF_DIR, assembled by gen.py); cfg(congee_verif) by RUSTFLAGS='--cfg congee_verif' for the replay program",
        "source_commits": subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook:"], text=True).split(),
    },
    "checks": [{
        "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": "contract-based deductive verification of the real code (Kani contracts and stubs, CBMC)",
        "level": "proof", "level_note": NOTE + (" " + extra[p] if p in extra else ""),
    } for p in props if p in claimed],
    "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in claimed],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
