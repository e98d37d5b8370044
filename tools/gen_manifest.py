#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "reference-model runtime monitor over generated histories"
NOTE = ("Held on the executions listed in the evidence file, no more. Trusts the reference model and the Go runtime; "
        "assumptions are listed in DESIGN.md.")
T = {
    "C01": (SEQ + " (bounded exclusive map)", ""),
    "C02": (SEQ + " (bounded exclusive map, all ranges of small tables exhaustively)", ""),
    "C03": (SEQ + " (lowest-free model)", ""),
    "C04": (SEQ + " (snapshot oracle over iterators held across modifications)", ""),
    "C05": ("offline linearizability checking (porcupine) of recorded concurrent histories with injected delays", "Only the recorded interleavings are judged. "),
    "C06": ("Go race detector and crash monitor over all pairs of operations with injected delays", "Only races between accesses that were executed without ordering are seen. "),
    "C07": ("deadlock monitor (goroutine wait states) over an instrumented lock that lets writers queue between nested read locks", "Blocked-forever is decided from goroutine states, not from a deadline. "),
    "C08": ("resource monitor: allocated bytes and operation under address-space and CPU limits in child processes", "Bounds are generous constants per id claimed or requested. "),
    "C09": (SEQ + " (exclusive map over a window)", ""),
    "C10": (SEQ + " (cross-checking every read path)", ""),
    "C11": ("offline linearizability checking (porcupine) of recorded concurrent histories with injected delays", "Only the recorded interleavings are judged. "),
    "C12": (SEQ + " (map keyed by address)", "Pools wider than 2^64 addresses carry a known finding. "),
    "C13": (SEQ + " (map keyed by prefix)", ""),
    "C14": (SEQ + " (interval set of used ids)", ""),
    "C15": (SEQ + " (minimal decomposition oracle)", ""),
    "C16": (SEQ + " (integer containment oracle)", ""),
    "C17": (SEQ + " (selector evaluated on the model)", ""),
    "C18": (SEQ + " (original and clones driven in lock step with separate models)", ""),
    "C19": ("offline linearizability checking (porcupine) of recorded concurrent histories with injected delays", "Only the recorded interleavings are judged. "),
    "C20": ("heap monitor: live bytes after garbage collection across long churn, and behaviour compared with a fresh instance", "Slow leaks below the stated threshold per operation are not seen. "),
    "C21": ("oracle over generated and exhaustive ranges (greedy minimal decomposition)", ""),
    "C22": (SEQ + " (interval-set algebra)", ""),
    "C23": (SEQ + " (interval-set algebra)", ""),
    "C24": ("oracle over generated and exhaustive ids (integer arithmetic)", ""),
    "C25": (SEQ + " (multimap keyed by prefix)", ""),
    "C26": ("oracle over generated strings and ranges (integer intervals)", ""),
    "C27": ("differential runtime monitor: interleaved instances against the model and against the same stream alone in a process", ""),
    "C29": ("Go race detector and differential monitor over values shared by goroutines", "Only executed interleavings are judged. "),
    "C30": ("runtime monitor of the arguments (their content compared after every operation of a history)", ""),
    "C28": (SEQ + " (results next to errors, content around refused calls)", ""),
}
CLAIMED = os.environ.get("CLAIMED", "").split() or sorted(T)
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "overlay", "enable": "no hooks are committed to /repo: harness/instrument generates a go build -overlay that replaces the import of sync by harness/verifsync in the checks' own builds of /repo's working tree",
              "source_commits": []},
    "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                "technique": T[p][0], "level": "exploration", "level_note": T[p][1] + NOTE} for p in CLAIMED],
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in CLAIMED],
    "notes": "See DESIGN.md. known_findings.txt lists repaired defects and known findings.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
