#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P
V = os.path.dirname(os.path.abspath(__file__))
NOT_APPLICABLE = []
TECH = {
    "mc": "stateless model checking of the real code: all interleavings and weak-memory reads under a controlled scheduler, within bounds",
    "seq": "exhaustive enumeration of operation/poll/wake/fault histories of the real code against a reference model, within bounds",
}
NOTE = {
    "mc": "Runs the compiled code of /repo itself under a controlled scheduler; exhaustive within the preemption and stale-read bounds recorded in the evidence, with data-race, use-after-free, leak and deadlock detection. Trusts the C11 model in mcrt (self-tested by litmus scenarios in every run), LLVM's TSan instrumentation and std's uninstrumented parts.",
    "seq": "Runs the compiled code of /repo itself; enumerates every choice sequence (readiness, values, faults, wake-ups, drops) within the depth and deviation bounds recorded in the evidence, and compares with an independent reference model. Trusts the reference model.",
}
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
engines = sorted({e for p in P for e in p["engines"]})
m = {
    "version": 1,
    "setup_cmd": " && ".join(f"bash {e}/build.sh" for e in engines),
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "; ".join(TECH[e] for e in p["engines"]),
        "level": "model_checking",
        "level_note": " ".join(NOTE[e] for e in p["engines"]) + (" " + p["note"] if p["note"] else ""),
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: the mc engine compiles /repo's crates with LLVM's ThreadSanitizer instrumentation and supplies its own runtime; the seq engine uses the public API only. check.py is the driver, known_findings.json the known-findings file.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
