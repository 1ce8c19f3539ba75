#!/usr/bin/env python3
"""Writes MANIFEST.json from runs.json (what is built) and the notes."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = json.load(open(H + "/tools/runs.json")); notes = json.load(open(H + "/tools/notes.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
TECH = {
 **{k: "deterministic network simulation with fault injection, judged against a reference codec" for k in ("C01", "C02", "C11", "C12", "C13", "C16")},
 "C03": "deterministic simulation of slot histories with injected failures, against a byte model",
 "C04": "deterministic simulation with injected failures and panics, tokens and a simulated heap",
 "C05": "deterministic thread scheduling at lock and futex level with injected panics and spurious wakes",
 "C06": "deterministic simulation of stream histories with failing requests, against a cursor model",
 "C07": "deterministic simulation of reused maximum-size buffers, biased to the longest values",
 "C08": "deterministic simulation of operation histories with injected panics, against vectors and strings",
 "C09": "deterministic simulation of iterator histories with injected panics, against a deque",
 "C10": "deterministic simulation of refused encodings whose obstacle comes and goes",
 "C14": "deterministic simulation with injected allocation failures",
 "C17": "deterministic network simulation with fault injection in a build per feature combination, event logs compared between builds",
 "C15": "deterministic disk simulation with crashes at arbitrary bytes and repeated recovery",
}
NA = {
 "C18": "Decided entirely at compile time by rustc rejecting a program; nothing executes, so there is no execution to simulate or fault to inject.",
}
m = {"version": 1, "setup_cmd": "./check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in runs:
        m["checks"].append({"property": i, "quick_cmd": "./check.py run " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py run " + i, "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
            "level_note": "Seeded search over histories and faults, in builds with and without debug assertions; it finds violations, it does not prove their absence. Stubbed: " + notes[i]["stub"] + "." + ((" Assumes: " + "; ".join(notes[i]["assumptions"]) + ".") if notes[i]["assumptions"] else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
m["notes"] = "No hooks in /repo: every source of nondeterminism is reached through seams that exist (user-supplied types, hashers, buffers), the global allocator and the futex system call. Known findings are listed in known_findings.json."
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
