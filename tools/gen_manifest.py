#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SCHED = "stateless model checking of the real code: all interleavings up to a deviation bound under a controlled scheduler"
SEQ = "explicit exploration of all operation sequences up to a depth on the real code, compared with a reference model"
BFS = "explicit-state breadth-first search on the real objects against a reference model"
REDIS = "exhaustive fault and operation-sequence exploration of the real code against a Redis stand-in checked for conformance"
T = {
 "C01": SEQ, "C02": SCHED + "; " + SEQ, "C03": SCHED, "C04": SEQ + "; " + SCHED, "C05": SEQ,
 "C06": SEQ, "C07": BFS + "; " + SEQ, "C08": "exhaustive enumeration of all small inputs on the real builders against a reference model",
 "C09": SCHED, "C10": SCHED + "; " + SEQ, "C11": SCHED + "; " + SEQ, "C12": SCHED, "C13": SEQ,
 "C14": SEQ + "; " + SCHED, "C15": SCHED, "C16": SEQ, "C17": SEQ + "; " + SCHED,
 "C18": REDIS, "C19": REDIS, "C20": REDIS, "C21": SEQ,
 "C22": BFS, "C23": "exhaustive enumeration of backend fault sequences on the real code, with all interleavings up to a deviation bound",
}
NOTE = ("Every behaviour within the bounds stated in the evidence file is executed on the library's own compiled code and judged by an "
        "oracle written from the property; nothing is sampled. ")
EXTRA = {
 "sched": "Trusted: the scheduler (harness/vsched), the instrumented channel and executor, sequential consistency, and that shared state is touched only at the instrumented operations; time is virtual.",
 "redis": "Trusted: the Redis stand-in, whose SET/DEL/EXISTS/MODULE/COMMAND behaviour is replayed against a real redis-server where one is installed, and whose module commands follow the published mCaptcha/cache module.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
done = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "hooks": {
  "guard": "cfg(libmcaptcha_verif)",
  "enable": "RUSTFLAGS=\"--cfg libmcaptcha_verif\" (set by /verif/check)",
  "source_commits": ["a6c730a"],
 },
 "checks": [{
   "property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "model_checking",
   "level_note": NOTE + EXTRA["redis" if i in ("C18","C19","C20","C21") else "sched"],
 } for i in ids if i in done],
 "not_applicable": [{"property": i, "reason": "the check for this property is still being built"} for i in ids if i not in done],
 "notes": "See DESIGN.md. Known findings: KNOWN_FINDINGS.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(m["checks"]), "claimed")
