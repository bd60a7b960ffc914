#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks there are (props.PROPS)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "C19": "TLA+ model of the encoding (Wire.tla) checked by TLC; its behaviours replayed into the codec, random encodings of the codec checked against it by TLC",
    "C20": "TLA+ model of the encoding (Wire.tla) checked by TLC; every prefix of its encodings replayed into the codec",
    "C21": "TLA+ model of the response formats (Frames.tla): TLC parses recorded response bytes, CRC-32 included",
}
NOTE = {}
for i in ("C19", "C20", "C21"):
    NOTE[i] = "Exact on every byte string examined; says nothing about values it did not draw. Trusts TLC, the transcription of the Kafka formats into TLA+, and the harness that hands bytes over."
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    checks.append({
        "property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
        "technique": TECH.get(i, "TLA+ specification (design model checked by TLC, invariants and liveness; mistaken variants refuted); behaviours generated by TLC and seeded concurrent programs run on the real server, each recorded trace decided against the specification by TLC"),
        "level": "model_checking",
        "level_note": NOTE.get(i, "The specification satisfies the property within the model bounds (exhaustive); every recorded run of the real server was decided exactly against it. "
                                  "Runs sample inputs, interleavings (with injected delays) and faults: code paths that no run took are not decided. Trusts TLC, the harness's clock order of events on one process, and the specification."),
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "the check is not built yet"} for i in ids if i not in props.PROPS],
     "notes": "No hooks in /repo: the harness goes in through go test -overlay; delays for exploring interleavings are put into copies of the sources made by tools/instr at check time."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
