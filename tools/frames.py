"""C21: the bytes of recorded responses, against spec/Frames.tla."""
import concurrent.futures as cf
import json
import os
import re

import vrf
from vrf import CheckError

LIMIT = 260000      # longer frames are left to the harness' own parser


def frames_of(sc, evs):
    """responses whose bytes were recorded, with the request"""
    kinds, out = {}, []
    for e in evs:
        if e["e"] == "send":
            kinds[(e["c"], e["n"])] = e["req"]
        if e["e"] == "recv" and e["resp"].get("raw") and (e["c"], e["n"]) in kinds:
            out.append((kinds[(e["c"], e["n"])], e["n"], bytes.fromhex(e["resp"]["raw"])))
    return out


def judge(w, frames):
    """frames: (request, correlation id, bytes); the ones the specification does not agree to"""
    parts = [[] for _ in range(min(vrf.CPUS, max(1, len(frames) // 10)))]
    load = [0] * len(parts)
    for i in sorted(range(len(frames)), key=lambda i: -len(frames[i][2])):
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += len(frames[i][2]) + 200

    def one(k):
        if not parts[k]:
            return []
        f = w.path("frames-%d.json" % k)
        with open(f, "w") as h:
            json.dump([{"api": frames[i][0]["k"], "corr": list((frames[i][1] % 2 ** 32).to_bytes(4, "big")), "raw": list(frames[i][2])} for i in parts[k]], h)
        rc, text, st = w.tlc("FrameTrace", "FrameTrace.cfg", env={"VRF_CASES": f})
        if rc != 0:
            raise CheckError("TLC failed on the frames: " + text[-3000:])
        os.unlink(f)
        w.states += st[1]
        w.transitions += st[0]
        return [(parts[k][v["i"] - 1], v["why"]) for v in (json.loads(m.replace('\\"', '"')) for m in re.findall(r"VRF-BAD ((?:[^\"\\]|\\.)*)", text))]
    bad = []
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        for b in ex.map(one, range(len(parts))):
            bad += b
    return bad


def inspect(w, batch, scs, journals, instr, found):
    frames, where = [], []
    for sc, evs in zip(scs, journals):
        for f in frames_of(sc, evs or []):
            if len(f[2]) <= LIMIT:
                frames.append(f)
                where.append((sc, evs))
    if not frames:
        raise CheckError("no response was recorded")
    per = {}
    for rq, _, raw in frames:
        n = per.setdefault(rq["k"], [0, 0])
        n[0] += 1
        n[1] += len(raw)
    x = w.__dict__.setdefault("extra", {}).setdefault("frames", {})
    for k, n in per.items():
        o = x.setdefault(k, {"frames": 0, "bytes": 0})
        o["frames"] += n[0]
        o["bytes"] += n[1]
    for i, why in sorted(judge(w, frames))[:2]:
        sc, evs = where[i]
        found.append({"batch": batch.name, "instr": instr, "race": batch.race, "judge": batch.judge, "slack": batch.slack, "scenario": sc, "position": 0, "journal": evs, "frames": True,
                      "trace": frames[i][2].hex(), "why": "scenario %s: %s is wrong in the response to %s: %s" % (sc["id"], why, json.dumps(frames[i][0])[:300], frames[i][2].hex()[:600])})
