"""Behaviours of the design model (spec/Server.tla), as the harness would have journalled them, judged by the trace acceptor."""
import json
import re

import vrf
from vrf import CheckError

JUDGE = ["fetch", "list", "commit", "ofetch", "meta", "sync", "apiv", "hold", "late", "net", "wire"]


def traces(w, cfg, num, seed, depth=400):
    rc, text, st = w.tlc("ServerMC", cfg + ".cfg", args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], heap="2g", timeout=600)
    hs = [json.loads(json.loads('"%s"' % m.group(1))) for m in re.finditer(r'^"VRF-OBS (.*)"$', text, re.M)]
    if rc != 0 or not hs:
        raise CheckError("TLC failed on %s:\n%s" % (cfg, text[:1500]+text[-1500:]))
    seen, out = set(), []
    for i, h in enumerate(hs):
        key = json.dumps(h, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        resp = {(e["c"], e["n"]): e.pop("resp") for e in h if e["e"] == "recv"}
        for e in h:
            if "p" in e:
                e["p"] = "%s.%d" % tuple(e["p"])
            if e["e"] == "send":
                e["resp"] = resp.get((e["c"], e["n"]), {"k": "none"})
        h.append({"e": "quiet", "t": (h[-1]["t"] if h else 0) + 12000})
        out.append({"id": "%s-%d" % (cfg, i), "judge": JUDGE, "slack": 4000, "port": 1, "ev": h})
    return out, st
