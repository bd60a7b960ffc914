"""C19, C20: typed values through the encoder and the decoder, against spec/Wire.tla."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import time

import vrf
from vrf import CheckError, SEED, go_env

FAMILIES = ["basic", "arrays", "structs", "nested", "tags"]


# ---------------------------------------------------------------- random types and values

def fix(n):
    return {"k": "fix", "n": n}


LEAF = [{"k": "bool"}] + [fix(n) for n in (1, 2, 4, 8, 16)] + [{"k": k, "n": n} for k in ("vi", "vu") for n in (4, 8)] + \
       [{"k": k} for k in ("str", "nstr", "cstr", "cnstr", "bytes", "cbytes")]


def rty(r, depth):
    x = r.random()
    if depth == 0 or x < 0.3:
        return r.choice(LEAF)
    if x < 0.6:
        return {"k": r.choice(["arr", "carr"]), "of": rty(r, depth - 1)}
    return {"k": "struct", "f": [rty(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]}


def rbytes(r, n):
    return [r.randrange(256) for _ in range(n)]


def rlen(r, big):
    if big:
        return r.choice([62, 63, 64, 65, 127, 128, 255, 256, 300, 8190, 8191, 8192, 16383, 16384, 32766, 32767])
    return r.choice([0, 0, 1, 2, 3, 5, 9, 20, 62, 63, 64])


def rnum(r, n):
    x = r.random()
    w = 8 * n
    if x < 0.3:
        return rbytes(r, n)
    v = (1 << r.randrange(w + 1)) + r.choice([-2, -1, 0, 0, 1])
    if r.random() < 0.5:
        v = -v
    return list((v % (1 << w)).to_bytes(n, "big"))


def rval(t, r, big=False):
    k = t["k"]
    if k == "bool":
        return [r.randrange(2)]
    if k in ("fix", "vi", "vu"):
        return rnum(r, t["n"])
    if k in ("str", "cstr"):
        return rbytes(r, rlen(r, big))
    if k in ("nstr", "cnstr", "bytes", "cbytes"):
        return [] if r.random() < 0.25 else [rbytes(r, rlen(r, big))]
    if k in ("arr", "carr"):
        if r.random() < 0.15:
            return []
        n = r.choice([0, 1, 1, 2, 3, 4])
        return [[rval(t["of"], r) for _ in range(n)]]
    if k == "struct":
        return [rval(f, r) for f in t["f"]]
    raise ValueError(k)


def ident(n):
    return list(n.to_bytes(4, "big"))


def rtags(r):
    known = r.sample([0, 1, 2, 5, 63, 64, 127, 128, 129, 255, 300, 16383, 16384, 2 ** 21, 2 ** 31 - 1], r.choice([0, 1, 2, 3]))
    t = {"k": "tags", "f": [{"id": i, "of": rty(r, 2)} for i in known]}
    v = []
    for i in sorted(set(r.sample(known, r.randrange(len(known) + 1)) + [r.choice([3, 7, 100, 130, 20000, 2 ** 28]) for _ in range(r.choice([0, 1, 2]))])):
        f = [x for x in t["f"] if x["id"] == i]
        v.append([ident(i), rval(f[0]["of"], r) if f else rbytes(r, rlen(r, r.random() < 0.1) % 400)])
    return t, v


def size(v):
    return 1 if not isinstance(v, list) else 1 + sum(size(x) for x in v)


def random_cases(r, n):
    out = []
    while len(out) < n:
        x = r.random()
        if x < 0.15:
            t, v = rtags(r)
        elif x < 0.25:
            t = r.choice([t for t in LEAF if t["k"] in ("str", "nstr", "cstr", "cnstr", "bytes", "cbytes")])
            v = rval(t, r, big=True)
        elif x < 0.27:
            m = r.choice([62, 63, 64, 127, 128, 8190, 8191, 8192])
            t = {"k": r.choice(["arr", "carr"]), "of": fix(r.choice([1, 2]))}
            v = [[rbytes(r, t["of"]["n"]) for _ in range(m)]]
        else:
            t = rty(r, r.choice([1, 2, 3, 4]))
            v = rval(t, r)
        if size(v) < 60000:
            out.append({"ty": t, "v": v})
    return out


# ---------------------------------------------------------------- running and judging

def around(r, c, prop):
    """what comes before and after the value"""
    c["seed"] = r.randrange(1 << 40)
    c["pre"] = rbytes(r, r.choice([0, 0, 1, 4, 7, 40]))
    c["suf"] = r.choice([[], [0], [255] * r.choice([1, 4, 11]), [128, 0], rbytes(r, r.choice([1, 3, 30]))])
    c["cuts"] = -1 if prop == "C19" else 700
    return c


def attempt(w, cases, workers=8):
    """outcomes, or what killed the process"""
    binary = w.build()
    inp, outp = w.path("cases-%d.json" % time.time_ns()), w.path("outs-%d.json" % time.time_ns())
    with open(inp, "w") as f:
        json.dump(cases, f)
    try:
        p = subprocess.run([binary, "-test.run", "^TestVrfCodec$", "-test.timeout", "0"], cwd=w.dir, env=dict(go_env(), VRF_IN=inp, VRF_OUT=outp, VRF_WORKERS=str(workers)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, stdin=subprocess.DEVNULL, preexec_fn=vrf.limit_memory)
        text, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        text, rc = "fatal error: it does not come to an end", 1
    if rc == 0 and "VRF-DONE" in text:
        outs = json.load(open(outp))
        os.unlink(inp)
        os.unlink(outp)
        return outs, ""
    kind, why = vrf.classify_crash(text)
    if kind != "code" and "fatal error" not in text:
        raise CheckError("the codec harness failed: " + text[-3000:])
    return None, why[:300]


NOTHING = {"enc": [], "decs": [], "early": [], "ncuts": 0, "fault": "", "go": ""}


def run(w, cases):
    outs, why = attempt(w, cases)
    if outs is not None:
        return outs
    # something that cannot be recovered from (memory): find a case that does it
    outs, why = attempt(w, cases, 1)
    if outs is not None:
        return outs
    lo, hi = 0, len(cases)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if attempt(w, cases[lo:mid], 1)[0] is None:
            hi = mid
        else:
            lo = mid
    alone, why1 = attempt(w, [dict(cases[lo], cuts=-1)], 1)
    o = dict(NOTHING, fault=("decoding the first bytes: " if alone is not None else "decoding: ") + (why1 or why))
    return [o if i == lo else NOTHING for i in range(len(cases))]


def judge(w, cases, outs):
    """indices of the cases whose encoding or decodings the specification does not agree to"""
    parts = [[] for _ in range(min(vrf.CPUS, max(1, len(cases) // 20)))]
    order = sorted((i for i in range(len(cases)) if not outs[i]["fault"] and outs[i]["decs"]), key=lambda i: -len(outs[i]["enc"]))
    for j, i in enumerate(order):
        parts[j % len(parts)].append(i)

    def one(part):
        if not part:
            return []
        f = w.path("wt-%d-%d.json" % (part[0], time.time_ns()))
        with open(f, "w") as h:
            json.dump([{"ty": cases[i]["ty"], "v": cases[i]["v"], "enc": outs[i]["enc"], "decs": outs[i]["decs"][:2]} for i in part], h)
        rc, text, st = w.tlc("WireTrace", "WireTrace.cfg", env={"VRF_CASES": f})
        if rc != 0:
            raise CheckError("TLC failed on the encodings: " + text[-3000:])
        os.unlink(f)
        w.states += st[1]
        w.transitions += st[0]
        return [(part[json.loads(m.replace('\\"', '"'))["i"] - 1], json.loads(m.replace('\\"', '"'))["why"])
                for m in re.findall(r"VRF-BAD ((?:[^\"\\]|\\.)*)", text)]
    bad = []
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        for b in ex.map(one, parts):
            bad += b
    w.traces += len(order)
    return bad


def defect(prop, c, o, want=None):
    """what is wrong with the outcome of a case, as far as this property goes; want: the bytes, if known"""
    whole, cut = "", ""
    if o["fault"]:
        if "decoding the first" in o["fault"] or "changed the input" in o["fault"]:
            cut = o["fault"]
        else:
            whole = o["fault"]
    if o["early"] and not cut:
        cut = "%d of %d bytes are taken for a value" % (o["early"][0], len(o["enc"]))

    def off(d):
        if d["next"] < 0:
            return "a complete value is reported as incomplete"
        if d["next"] != len(o["enc"]):
            return "%d bytes used of %d" % (d["next"], len(o["enc"]))
        if d["v"] != c["v"]:
            return "decoded as %s" % json.dumps(d["v"])[:300]
        return ""
    if want is not None and o["enc"] != want and not whole and o["decs"]:
        whole = "encoded as %s" % bytes(o["enc"]).hex()[:300]
    first = [off(d) for d in o["decs"][:2]]
    if any(first) and not whole:
        whole = [x for x in first if x][0]
    later = [off(d) for d in o["decs"][2:]]
    if any(later) and not any(first) and not cut:
        cut = "after more bytes have arrived: " + [x for x in later if x][0]
    return whole if prop == "C19" else cut


class CodecBatch:
    def __init__(self, prop, rnd, families, nrandom):
        self.name, self.prop, self.rnd, self.families, self.n = "codec", prop, rnd, families, nrandom
        self.shown = {}

    def sample(self):
        return self.shown

    def decide(self, w, found, log):
        stats = {}

        def gen(fam):
            rc, text, st = w.tlc("WireGen", "WireGen_%s.cfg" % fam, heap="2g", workers="2")
            got = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'^"VRF-GEN (.*)"$', text, re.M)]
            if rc != 0 or not got:
                raise CheckError("the specification of the encoding does not satisfy its own properties (%s):\n%s" % (fam, text[-2500:]))
            stats[fam] = {"states": st[1], "values": len(got)}
            return got, st
        vecs = []
        with cf.ThreadPoolExecutor(4) as ex:
            for got, st in ex.map(gen, self.families):
                vecs += got
                w.states += st[1]
                w.transitions += st[0]
        vecs.sort(key=lambda c: json.dumps([c["ty"], c["v"]]))
        cases = [around(self.rnd, {"ty": c["ty"], "v": c["v"]}, self.prop) for c in vecs]
        outs = run(w, cases)
        cuts = 0
        for c, o, x in zip(cases, outs, vecs):
            cuts += o["ncuts"]
            d = defect(self.prop, c, o, x["b"])
            if d:
                self.add(found, c, o, d, x["b"])
        w.traces += len(cases)
        n = len(cases)
        rcs = [around(self.rnd, c, self.prop) for c in random_cases(self.rnd, self.n)]
        outs = run(w, rcs)
        bad = dict(judge(w, rcs, outs)) if self.prop == "C19" else {}
        for i, (c, o) in enumerate(zip(rcs, outs)):
            cuts += o["ncuts"]
            d = defect(self.prop, c, o)
            if i in bad:
                if bad[i] == "model":
                    raise CheckError("the specification disagrees with itself about %s" % json.dumps(c)[:1000])
                d = d or "encoded as %s" % bytes(o["enc"]).hex()[:300]
            if d:
                self.add(found, c, o, d, None)
        self.shown = {"type": cases[n // 2]["ty"], "value": cases[n // 2]["v"], "bytes": bytes(vecs[n // 2]["b"]).hex(), "go_types": outs[0]["go"][:200]}
        w.extra = {"families": stats, "values_from_the_model": n, "random_values": len(rcs), "prefixes_decoded": cuts}
        return n + len(rcs)

    def add(self, found, c, o, d, want):
        if len(found) < 3:
            found.append({"batch": "codec", "instr": None, "race": False, "judge": [], "slack": 0, "scenario": None, "position": 0, "journal": None,
                          "why": "type %s, value %s (as %s): %s" % (json.dumps(c["ty"])[:300], json.dumps(c["v"])[:300], o["go"][:300], d),
                          "trace": o, "codec": {"case": c, "want": want}})


def replay(w, f):
    c = f["codec"]["case"]
    o = run(w, [c])[0]
    d = defect(f["property"], c, o, f["codec"]["want"])
    if not d and f["property"] == "C19" and judge(w, [c], [o]):
        d = "encoded as %s" % bytes(o["enc"]).hex()[:300]
    print(("reproduced: " + d) if d else "not reproduced")
    return 1 if d else 0
