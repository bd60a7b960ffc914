"""The decision procedure: model runs, generated behaviours, real runs, verdicts, evidence."""
import concurrent.futures as cf
import copy
import json
import os
import re
import threading
import time

import props
import vrf
from vrf import CheckError, SEED, TIER, VERIF, Work

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Gen:
    """behaviours from TLC, each configuration run once"""

    def __init__(self, w):
        self.w, self.got, self.mu, self.stats = w, {}, threading.Lock(), {}

    def __call__(self, cfg, num=None, seed=None):
        key = (cfg, num, seed)
        if key in self.got:
            return self.got[key]
        args = []
        if num:
            args = ["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(seed)]
        module = "GenNet" if cfg.startswith("GenNet") else "GenData"
        rc, text, st = self.w.tlc(module, cfg + ".cfg", args=args, heap="3g")
        hs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"VRF-GEN (.*)"$', text, re.M)]
        if rc != 0 or not hs:
            raise CheckError("TLC failed on %s:\n%s" % (cfg, text[-3000:]))
        self.got[key] = hs
        self.stats[cfg] = {"states_generated": st[0], "distinct": st[1], "behaviours": len(hs)}
        return hs


def run_models(w, prop, out):
    """the design model's configurations that bear on a property; see props.MODELS"""
    for item in props.MODELS.get(prop, []):
        kind, name = item.split(":")
        t = time.time()
        if t - START > LIMIT:
            out.append({"cfg": name, "kind": kind, "skipped": "out of time", "states_generated": 0, "distinct_states": 0})
            continue
        try:
            out.append(dict(one_model(w, kind, name), module="ServerMC", kind=kind, wall_s=round(time.time() - t, 1)))
        except vrf.OutOfTime:
            out.append({"cfg": name, "kind": kind, "skipped": "did not finish", "states_generated": 0, "distinct_states": 0})


def one_model(w, kind, name):
    import design
    if kind in ("ok", "bad"):
        cfg = "Server_" + ("bug_" if kind == "bad" else "") + name
        rc, text, st = w.tlc("ServerMC", cfg + ".cfg", heap="6g", workers="7", timeout=props.pick(200, 1500))
        bad = re.search(r"^Error: .*violated", text, re.M)
        if kind == "ok" and rc != 0 or kind == "bad" and not bad:
            raise CheckError("the specification %s (%s):\n%s" % ("does not satisfy its own properties" if kind == "ok" else "lets a mistaken design pass", cfg, text[-3000:]))
        r = {"states_generated": st[0], "distinct_states": st[1]}
        if kind == "bad":
            r["violated"] = bad.group(0)[7:]
    else:
        cfg = "Server_obs_" + ("bug_" if kind == "obsbad" else "") + name
        ts, st = design.traces(w, cfg, props.pick(300 if kind == "obsbad" else 150, 3000), 7 if kind == "obsbad" else props.pick(1, props.SEED))
        n = len(w.validate(ts))
        if kind == "obs" and n or kind == "obsbad" and not n:
            raise CheckError("the trace acceptor %s (%s, %d of %d)" % ("rejects the design" if kind == "obs" else "accepts a mistaken design", cfg, n, len(ts)))
        w.traces -= len(ts)
        r = {"states_generated": st[0], "distinct_states": 0, "behaviours": len(ts), "rejected": n}
    return dict(r, cfg=cfg)


def strip(ev):
    return ev


def timing_only(w, trace, pos):
    """would the trace be accepted if nothing had to happen by any time?"""
    t = dict(trace, judge=[j for j in trace["judge"] if j != "late"], slack=10 ** 8)
    return not w.validate([t])


START = time.time()
LIMIT = props.pick(600, 3000)      # seconds: no run is begun after that


def stalled(evs):
    return max([e.get("stall", 0) for e in evs] + [0]) > 700


def decide_batch(w, batch, found, log):
    total = 0
    for instr in batch.instr:
        if time.time() - START > LIMIT:
            log.append("%s: not run with delay seed %s, out of time" % (batch.name, instr))
            continue
        scs = batch.scs
        kw = dict(race=batch.race, instr=instr, timeout=batch.timeout)
        t0 = time.time()
        journals = w.run(scs, procs=batch.procs, budget=batch.budget, **kw)
        if os.environ.get("VRF_V"):
            print("ran %s %s: %d in %.1f s" % (batch.name, instr, len(scs), time.time() - t0))
        races = list(w.races)
        if hasattr(batch, "inspect"):
            batch.inspect(w, batch, scs, journals, instr, found)
        traces, retry, unrun = [], [], 0
        for i, (sc, evs) in enumerate(zip(scs, journals)):
            if not evs:
                unrun += 1
            elif stalled(evs):
                retry.append(i)
            else:
                traces.append(vrf.to_trace(sc, evs, batch.judge, batch.slack))
        for _ in range(2):      # the machine stalled: those runs are not judged but repeated
            if not retry:
                break
            js = w.run([scs[i] for i in retry], procs=min(3, len(retry)), budget=60, **kw)
            races += w.races
            again = []
            for i, evs in zip(retry, js):
                if not evs or stalled(evs):
                    again.append(i)
                else:
                    traces.append(vrf.to_trace(scs[i], evs, batch.judge, batch.slack))
            retry = again
        if retry:
            log.append("%s: %d runs not judged, the machine stalled" % (batch.name, len(retry)))
        if unrun:
            log.append("%s: %d of %d runs not begun, out of time" % (batch.name, unrun, len(scs)))
        if not traces:
            raise CheckError("no run of %s could be judged" % batch.name)
        total += len(traces)
        t0 = time.time()
        bad = w.validate(traces)
        if os.environ.get("VRF_V"):
            print("validated %d in %.1f s" % (len(traces), time.time() - t0))
        real = set()
        for tr, pos in bad:
            why = vrf.explain(tr, pos)
            ev = tr["ev"][pos - 1]["e"] if pos <= len(tr["ev"]) else "?"
            if timing_like(w, tr, pos, ev):
                # a matter of time: it has to happen again
                if not confirm(w, batch, instr, tr):
                    log.append("not confirmed: " + why)
                    real.add(tr["id"])
                    continue
            real.add(tr["id"])
            found.append({"batch": batch.name, "instr": instr, "race": batch.race, "judge": batch.judge, "slack": batch.slack,
                          "why": why, "scenario": tr["sc"], "trace": tr["ev"], "position": pos, "journal": tr["raw"]})
            if len(found) >= 2:
                break
        # a run that came to a standstill although the specification did not call for anything tells nothing
        for tr in traces:
            if tr["id"] not in real and any(e["e"] == "quiet" for e in tr["ev"]):
                log.append("%s: inconclusive: %s" % (tr["id"], [e for e in tr["raw"] if e["e"] == "quiet"]))
        if batch.race:
            for head, rep in vrf.race_reports(races)[:1]:
                found.append({"batch": batch.name, "instr": instr, "race": True, "judge": batch.judge, "slack": batch.slack,
                              "why": "data race: " + head, "scenario": None, "trace": rep, "position": 0, "journal": None})
        if found:
            break
    return total


def timing_like(w, tr, pos, ev):
    if ev in ("quiet", "res", "eof"):
        return True
    return timing_only(w, tr, pos)


def confirm(w, batch, instr, tr):
    for _ in range(3):
        js = w.run([copy.deepcopy(tr["sc"])], procs=1, race=batch.race, instr=instr, timeout=200)
        if stalled(js[0]):
            continue
        t2 = vrf.to_trace(tr["sc"], js[0], batch.judge, batch.slack)
        if w.validate([t2]):
            return True
    return False


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main(argv):
    prop = argv[0]
    t0 = time.time()
    w = Work(prop)
    found, log, models = [], [], []
    try:
        if len(argv) > 2 and argv[1] == "--replay":
            return replay(w, argv[2])
        gen = Gen(w)
        batches = props.PROPS[prop](gen)
        only = os.environ.get("VRF_ONLY")
        per = {}
        scenarios = 0
        for b in batches:
            if only and b.name not in only.split(","):
                continue
            tb = time.time()
            if callable(getattr(b, "decide", None)):
                n = b.decide(w, found, log)
            else:
                n = decide_batch(w, b, found, log)
                scenarios += len(b.scs)
            per[b.name] = {"traces": n, "wall_s": round(time.time() - tb, 1)}
            if found:
                break
        if not found and not only:
            run_models(w, prop, models)
        ms = sum(m["distinct_states"] or m["states_generated"] for m in models)
        mt = sum(m["states_generated"] for m in models)
        gs = sum(g["distinct"] for g in gen.stats.values())
        gt = sum(g["states_generated"] for g in gen.stats.values())
        cov = {
            "states": ms + gs + w.states,
            "transitions": mt + gt + w.transitions,
            "traces_validated_against_impl": w.traces,
            "samples": sample_of(batches),
            "design_models": models,
            "generated_behaviours": gen.stats,
            "trace_acceptor": {"states": w.states, "transitions": w.transitions},
            "batches": per,
            "programs": scenarios,
        }
        cov.update(getattr(w, "extra", {}))
        log.extend(w.notes)
        if log:
            cov["notes"] = [x[:400] for x in log]
        ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": props.ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(found)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for x in log:
            print("note: " + x[:600])
        if found:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, f in enumerate(found[:3]):
                p = os.path.join(d, "%s-%d.json" % (prop, i))
                with open(p, "w") as h:
                    json.dump(dict(f, property=prop), h)
                if i == 0:
                    print("VIOLATION property=%s replay=%s" % (prop, p))
                print("  " + f["why"][:1500])
            return 1
        print("property %s held: %d programs, %d traces, %d+%d+%d states, %.0f s" % (prop, scenarios, w.traces, ms, gs, w.states, time.time() - t0))
        return 0
    finally:
        w.close()


def sample_of(batches):
    out = []
    for b in batches:
        scs = getattr(b, "scs", None)
        if scs:
            s = scs[0]
            out.append({"batch": b.name, "scenario": s["id"], "threads": len(s["threads"]), "first_operations": s["threads"][0]["ops"][:6]})
        elif hasattr(b, "sample"):
            out.append(b.sample())
    return json.loads(json.dumps(out)[:20000]) if len(json.dumps(out)) < 20000 else out[:1]


def replay(w, path):
    f = json.load(open(path))
    if f.get("codec"):
        import codec_check
        return codec_check.replay(w, f)
    if not f.get("scenario"):
        print(f["why"])
        print(f.get("trace"))
        return 1
    for _ in range(10):
        js = w.run([f["scenario"]], procs=1, race=f["race"], instr=f["instr"], timeout=200)
        if f.get("frames"):
            import frames
            fs = [x for x in frames.frames_of(f["scenario"], js[0]) if len(x[2]) <= frames.LIMIT]
            for i, why in frames.judge(w, fs):
                print("reproduced: %s in %s" % (why, fs[i][2].hex()[:600]))
                return 1
            continue
        t = vrf.to_trace(f["scenario"], js[0], f["judge"], f["slack"])
        bad = w.validate([t])
        if bad:
            print("reproduced: " + vrf.explain(*bad[0]))
            return 1
    print("not reproduced in 10 runs; the recorded run: " + f["why"])
    return 0
