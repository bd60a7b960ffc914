"""Machinery shared by the checks: builds the harness against /repo's working tree, runs scenarios on the real
server, turns the journals into traces and has TLC judge them against spec/Trace.tla."""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
CPUS = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """Something is wrong with the check or its environment, not with the code."""


class OutOfTime(CheckError):
    pass



def go_env(race=False):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1" if race else "0")
    e.setdefault("HOME", "/root")
    e.setdefault("PATH", "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def limit_memory():
    """a run that asks for too much memory is to fail by itself"""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Work:
    """A scratch directory and what was built in it."""

    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="vrf-%s-" % tag)
        self.bins = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.notes = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def build(self, race=False, instr=None):
        """go test -c of the package with the harness laid over it; instr: seed of the delay points, or None."""
        key = (race, instr is not None)
        if key in self.bins:
            return self.bins[key]
        rep = {}
        hd = os.path.join(VERIF, "harness")
        for f in sorted(os.listdir(hd)):
            if f.endswith("_test.go"):
                rep[os.path.join(REPO, f)] = os.path.join(hd, f)
        if instr is not None:
            d = self.path("instr")
            os.makedirs(d, exist_ok=True)
            tool = self.path("instrtool")
            p = subprocess.run(["go", "build", "-o", tool, os.path.join(VERIF, "tools", "instr", "main.go")],
                               cwd=self.dir, env=dict(go_env(), GOFLAGS="", GO111MODULE="off"), capture_output=True, text=True)
            if p.returncode:
                raise CheckError("cannot build the instrumenter: " + p.stderr)
            p = subprocess.run([tool, REPO, d], capture_output=True, text=True)
            if p.returncode:
                return self.plain(key, race, "cannot instrument: " + p.stderr)
            for f in sorted(os.listdir(d)):
                rep[os.path.join(REPO, f)] = os.path.join(d, f)
        ov = self.path("overlay%d%d.json" % (race, instr is not None))
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        out = self.path("vrf%d%d.test" % (race, instr is not None))
        cmd = ["go", "test", "-vet=off", "-c", "-o", out, "-overlay", ov]
        if race:
            cmd.append("-race")
        p = subprocess.run(cmd + ["."], cwd=REPO, env=go_env(race), capture_output=True, text=True)
        if p.returncode and instr is not None:
            return self.plain(key, race, "the instrumented code does not build: " + p.stdout + p.stderr)
        if p.returncode:
            raise CheckError("the code does not build with the harness:\n" + p.stdout + p.stderr)
        self.bins[key] = out
        return out

    def plain(self, key, race, why):
        """without delay points, then"""
        self.notes.append(why[:300])
        self.bins[key] = self.build(race, None)
        return self.bins[key]

    # ---------------------------------------------------------------- running

    def run(self, scenarios, procs=None, race=False, instr=None, timeout=500, budget=150):
        """Runs the scenarios, in several processes; returns a journal (list of events) per scenario, empty if it was
        not begun within the budget."""
        binary = self.build(race, instr)
        procs = procs or max(1, min(CPUS - 1, (len(scenarios) + 3) // 4))
        shards = [[] for _ in range(procs)]
        for i in range(len(scenarios)):
            shards[i % procs].append(i)
        journals = [None] * len(scenarios)
        races = []
        start = time.time()

        def work(k):
            idxs = shards[k]
            if not idxs:
                return
            base = tempfile.mkdtemp(prefix="run", dir=self.dir)
            inp, outp = os.path.join(base, "in.json"), os.path.join(base, "out.ndjson")
            with open(inp, "w") as f:
                json.dump([scenarios[i] for i in idxs], f)
            first, tries = 0, 0
            ended = {}
            while first < len(idxs):
                env = go_env(race)
                if time.time() - start > budget:
                    break
                env.update(VRF_BUDGET=str(max(1, int(budget - (time.time() - start)))), VRF_IN=inp, VRF_OUT=outp, VRF_FIRST=str(first), VRF_PORT=str(16000 + 800 * k + (tries % 2) * 400),
                           GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(base, "race"), GOTRACEBACK="all")
                if instr is not None:
                    env["VRF_DELAY"] = str(instr)
                left = timeout - (time.time() - start)
                if left <= 1:
                    raise CheckError("scenarios did not finish in time")
                try:
                    p = subprocess.run([binary, "-test.run", "^TestVrfRun$", "-test.timeout", "0", "-test.v"], cwd=base, env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left, stdin=subprocess.DEVNULL,
                                       preexec_fn=None if race else limit_memory)
                    text, rc = p.stdout.decode("utf8", "replace"), p.returncode
                except subprocess.TimeoutExpired as x:
                    raise CheckError("the harness did not finish in time: " + (x.stdout or b"").decode("utf8", "replace")[-2000:])
                if "VRF-DONE" in text and (rc == 0 or race):
                    break
                # the process died in the scenario begun last
                last = -1
                if os.path.exists(outp):
                    for line in open(outp):
                        try:
                            last = max(last, json.loads(line)["x"])
                        except ValueError:
                            pass
                kind, why = classify_crash(text)
                if kind == "env":
                    tries += 1
                    if tries > 5:
                        raise CheckError("environment: " + why)
                    # run the scenario again
                    if last >= first:
                        drop(outp, last)
                        first = last
                    continue
                if kind == "harness" or last < first:
                    raise CheckError("the harness failed: %s\n%s" % (why[:300], text[:3000]))
                ended[last] = why
                first = last + 1
            per = {}
            if os.path.exists(outp):
                for line in open(outp):
                    try:
                        e = json.loads(line)
                    except ValueError:
                        continue
                    per.setdefault(e["x"], []).append(e)
            for j, i in enumerate(idxs):
                evs = per.get(j, [])
                if j in ended:
                    if not any(e["e"] in ("end", "quiet") for e in evs):
                        evs.append({"e": "crash", "t": evs[-1]["t"] if evs else 0, "why": ended[j]})
                journals[i] = evs
            for f in os.listdir(base):
                if f.startswith("race."):
                    races.append(open(os.path.join(base, f), errors="replace").read())
            shutil.rmtree(base, ignore_errors=True)

        with cf.ThreadPoolExecutor(procs) as ex:
            for f in [ex.submit(work, k) for k in range(procs)]:
                f.result()
        self.races = races
        return journals

    # ---------------------------------------------------------------- judging

    def tlc(self, module, cfg, env=None, args=(), heap="2g", dfs=False, workers="1", timeout=800):
        md = tempfile.mkdtemp(prefix="tlc", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-workers", workers, "-metadir", md, "-noTE", "-config", os.path.join(SPEC, cfg)]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise OutOfTime("TLC did not finish in time on " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        text = p.stdout.decode("utf8", "replace")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if not m:
            m = re.search(r"(\d+) states generated", text)
        st = (int(m.group(1)), int(m.group(2)) if m and m.lastindex > 1 else 0) if m else (0, 0)
        return p.returncode, text, st

    def validate(self, traces, parallel=None):
        """Has TLC judge the traces; returns the rejected ones as (trace, position, event)."""
        if not traces:
            return []
        parallel = parallel or CPUS
        parts = [[] for _ in range(min(parallel, len(traces)))]
        weight = [0] * len(parts)
        for t in sorted(traces, key=lambda t: -len(t["ev"])):
            k = weight.index(min(weight))
            parts[k].append(t)
            weight[k] += len(t["ev"]) + 5

        def one(k):
            f = self.path("traces%d-%d.json" % (k, time.time_ns()))
            with open(f, "w") as h:
                json.dump([{x: t[x] for x in ("id", "judge", "slack", "port", "ev")} for t in parts[k]], h)
            rc, text, st = self.tlc("Trace", "Trace.cfg", env={"VRF_TRACES": f}, dfs=True)
            got = {}
            for m in re.finditer(r'VRF-TRACE ((?:[^"\\]|\\.)*)"?', text):
                v = json.loads(m.group(1).replace('\\"', '"'))
                got[v["id"]] = v
            if rc != 0 or len(got) != len({t["id"] for t in parts[k]}):
                keep = "/tmp/vrf-failed-traces.json"
                shutil.copy(f, keep)
                raise CheckError("TLC failed on the traces (kept as %s):\n%s" % (keep, text[-4000:]))
            os.unlink(f)
            bad = []
            for t in parts[k]:
                v = got[t["id"]]
                if v["reached"] <= v["len"]:
                    bad.append((t, v["reached"]))
            return bad, st

        out = []
        with cf.ThreadPoolExecutor(len(parts)) as ex:
            for bad, st in ex.map(one, range(len(parts))):
                out += bad
                self.transitions += st[0]
                self.states += st[1]
        self.traces += len(traces)
        return out


def drop(path, x):
    lines = open(path).read().splitlines()
    with open(path, "w") as f:
        for ln in lines:
            try:
                if json.loads(ln)["x"] != x:
                    f.write(ln + "\n")
            except ValueError:
                pass


PKG = "github.com/jimsnab/kafka-mock-go."


def is_harness_frame(fn):
    name = fn[len(PKG):]
    return name.startswith("vrf") or name.startswith("(*vrf") or name.startswith("TestVrf")


def classify_crash(text):
    """kind: env (try again), harness (our fault) or code"""
    if "VRF-ENV" in text or "address already in use" in text or "too many open files" in text:
        return "env", text[-500:]
    m = re.search(r"^(panic:.*|fatal error:.*|SIG\w+:.*)$", text, re.M)
    if not m:
        return "harness", text[-2000:]
    head = m.group(1)
    if "harness:" in head:
        return "harness", head
    rest = text[m.end():]
    g = re.search(r"^goroutine \d+.*?:\n(.*?)(?:\n\n|\Z)", rest, re.M | re.S)
    frames = []
    if g:
        for ln in g.group(1).split("\n"):
            if ln.startswith("created by"):
                break
            if ln.startswith(PKG):
                frames.append(ln)
    if frames and is_harness_frame(frames[0]):
        return "harness", head
    top = frames[0].split("(0x")[0] if frames else "?"
    return "code", (head[:300] + " in " + top)


def race_reports(texts):
    """race reports whose two accesses are both made by code of the repository"""
    out = []
    for text in texts:
        for rep in text.split("=================="):
            if "WARNING: DATA RACE" not in rep:
                continue
            stacks = re.split(r"\n(?=(?:Previous |)(?:[Rr]ead|[Ww]rite) at |Goroutine |  Goroutine )", rep)
            tops = []
            for st in stacks:
                if re.match(r"\s*(?:WARNING: DATA RACE\s*)?(?:Previous |)(?:atomic )?(?:[Rr]ead|[Ww]rite) at ", st.strip()) or "WARNING: DATA RACE" in st:
                    fr = [x.strip() for x in st.split("\n") if x.strip().startswith(PKG)]
                    if fr:
                        tops.append(fr[0])
            if len(tops) >= 2 and not any(is_harness_frame(t) for t in tops[:2]):
                out.append((" / ".join(t.split("(0x")[0] for t in tops[:2]), rep.strip()))
    return out


# -------------------------------------------------------------------- journals to traces

BIG = 1000000000


def clamp(v):
    return max(-BIG, min(BIG, v))


class Ranks:
    """Order-preserving renaming of 64-bit values, 0 to 0."""

    def __init__(self):
        self.vals = {0}

    def add(self, *v):
        self.vals.update(v)

    def done(self):
        o = sorted(self.vals)
        z = o.index(0)
        self.map = {v: i - z for i, v in enumerate(o)}

    def __getitem__(self, v):
        return self.map[v]


ALL = ["fetch", "list", "meta", "commit", "ofetch", "coord", "join", "beat", "leave", "sync", "apiv",
       "hold", "late", "net", "res", "wire"]


def to_trace(sc, evs, judge=ALL, slack=4000):
    ts, off = Ranks(), Ranks()
    groups = {}

    def gid(g):
        return groups.setdefault(g, "g%d" % len(groups))

    seen, seents, lists = {}, {}, {}
    resp = {}
    port = 0
    for e in evs:
        if e["e"] == "begin":
            port = e["port"]
        if e["e"] == "recv":
            resp[(e["c"], e["n"])] = e["resp"]
            for en in e["resp"].get("en") or []:
                for p in en["parts"]:
                    for r in p["recs"]:
                        ts.add(r["ts"])
                        seen.setdefault((p["t"], p["q"], r["id"]), r["off"])
                        seents.setdefault((p["t"], p["q"], r["id"]), []).append(r["ts"])
                    ts.add(p["ts"])
                    off.add(p["off"])
                    if e["resp"]["k"] == "list":
                        lists.setdefault((p["t"], p["q"]), set()).add(p["ts"])
    count = {}
    rets = {}
    for e in evs:
        if e["e"] == "call" and e["k"] == "post":
            k = (e["tp"], e["q"], e["id"])
            count[k] = count.get(k, 0) + 1
        if e["e"] == "ret":
            rets[e["p"]] = e
    for e in evs:
        if e["e"] == "call" and e["k"] == "post":
            if "ts" in e:
                e["lo"] = e["hi"] = e["ts"]
            else:
                e["hi"] = rets.get(e["p"], {}).get("hi", e["lo"] + 60000)
                # the time it was posted at is only known from the answers; another record may have the same content
                key = (e["tp"], e["q"], e["id"])
                cand = seents.get(key, [])
                fit = [v for v in cand if e["lo"] <= v <= e["hi"]]
                if not cand:     # never fetched: perhaps a time that an offset listing answered
                    fit = sorted(v for v in lists.get(key[:2], ()) if e["lo"] <= v <= e["hi"])[:1]
                    lists.get(key[:2], set()).difference_update(fit)
                e["ts"] = fit[0] if fit else cand[0] if cand and count[key] == 1 else e["lo"]
            ts.add(e["lo"], e["hi"], e["ts"])
        if e["e"] == "call" and e["k"] == "setoff":
            off.add(e["off"])
        if e["e"] == "send":
            for tg in e["req"].get("tg") or []:
                for x in tg:
                    off.add(x["off"])
                    ts.add(x["ts"])
    ts.done()
    off.done()

    def requ(q):
        k = q["k"]
        o = {"k": k}
        tn = [] if q.get("null") else (q.get("tn") or [])
        tgs = [] if q.get("null") else (q.get("tg") or [])
        if k in ("fetch", "list", "commit", "ofetch"):
            o["tn"] = ["t%d" % t for t in tn]
            o["np"] = [len(x) for x in tgs]
            o["tg"] = []
            for t, x in zip(tn, tgs):
                for p in x:
                    d = {"t": "t%d" % t, "q": p["q"]}
                    if k == "fetch":
                        d["off"], d["max"] = clamp(p["off"]), p["max"]
                    elif k == "list":
                        d["kind"] = "latest" if p["ts"] == -1 else "earliest" if p["ts"] == -2 else "at"
                        d["ts"] = ts[p["ts"]]
                    elif k == "commit":
                        d["off"] = off[p["off"]]
                    o["tg"].append(d)
            if k in ("commit", "ofetch"):
                o["g"] = gid(q["g"])
            if k == "fetch":
                o["wait"] = clamp(q["wait"]) if q["wait"] < 100000000 else 100000000
        elif k == "meta":
            o["null"] = bool(q.get("null"))
            o["tn"] = ["t%d" % t for t in tn]
        return o

    def resps(r):
        if r is None:
            return {"k": "none"}
        k = r["k"]
        o = {"k": k, "wire": r.get("wire", "")}
        if k == "bad":
            o["why"] = r.get("why", "")
            return o
        en = r["en"] or []
        if k in ("fetch", "list", "commit", "ofetch"):
            o["tn"] = [x["t"] for x in en]
            o["np"] = [len(x["parts"]) for x in en]
            o["tg"] = []
            for x in en:
                for p in x["parts"]:
                    d = {"t": p["t"], "q": p["q"], "err": p["err"]}
                    if k == "fetch":
                        d["hw"] = clamp(p["hw"])
                        d["recs"] = [{"off": clamp(z["off"]), "id": z["id"], "ts": ts[z["ts"]]} for z in p["recs"]]
                    elif k == "list":
                        d["off"], d["ts"] = clamp(p["off"]), ts[p["ts"]]
                    elif k == "ofetch":
                        d["off"] = off[p["off"]]
                    o["tg"].append(d)
        elif k in ("meta", "sync"):
            o["err"] = r["err"]
            o["tn"] = [x["t"] for x in en]
            o["en"] = [{"t": x["t"], "err": x["err"], "ps": [{"q": p["q"], "err": p["err"], "ld": p["ld"]} for p in x["parts"]]} for x in en]
            o["brokers"] = [{"id": b["id"], "host": b["host"], "port": b["port"]} for b in r.get("brokers") or []]
        elif k == "coord":
            o["err"] = r["err"]
            o["brokers"] = [{"id": b["id"], "host": b["host"], "port": b["port"]} for b in r["brokers"]]
        elif k == "join":
            o["err"], o["leader"], o["member"] = r["err"], r.get("leader", ""), r.get("member", "")
        elif k in ("beat", "leave"):
            o["err"] = r["err"]
        elif k == "apiv":
            o["err"] = r["err"]
            o["apis"] = [[a["key"], a["min"], a["max"]] for a in r.get("apis") or []]
        return o

    noread = set()
    for th in sc["threads"]:
        for op in th["ops"]:
            if op["o"] == "dial" and op.get("nr"):
                noread.add(op["c"])
    out = []
    for e in evs:
        k = e["e"]
        t = e["t"]
        if k in ("begin", "end"):
            continue
        if k == "call":
            d = {"e": "call", "p": e["p"], "k": e["k"], "t": t}
            if e["k"] == "post":
                key = (e["tp"], e["q"], e["id"])
                at = seen.get(key, -1) + 1 if count[key] == 1 else 0
                d.update(tp=e["tp"], q=e["q"], id=e["id"], kl=e["kl"], vl=e["vl"], at=at, lo=ts[e["lo"]], hi=ts[e["hi"]], ts=ts[e["ts"]])
            elif e["k"] == "mk":
                d.update(tps=e["tps"], q=e["q"])
            elif e["k"] == "setoff":
                d.update(tp=e["tp"], q=e["q"], g=gid(e["g"]), off=off[e["off"]])
        elif k == "ret":
            d = {"e": "ret", "p": e["p"], "k": e["k"], "t": t}
        elif k == "send":
            d = {"e": "send", "c": "c%d" % e["c"], "n": e["n"], "t": t, "req": requ(e["req"]), "resp": resps(resp.get((e["c"], e["n"])))}
        elif k == "recv":
            d = {"e": "recv", "c": "c%d" % e["c"], "n": e["n"], "t": t}
        elif k == "dial":
            d = {"e": "dial", "c": "c%d" % e["c"], "t": t, "nr": e["c"] in noread}
        elif k == "open":
            d = {"e": "open", "c": "c%d" % e["c"], "t": t, "ok": e["ok"]}
        elif k == "close":
            d = {"e": "close", "c": "c%d" % e["c"], "t": t, "how": e["how"]}
        elif k == "eof":
            d = {"e": "eof", "c": "c%d" % e["c"], "t": t, "why": e["why"]}
        elif k == "werr":
            d = {"e": "werr", "c": "c%d" % e["c"], "t": t}
        elif k == "res":
            d = {"e": "res", "t": t, "socks": e["socks"], "gor": e["gor"], "reg": e["reg"], "base": e["base"]}
        elif k in ("up", "quiet", "crash"):
            d = {"e": k, "t": t}
        else:
            raise CheckError("unknown event " + k)
        out.append(d)
    return {"id": sc["id"], "judge": judge, "slack": slack, "port": port, "ev": out, "sc": sc, "raw": evs}


def explain(trace, pos):
    """one line about the event that no behaviour of the specification explains"""
    if pos - 1 >= len(trace["ev"]):
        return "?"
    e = trace["ev"][pos - 1]
    raw = [x for x in trace["raw"] if x["e"] not in ("begin", "end")][pos - 1]
    extra = ""
    if e["e"] == "recv":
        for x in trace["ev"]:
            if x["e"] == "send" and x["c"] == e["c"] and x["n"] == e["n"]:
                extra = " request=%s" % json.dumps(x["req"], ensure_ascii=True)[:600]
    return "scenario %s, event %d of %d: %s%s" % (trace["id"], pos, len(trace["ev"]), json.dumps(raw, ensure_ascii=True)[:900], extra)
