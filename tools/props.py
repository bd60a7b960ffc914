"""What each check runs: the scenarios of every property, drawn from behaviours that TLC generates from the
specification (spec/GenData.tla, spec/GenNet.tla) and from seeded random programs."""
from scen import *  # noqa: F401,F403
import codec_check
import frames
import scen
from vrf import SEED, TIER

THOROUGH = TIER == "thorough"


class Batch:
    """scenarios that are run together; instr: list of delay seeds (one run each), [None] for the plain build"""

    def __init__(self, name, scs, judge, instr=(None,), race=False, procs=None, slack=4000, timeout=600, budget=None):
        self.name, self.scs, self.judge = name, scs, judge
        for i, sc in enumerate(scs):
            sc["high"] = i % 3 == 1
        self.instr, self.race, self.procs, self.slack, self.timeout = instr, race, procs, slack, timeout
        self.budget = budget or pick(110, 400)      # seconds


def pick(quick, thorough):
    return thorough if THOROUGH else quick


TAIL = STOP


# ---------------------------------------------------------------- behaviours generated by TLC

class Binding:
    """A random choice of real names, partitions, groups and times for the names of a generated behaviour."""

    def __init__(self, rnd, tbase, nt=2):
        self.t = [tbase + i for i in range(nt)]
        self.q = rnd.sample(PARTS[:6] + [1, 0], 3) if rnd.random() < 0.7 else rnd.sample(PARTS, 3)
        while len(set(self.q)) < 3:
            self.q = rnd.sample(PARTS, 3)
        self.g = rnd.sample(GROUPS, 3)
        self.time0, self.step = rnd.choice([(1000, 1), (1700000000000, 1000), (0, 1), (-10000, 700), (4102444800000, 86400000), (2 ** 32 - 2, 1), (5, 1)])
        # the model's offsets -1..4
        self.off = rnd.choice([
            {-1: -1, 0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5}, {-1: -1, 0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5},
            {-1: -5, 0: 0, 1: 100, 2: 200, 3: 300, 4: 400, 5: 500},
            {-1: -2 ** 63, 0: -1, 1: 0, 2: 2 ** 31, 3: 2 ** 32, 4: 2 ** 63 - 2, 5: 2 ** 63 - 1},
            {-1: -1, 0: 0, 1: 2 ** 31 - 1, 2: 2 ** 31, 3: 2 ** 32 - 1, 4: 2 ** 32, 5: 2 ** 40}])

    def ts(self, v):
        return v if v < 0 else self.time0 + v * self.step


def bind(hist, b, c, rnd, seq, scrib=False):
    """the operations of one behaviour"""
    out = []
    for o in hist:
        k = o["o"]
        if k == "post":
            cl = o["c"]
            seq[0] += 1
            out.append(post(b.t[o["t"]], b.q[o["q"]], cl["kl"], cl["vl"], seq[0], b.ts(cl["ts"]), sc=scrib))
        elif k == "mk":
            out.append(mk([b.t[o["t"]]], b.q[o["q"]]))
        elif k == "setoff":
            out.append(setoff(b.t[o["t"]], b.q[o["q"]], b.g[o["g"]], b.off[o["v"]]))
        elif k == "commit":
            tg = [(b.t[x["t"]], b.q[x["q"]], b.off[x["v"]]) for x in o["tg"]]
            rnd.shuffle(tg)
            out += ask(c, commit(b.g[o["g"]], tg, md=rnd.choice(["", "", "m" * 40])))
        elif k == "fetch":
            out += ask(c, fetch([(b.t[o["t"]], b.q[o["q"]], o["off"], o["max"])], wait=0))
        elif k == "list":
            out += ask(c, lst([(b.t[o["t"]], b.q[o["q"]], b.ts(o["ts"]))]))
        elif k == "ofetch":
            out += ask(c, ofetch(b.g[o["g"]], [(b.t[t], b.q[q]) for t, q in o["tp"]]))
        elif k == "meta":
            out += ask(c, meta() if o["all"] else meta(list(b.t)))
        elif k == "sync":
            out += ask(c, sync())
        elif k == "restart":
            out += [close(c), op("restart"), dial(c + 1000)]
            c += 1000
        else:
            raise ValueError(k)
    return out, c


def pack(prefix, hists, per, rnd, after, nt=2, scrib=False):
    """several behaviours per scenario, each on topics of its own"""
    out = []
    hists = list(hists)
    for i in range(0, len(hists), per):
        part = hists[i:i + per]
        sc = Sc("%s%d" % (prefix, i // per), names(rnd, nt * len(part)))
        ops = [START, dial(1)]
        seq = [0]
        c = 1
        for j, h in enumerate(part):
            b = Binding(rnd, nt * j, nt)
            o, c = bind(h, b, c, rnd, seq, scrib and rnd.random() < 0.5)
            ops += o
            ops += after(b, c, rnd, h)
        out.append(sc.th("m", *ops, close(c), TAIL).done())
    return out


def sample(rnd, xs, n):
    return xs if len(xs) <= n else rnd.sample(xs, n)


# ---------------------------------------------------------------- random programs

def rsize(rnd, big=0.0):
    if rnd.random() < big:
        return rnd.choice(BIGSIZES) + rnd.choice([0, 0, -1, 1, 3])
    return rnd.choice(SIZES) if rnd.random() < 0.7 else rnd.randrange(0, 400)


def rkey(rnd):
    return -1 if rnd.random() < 0.25 else rnd.choice([0, 1, 3, 10, 40, 127, 128, 300]) if rnd.random() < 0.6 else rnd.randrange(0, 80)


class Logs:
    """builds posts and remembers record sizes, so that limits can be chosen around them"""

    def __init__(self, rnd):
        self.rnd, self.sz, self.n = rnd, {}, 0

    def post(self, t, q, big=0.0, kl=None, vl=None, at=None, simple=0.2, scrib=0.3):
        r = self.rnd
        self.n += 1
        kl = rkey(r) if kl is None else kl
        vl = (-1 if r.random() < 0.1 else rsize(r, big)) if vl is None else vl
        if at is None and r.random() >= simple:
            at = r.choice(TIMES) if r.random() < 0.5 else r.randrange(1, 10 ** 13)
        self.sz.setdefault((t, q), []).append(34 + max(kl, 0) + max(vl, 0))
        return post(t, q, kl, vl, self.n, at, sc=r.random() < scrib)

    def count(self, t, q):
        return len(self.sz.get((t, q), []))

    def limit(self, t, q, off):
        """a limit at, just below or just above the size of a run from off"""
        L = self.sz.get((t, q), [])
        off = max(0, min(off, len(L)))
        k = self.rnd.choice([0, 1, 1, 2, 3, len(L)])
        return sum(L[off:off + k]) + self.rnd.choice([-1, 0, 0, 1, 5])

    def offset(self, t, q, neg=0.05):
        n = self.count(t, q)
        r = self.rnd.random()
        if r < neg:
            return self.rnd.choice([-1, -2, -2 ** 63, -2 ** 31])
        if r < neg + 0.15:
            return self.rnd.choice([n, n + 1, n + 2, 2 ** 31, 2 ** 32, 2 ** 63 - 1])
        return self.rnd.randrange(0, n + 1)


def allow(*xs):
    return list(xs)


# ---- behaviours of the life cycle and of connections (spec/GenNet.tla) ---------------------------

def netbind(sid, hist, r, res_=True, delays=(0, 0, 0, 30, 800)):
    """one generated behaviour as a program: the data is one partition (0, 2), which exists from the beginning"""
    big = any(o["o"] == "stuck" for o in hist)
    sc = Sc(sid, names(r, 2))
    sd = [0]
    g = r.choice(GROUPS)
    early = r.random() < 0.5
    ops = [mk([0, 1], 2)] if early else []
    made = early
    link = {}           # connection of the behaviour -> the one in the program, its state
    nconn = [0]
    amount = 0
    eofs = []
    nxt = {"start": None}
    based = False
    linger = False

    def lower():
        for x in link.values():
            if x["st"] not in ("none", "gone"):
                x["st"] = "dead"
    phase = "down"
    for i, o in enumerate(hist):
        k = o["o"]
        after = hist[i + 1]["o"] if i + 1 < len(hist) else "ask"
        if k == "start":
            ops.append(op("start"))
            if after not in ("stop", "wait", "restart", "finish", "post", "set") or r.random() < 0.5:
                ops.append(op("up"))
                if not based and res_:
                    ops.append(BASE)
                    based = True
            phase = "up"
            lower()
            if not made:
                ops.append(mk([0, 1], 2))
                made = True
        elif k in ("stop", "wait", "restart", "finish"):
            if k in ("finish", "stop", "restart") and any(x["st"] in ("held", "queue", "half") for x in link.values()):
                ops.append(sleep(r.choice(delays)))
            ops.append(op(k))
            if k != "finish" or phase == "up":
                lower()
            phase = {"stop": "down" if phase == "down" else "stopping", "wait": "down", "restart": "up", "finish": "finishing" if phase == "up" else phase}[k]
            if k == "restart" and not made:
                ops.append(mk([0, 1], 2))
                made = True
        elif k == "post":
            if not made:
                ops.append(mk([0, 1], 2))
                made = True
            sd[0] += 1
            ops.append(post(0, 2, r.choice([-1, 0, 5]), 600000 if big else r.choice([0, 8, 100]), sd[0], r.choice([5, 7, 1700000000000])))
            amount += 1
            linger = False
            for x in o["woken"]:
                ops.append(await_(link[x]["c"]))
                link[x]["st"] = "open"
            for x in o["ended"]:
                ops += [eof(link[x]["c"]), close(link[x]["c"])]
                link[x]["st"] = "gone"
        elif k == "set":
            ops.append(setoff(0, 2, g, o["v"]))
        elif k == "dial":
            nconn[0] += 1
            link[o["c"]] = {"c": nconn[0], "st": "open" if o["ok"] else "dead"}
            ops.append(dial(nconn[0]))
            if not o["ok"] and r.random() < 0.7:
                ops.append(send(nconn[0], r.choice([[APIV], [fetch([(0, 2, 0, MAXI)], wait=9000)], [commit(g, [(0, 2, 7)])], [APIV, lst([(0, 2, -1)])]])))
        elif k == "stuck":
            nconn[0] += 1
            link[o["c"]] = {"c": nconn[0], "st": "stuck"}
            ops += [dial(nconn[0], nr=True, bs=4096), send(nconn[0], [fetch([(0, 2, 0, MAXI)])] * r.choice([20, 40])), sleep(r.choice([0, 5, 100]))]
        else:
            x = link[o["c"]]
            c = x["c"]
            if k == "ask":
                ops += ask(c, r.choice([[lst([(0, 2, -1)])], [fetch([(0, 2, 0, MAXI)])], [APIV, ofetch(g, [(0, 2)])], [meta()], [sync(), join()], [lst([(0, 2, -1)])] * 5]))
            elif k == "commit":
                ops += ask(c, commit(g, [(0, 2, o["v"])]))
            elif k == "hold":
                tg = [(0, 2, amount, MAXI)] + r.choice([[], [(1, 2, 0, MAXI)], [(1, 7, 0, MAXI)]])
                r.shuffle(tg)
                ops.append(send(c, fetch(tg, wait=r.choice([9000, 30000, 2 ** 31 - 1]))))
                x["st"] = "held"
                if r.random() < 0.3:
                    ops.append(sleep(r.choice([1, 30])))
            elif k == "queue":
                ops.append(send(c, r.choice([[APIV], [lst([(0, 2, -1)]), fetch([(0, 2, 0, MAXI)])], [fetch([(0, 2, 0, MAXI)]), APIV, APIV], [commit(g, [(0, 2, 0)])]])))
                x["st"] = "queue"
            elif k == "part":
                ops.append(send(c, r.choice([[APIV], [lst([(0, 2, -1)])], [APIV, fetch([(0, 2, 0, MAXI)])], [commit(g, [(0, 2, 0)])]]), ct=r.choice([1, 1, 2, 5, 8])))
                x["st"] = "part"
            elif k == "rest":
                ops += [rest(c), await_(c)]
                x["st"] = "open"
            elif k == "half":
                ops.append(close(c, "half"))
                x["st"] = "half"
            elif k in ("fin", "rst"):
                ops.append(close(c, k))
                linger = linger or x["st"] in ("held", "queue", "half")     # its fetch may use up its wait
                x["st"] = "gone"
            else:
                raise ValueError(k)
    nr = {o["c"] for o in ops_flat(ops) if o["o"] == "dial" and o.get("nr")}
    stay = [x["c"] for x in link.values() if x["st"] not in ("none", "gone")]
    dead = [x["c"] for x in link.values() if x["st"] == "dead"]
    live = [x for x in link.values() if x["st"] not in ("none", "gone", "dead")]
    if phase == "up":
        if res_ and not dead and not linger and not any(x["st"] in ("half", "stuck") for x in live) and based and r.random() < 0.7:
            ops.append(res(len(live), True))
    elif phase == "down" and res_:
        ops.append(res(0, False))
    ops += [eof(c) for c in dead if c not in nr]
    if phase != "up":
        ops += r.choice([[op("restart")], [op("stop"), op("wait"), START]])
        ops += [eof(c) for c in stay if c not in nr and c not in dead]
    if not made:
        ops.append(mk([0, 1], 2))
    ops += [dial(900), probe(900, [0, 1], [2], [g], times=(5, 6)), close(900)]
    if phase == "up" and r.random() < 0.5:
        ops += [close(c) for c in stay]
        stay = []
        if res_ and based:
            sd[0] += 1
            ops.append(post(0, 2, 3, 8, sd[0], 5))      # ends the fetches of those who are gone
            ops.append(res(0, True))
    ops += [TAIL, [eof(c) for c in stay if c not in nr], [close(c) for c in stay]]
    if res_:
        ops.append(res(0, False))
    return sc.th("m", *ops).done()


def ops_flat(x):
    if isinstance(x, dict):
        return [x]
    return [z for y in x if y is not None for z in ops_flat(y)]


def net(gen, cfg, prefix, n, r, keep=lambda h: True, **kw):
    hs = [h for h in gen(cfg) if keep(h)]
    return [netbind("%s%d" % (prefix, i), h, r, **kw) for i, h in enumerate(sample(r, hs, n))]


def last(*ks):
    return lambda h: h[-1]["o"] in ks


def anywhere(*ks):
    return lambda h: any(o["o"] in ks for o in h)


# ---- C01 ---------------------------------------------------------------------------------------

def c01(gen):
    r = rng(SEED, "C01")

    def after(b, c, rnd, h):
        n = sum(1 for o in h if o["o"] == "post")
        rq = [fetch([(b.t[0], b.q[0], o, MAXI)]) for o in range(0, n + 2)]
        rnd.shuffle(rq)
        rq.append(fetch([(b.t[0], b.q[0], 0, 60)]))
        return [send(c, rq), await_(c)]
    scs = pack("cover", sample(r, gen("GenLog"), pick(160, 340)), 8, r, after, nt=1, scrib=True)
    if THOROUGH:
        scs += pack("deep", sample(r, gen("GenLogDeep"), 2500), 8, r, after, nt=1, scrib=True)
    for i in range(pick(24, 120)):
        L = Logs(r)
        nt, qs = r.choice([1, 2, 3]), r.sample(PARTS, r.choice([1, 2]))
        sc = Sc("rand%d" % i, names(r, nt))
        ops = [START, dial(1), dial(2)]
        for _ in range(pick(60, 90)):
            t, q = r.randrange(nt), r.choice(qs)
            if r.random() < 0.45:
                ops.append(L.post(t, q, big=0.05))
            else:
                off = L.offset(t, q)
                mx = MAXI if r.random() < 0.6 else L.limit(t, q, off)
                ops += ask(r.choice([1, 2]), fetch([(t, q, off, mx)]))
        for t in range(nt):
            for q in qs:
                for _ in range(2):
                    ops += ask(r.choice([1, 2]), fetch([(t, q, 0, MAXI)]))
        scs.append(sc.th("m", *ops, close(1), close(2), TAIL).done())
    # long logs, paged through
    for i, n in enumerate(pick([1100, 300], [5000, 1100, 300, 1100])):
        L = Logs(r)
        sc = Sc("long%d" % i, names(r, 1))
        ops = [START, dial(1)]
        for _ in range(n):
            ops.append(L.post(0, 2, kl=r.choice([-1, 0, 5]), vl=r.randrange(0, 24), scrib=0.1))
        pos = 0
        while pos < n:
            step = r.randrange(20, 200)
            ops += ask(1, fetch([(0, 2, pos, sum(L.sz[(0, 2)][pos:pos + step]))]))
            pos += step
        for _ in range(10):
            ops += ask(1, fetch([(0, 2, r.randrange(n), 3000)]))
        ops += ask(1, fetch([(0, 2, 0, MAXI)]))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # reading while posting
    for i in range(pick(8, 40)):
        L = Logs(r)
        sc = Sc("tail%d" % i, names(r, 1))
        sc.th("m", START, barrier(1, 4), [L.post(0, 2, at=r.choice(TIMES)) for _ in range(40)], barrier(2, 4), TAIL)
        for c in (1, 2, 3):
            ops = [barrier(1, 4), dial(c)]
            for k in range(25):
                ops += ask(c, fetch([(0, 2, r.choice([0, k, 2 * k, r.randrange(40)]), r.choice([MAXI, 300, 1000]))], wait=r.choice([0, 30, 100])))
            sc.th("c%d" % c, *ops, close(c), barrier(2, 4))
        scs.append(sc.done())
    return [Batch("logs", scs, allow("fetch"), instr=pick((None,), (None, SEED)))]


# ---- C02 ---------------------------------------------------------------------------------------

def c02(gen):
    r = rng(SEED, "C02")
    scs = []
    for i in range(pick(18, 80)):
        L = Logs(r)
        nth = r.choice([2, 3, 4])
        rounds = r.choice([2, 3])
        sc = Sc("first%d" % i, names(r, 2 * rounds))
        nb = nth + 1
        # a reader asks for the log end while the posts are going on, and for everything after
        rd = [START, dial(1)]
        posters = [[] for _ in range(nth)]
        for k in range(rounds):
            ts = [2 * k, 2 * k + 1]
            qs = r.sample(PARTS, r.choice([1, 1, 2]))
            rd.append(barrier(10 * k + 1, nb))
            for _ in range(r.choice([2, 4, 8])):
                t = r.choice(ts)
                rd += ask(1, r.choice([lst([(t, q, -1) for q in qs]), fetch([(t, q, 0, MAXI) for q in qs])]))
            rd.append(barrier(10 * k + 2, nb))
            tp = [(t, q) for t in ts for q in qs]
            rd += ask(1, lst([(t, q, -1) for t, q in tp]))
            rd += ask(1, fetch([(t, q, 0, MAXI) for t, q in tp]))
            for p in range(nth):
                posters[p].append(barrier(10 * k + 1, nb))
                for _ in range(r.choice([1, 2, 3])):
                    x = r.random()
                    if x < 0.2:
                        posters[p].append(mk(r.choice([ts, ts[:1], ts[1:], ts + ts]), r.choice(qs)))
                    else:
                        posters[p].append(L.post(r.choice(ts), r.choice(qs), kl=8, scrib=0))
                posters[p].append(barrier(10 * k + 2, nb))
        sc.th("m", *rd, close(1), TAIL)
        for p in range(nth):
            sc.th("p%d" % p, *posters[p])
        scs.append(sc.done())
    # post, then at once ask, on connections of their own
    seqs = []
    for i in range(pick(8, 30)):
        L = Logs(r)
        sc = Sc("after%d" % i, names(r, 2))
        sc.th("m", START, barrier(1, 4), barrier(2, 4), TAIL)
        for p in (1, 2, 3):
            ops = [barrier(1, 4), dial(p)]
            for _ in range(10):
                t, q = r.randrange(2), r.choice([0, 1])
                ops.append(L.post(t, q, kl=9, scrib=0))
                ops += ask(p, r.choice([lst([(t, q, -1)]), fetch([(t, q, 0, MAXI)]), lst([(t, q, -1), (1 - t, q, -1)])]))
                if r.random() < 0.2:
                    ops.append(mk([0, 1], q))
            sc.th("p%d" % p, *ops, close(p), barrier(2, 4))
        seqs.append(sc.done())

    def after(b, c, rnd, h):
        tp = [(t, q) for t in b.t for q in b.q[:2]]
        return ask(c, lst([(t, q, -1) for t, q in tp])) + ask(c, fetch([(t, q, 0, MAXI) for t, q in tp]))
    topo = pack("topo", sample(r, gen("GenTopo"), pick(80, 540)), 8, r, after)
    j = allow("fetch", "list")
    return [Batch("first", scs, j, instr=pick((SEED, SEED + 1000, SEED + 2000, None), tuple([None] + [SEED + 1000 * k for k in range(12)]))),
            Batch("after", seqs, j, instr=pick((None, SEED), (None, SEED, SEED + 1000))), Batch("topo", topo, j)]


# ---- C03 ---------------------------------------------------------------------------------------

def c03(gen):
    r = rng(SEED, "C03")
    scs = []
    for i in range(pick(40, 200)):
        L = Logs(r)
        nt = r.choice([2, 3, 4])
        qs = r.sample(PARTS, r.choice([2, 3, 4]))
        sc = Sc("many%d" % i, names(r, nt + 1))
        ops = [START, dial(1)]
        tps = [(t, q) for t in range(nt) for q in qs]
        for t, q in tps:
            x = r.random()
            if x < 0.15:
                continue
            if x < 0.3:
                ops.append(mk([t], q))
                continue
            for _ in range(r.choice([1, 2, 3, 5])):
                ops.append(L.post(t, q, big=0.02, scrib=0))
        for _ in range(pick(14, 30)):
            tg = []
            for _ in range(r.choice([1, 2, 3, 4, 6, 9])):
                t, q = r.choice(tps)
                if r.random() < 0.1:
                    t = nt                                    # unknown topic
                if r.random() < 0.1:
                    q = r.choice(PARTS)                       # perhaps an unknown partition
                off = L.offset(t, q)
                tg.append((t, q, off, MAXI if r.random() < 0.4 else L.limit(t, q, off)))
            ops += ask(1, fetch(tg, wait=r.choice([0, 0, 20])))
            if r.random() < 0.3:
                t, q = r.choice(tps)
                ops.append(L.post(t, q, scrib=0))
        # every subset position: one partition with data among empty and unknown ones, with a long wait: never withheld
        for _ in range(4):
            withd = [x for x in tps if L.count(*x)]
            if not withd:
                break
            t, q = r.choice(withd)
            tg = [(x[0], x[1], L.count(*x), MAXI) for x in r.sample(tps, r.randrange(1, min(5, len(tps))))]
            tg += [(nt, 0, 0, MAXI)] if r.random() < 0.5 else []
            tg.insert(r.randrange(len(tg) + 1), (t, q, r.randrange(L.count(t, q)), MAXI))
            ops += ask(1, fetch(tg, wait=9000))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # a held fetch over several partitions is woken by a record in any one of them
    for i in range(pick(6, 30)):
        L = Logs(r)
        sc = Sc("wake%d" % i, names(r, 3))
        tps = [(t, q) for t in range(3) for q in (0, 5)]
        pre = [L.post(t, q, scrib=0) for t, q in tps for _ in range(r.randrange(0, 2))] + [mk([0, 1, 2], 0), mk([0, 1, 2], 5)]
        ops = [START, pre, dial(1)]
        for k in range(5):
            tg = [(t, q, L.count(t, q), MAXI) for t, q in r.sample(tps, r.randrange(2, 7))]
            t, q = r.choice(tg)[:2]
            ops += [send(1, fetch(tg, wait=9000)), sleep(r.choice([0, 5, 30, 60])), L.post(t, q, scrib=0), await_(1)]
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    return [Batch("many", scs, allow("fetch", "late"))]


# ---- C04 ---------------------------------------------------------------------------------------

def c04(gen):
    r = rng(SEED, "C04")

    def after(b, c, rnd, h):
        # the sizes of the posted records, and every run of them, one byte less and one more
        sz = [34 + max(0, o["c"]["kl"]) + max(0, o["c"]["vl"]) for o in h if o["o"] == "post"]
        rq = []
        for off in range(len(sz)):
            for k in range(0, len(sz) - off + 1):
                s = sum(sz[off:off + k])
                for d in (-1, 0, 1):
                    rq.append(fetch([(b.t[0], b.q[0], off, s + d)], wait=9000))
        if len(rq) > 24:
            rq = rnd.sample(rq, 24)
        return [send(c, rq), await_(c)]
    scs = pack("cover", sample(r, gen("GenLog"), pick(120, 340)), 8, r, after, nt=1)
    if THOROUGH:
        scs += pack("deep", sample(r, gen("GenLogDeep"), 1500), 8, r, after, nt=1)
    for i in range(pick(16, 100)):
        L = Logs(r)
        sc = Sc("limits%d" % i, names(r, 2))
        ops = [START, dial(1)]
        for _ in range(r.choice([3, 8, 15])):
            for t in (0, 1):
                ops.append(L.post(t, 2, big=0.3 if i % 3 == 0 else 0.03, scrib=0))
        for _ in range(30):
            x = r.random()
            if x < 0.6:
                tg = []
                for t in r.choice([[0], [1], [0, 1], [1, 0]]):
                    off = r.randrange(0, L.count(t, 2))
                    tg.append((t, 2, off, L.limit(t, 2, off)))
                ops += ask(1, fetch(tg, wait=9000))
            elif x < 0.8:
                t = r.randrange(2)
                off = r.randrange(0, L.count(t, 2))
                for mx in (r.choice([0, -1, -2 ** 31, 1, 33, L.sz[(t, 2)][off] - 1]), L.sz[(t, 2)][off], MAXI):
                    ops += ask(1, fetch([(t, 2, off, mx)], wait=9000))
            else:
                # a record arrives that does not fit while the fetch is held
                t = r.randrange(2)
                ops += [send(1, fetch([(t, 2, L.count(t, 2), r.choice([0, 10, 40, 90]))], wait=9000)), sleep(r.choice([0, 10, 30])),
                        L.post(t, 2, vl=60, scrib=0), await_(1)]
                ops += ask(1, fetch([(t, 2, L.count(t, 2) - 1, MAXI)], wait=9000))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # long runs, around every boundary of the sum
    for i in range(pick(2, 8)):
        L = Logs(r)
        sc = Sc("run%d" % i, names(r, 1))
        ops = [START, dial(1)]
        n = r.choice([40, 150, 400])
        for _ in range(n):
            ops.append(L.post(0, 0, kl=r.choice([-1, 3]), vl=r.randrange(0, 40), scrib=0))
        for _ in range(40):
            off = r.randrange(n)
            k = r.randrange(0, n - off + 1)
            ops += ask(1, fetch([(0, 0, off, sum(L.sz[(0, 0)][off:off + k]) + r.choice([-1, 0, 1]))], wait=9000))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    return [Batch("limits", scs, allow("fetch", "late"))]


# ---- C05 ---------------------------------------------------------------------------------------

def c05(gen):
    r = rng(SEED, "C05")
    scs = []
    for i in range(pick(14, 60)):
        L = Logs(r)
        sc = Sc("hold%d" % i, names(r, 3))
        tps = [(t, q) for t in (0, 1) for q in (2, 0)]
        ops = [START, mk([0, 1], 2), mk([0, 1], 0), dial(1), dial(2)]
        for _ in range(6):
            t, q = r.choice(tps)
            x = r.random()
            tg = [(a, b, L.count(a, b) + (r.choice([0, 0, 0, 1, 3]) if (a, b) != (t, q) else 0), MAXI)
                  for a, b in r.sample(tps, r.randrange(1, 5))]
            if (t, q) not in [y[:2] for y in tg]:
                tg.append((t, q, L.count(t, q), MAXI))
            r.shuffle(tg)
            if r.random() < 0.3:
                tg.insert(r.randrange(len(tg) + 1), (2, 0, 0, MAXI))      # unknown
            mb = r.choice([0, 1, 1, 1, 2 ** 20])
            if x < 0.4:      # the wait elapses, with nothing posted or posts elsewhere
                w = r.choice([0, 1, 5, 19, 20, 21, 40, 77, 150, 300])
                others = [y for y in tps if y not in [z[:2] for z in tg]]
                ops += [send(1, fetch(tg, wait=w, minb=mb))]
                if others and r.random() < 0.5:
                    ops.append(L.post(*r.choice(others), scrib=0))
                ops.append(await_(1))
            elif x < 0.85:   # a record arrives during the wait
                ops += [send(1, fetch(tg, wait=9000, minb=mb)), sleep(r.choice([0, 1, 10, 25, 60, 150])), L.post(t, q, scrib=0), await_(1)]
            else:            # something is there at once
                ops.append(L.post(t, q, scrib=0))
                ops += ask(2, fetch(tg, wait=9000, minb=mb))
        scs.append(sc.th("m", *ops, close(1), close(2), TAIL).done())
    # many waiters, one partition; posts wake them all
    for i in range(pick(4, 20)):
        L = Logs(r)
        sc = Sc("many%d" % i, names(r, 2))
        n = r.choice([3, 6, 10])
        ops = [START, mk([0, 1], 2), [dial(c) for c in range(1, n + 1)]]
        for _ in range(2):
            for c in range(1, n + 1):
                ops.append(send(c, fetch([(r.choice([0, 0, 0, 1]) if c > 1 else 0, 2, L.count(0, 2), MAXI)], wait=r.choice([100, 200, 9000]) if c % 2 else 9000)))
            ops += [sleep(r.choice([5, 40, 130])), L.post(0, 2, scrib=0)]
            while L.count(1, 2) < L.count(0, 2):
                ops.append(L.post(1, 2, scrib=0))
            ops += [await_(c) for c in range(1, n + 1)]
        scs.append(sc.th("m", *ops, [close(c) for c in range(1, n + 1)], TAIL).done())
    # a partition created, or a topic with the same name elsewhere, does not wake; long waits
    for i in range(pick(4, 12)):
        L = Logs(r)
        sc = Sc("long%d" % i, names(r, 3))
        w = r.choice([700, 1100, 1600]) if i % 2 else r.choice([333, 500])
        ops = [START, mk([0], 2), dial(1), send(1, fetch([(0, 2, 0, MAXI), (1, 2, 0, MAXI), (0, 7, 0, MAXI)], wait=w)), sleep(r.choice([0, 50, 200])),
               mk([1], 7), mk([0, 2], 9), L.post(2, 2, scrib=0), setoff(0, 2, "g", 4), await_(1)]
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # told to finish or stop
    for i in range(pick(10, 40)):
        L = Logs(r)
        sc = Sc("told%d" % i, names(r, 2))
        n = r.choice([1, 2, 5])
        pre = r.choice([0, 0, 50, 900])
        what = ["finish", "stop", "restart"][i % 3]
        ops = [START, mk([0, 1], 2), [dial(c) for c in range(1, n + 1)]]
        for c in range(1, n + 1):
            if pre == 0 and r.random() < 0.5:
                ops += ask(c, APIV)
            ops.append(send(c, fetch([(r.randrange(2), 2, 0, MAXI)], wait=9000)))
        ops += [sleep(pre), op(what)]
        ops += [eof(c) for c in range(1, n + 1)]
        ops += [close(c) for c in range(1, n + 1)]
        scs.append(sc.th("m", *ops, TAIL).done())
    # a record that arrives after seconds of waiting: not later than one that comes at once
    late = []
    for i in range(pick(14, 28)):
        L = Logs(r)
        sc = Sc("patient%d" % i, names(r, 2))
        w = r.choice([15000, 30000, 60000])
        ops = [START, mk([0, 1], 2), dial(1), dial(2), send(1, fetch([(0, 2, 0, MAXI), (1, 2, 0, MAXI)], wait=w)), sleep(r.choice([0, 1300])),
               send(2, fetch([(1, 2, 0, MAXI)], wait=w)), sleep(r.choice([2500, 3500, 4500, 5500, 6500])), L.post(0, 2, scrib=0), await_(1)]
        ops += [sleep(r.choice([0, 600, 1700])), r.choice([L.post(1, 2, scrib=0), op("finish"), L.post(1, 2, scrib=0)]), await_(2)]
        late.append(sc.th("m", *ops, close(1), close(2), TAIL).done())
    j = allow("fetch", "hold", "late")
    return [Batch("wait", scs, j, procs=7), Batch("patient", late, j, procs=14, slack=1500)]


# ---- C06 / C07 ---------------------------------------------------------------------------------

def _after_comm(b, c, rnd, h):
    qs = b.q[:2]
    tp = [(t, q) for t in b.t for q in qs]
    out = []
    for g in b.g:
        out += ask(c, ofetch(g, tp if rnd.random() < 0.6 else rnd.sample(tp, 2)))
    return out


def rounds(sid, r, n, k, what):
    """k rounds: n connections ask what(c, round, value) at the same time; then the outcome is looked at"""
    sc = Sc(sid, names(r, 2))
    tps = [(0, 2), (0, 0)]
    ops = [START, mk([0], 2), mk([0], 0), dial(9), barrier(1, n + 1)]
    for i in range(k):
        ops += [barrier(10 + 2 * i, n + 1), barrier(11 + 2 * i, n + 1), ask(9, ofetch("g", tps))]
    sc.th("m", *ops, close(9), barrier(2, n + 1), TAIL)
    vals = {}
    for i in range(k):
        v = r.sample(range(4 * i - 2, 4 * i + n + 3), n)
        for c in range(n):
            vals[c + 1, i] = v[c]
    for c in range(1, n + 1):
        ops = [barrier(1, n + 1), dial(c)]
        for i in range(k):
            ops += [barrier(10 + 2 * i, n + 1), ask(c, what(c, i, vals[c, i])), barrier(11 + 2 * i, n + 1)]
        sc.th("c%d" % c, *ops, close(c), barrier(2, n + 1))
    return sc.done()


def c06(gen):
    r = rng(SEED, "C06")
    cover = [h for h in gen("GenComm") if any(o["o"] == "commit" for o in h)]
    scs = pack("cover", sample(r, cover, pick(150, 777)), 8, r, _after_comm, nt=1)
    two = [h for h in gen("GenComm2") if any(o["o"] == "commit" for o in h)]
    scs += pack("two", sample(r, two, pick(150, 1512)), 8, r, _after_comm, nt=2)
    if THOROUGH:
        scs += pack("four", sample(r, [h for h in gen("GenComm4") if any(o["o"] == "commit" for o in h)], 2500), 8, r, _after_comm, nt=2)
    for i in range(pick(16, 80)):
        gs = r.sample(GROUPS, 3)
        sc = Sc("rand%d" % i, names(r, 3))
        qs = r.sample(PARTS, 3)
        tps = [(t, q) for t in (0, 1) for q in qs]
        ops = [START, [mk([0, 1], q) for q in qs[:2]], mk([0], qs[2]), dial(1), dial(2)]
        vals = r.choice([[0, 1, 2, 3, 5, 8], [-1, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1], [10, 9, 8, 7, 6, 5], [-2 ** 63, -1, 0, 1, 255, 256]])
        for _ in range(30):
            g = r.choice(gs)
            tg = r.sample(tps, r.randrange(1, len(tps) + 1)) if r.random() < 0.7 else [r.choice(tps) for _ in range(4)]
            if r.random() < 0.2:
                tg.insert(r.randrange(len(tg) + 1), (2, qs[0]))
            if r.random() < 0.6:
                ops += ask(r.choice([1, 2]), commit(g, [(t, q, r.choice(vals)) for t, q in tg], pad=r.choice([0, 0, 40]), md=r.choice(["", "meta", "x" * 200])))
            else:
                ops += ask(r.choice([1, 2]), ofetch(g, tg))
        for g in gs:
            ops += ask(1, ofetch(g, tps))
        scs.append(sc.th("m", *ops, close(1), close(2), TAIL).done())
    conc = []
    for i in range(pick(14, 60)):
        n = r.choice([2, 3, 4])
        gs = r.sample(GROUPS, 2)
        sc = Sc("conc%d" % i, names(r, 2))
        tps = [(0, 2), (0, 0), (1, 2)]
        hot = r.random() < 0.6
        sc.th("m", START, mk([0, 1], 2), mk([0], 0), barrier(1, n + 1), barrier(2, n + 1), dial(9), [ask(9, ofetch(g, tps)) for g in gs], close(9), TAIL)
        for c in range(1, n + 1):
            ops = [dial(c), barrier(1, n + 1)]
            ops[0:0] = [barrier(3, n + 1)]
            v = r.randrange(5)
            for _ in range(8):
                g = gs[0] if hot else r.choice(gs)
                tg = [(0, 2)] if hot and r.random() < 0.7 else r.sample(tps, r.randrange(1, 4))
                v += r.choice([-2, -1, 1, 2, 3])
                if r.random() < 0.65:
                    ops += ask(c, commit(g, [(t, q, v * 10 + c) for t, q in tg]))
                else:
                    ops += ask(c, ofetch(g, tg))
            sc.th("c%d" % c, *ops, close(c), barrier(2, n + 1))
        # the barrier before dialling needs the server up
        sc.d["threads"][0]["ops"].insert(2, barrier(3, n + 1))
        conc.append(sc.done())
    # round after round: commits at the same time, then a look
    for i in range(pick(10, 40)):
        n = r.choice([2, 2, 3, 4])
        conc.append(rounds("rounds%d" % i, r, n, pick(20, 30), lambda c, k, v: commit("g", [(0, 2, v)] + ([(0, 0, v)] if k % 3 == 0 else []))))
    j = allow("commit", "ofetch")
    return [Batch("seq", scs, j), Batch("conc", conc, j, instr=pick((SEED, SEED + 1000, SEED + 2000, SEED + 3000, SEED + 4000, SEED + 5000), tuple(SEED + 1000 * k for k in range(16))))]


def c07(gen):
    r = rng(SEED, "C07")
    scs = []
    for name, nt, q in (("GenComm", 1, 150), ("GenComm2", 2, 150)):
        hs = [h for h in gen(name) if any(o["o"] == "setoff" for o in h)]
        scs += pack(name, sample(r, hs, pick(q, 2000)), 8, r, _after_comm, nt=nt)
    if THOROUGH:
        scs += pack("four", sample(r, [h for h in gen("GenComm4") if any(o["o"] == "setoff" for o in h)], 2500), 8, r, _after_comm, nt=2)
    for i in range(pick(16, 80)):
        gs = r.sample(GROUPS, 3)
        sc = Sc("rand%d" % i, names(r, 3))
        qs = r.sample(PARTS, 3)
        tps = [(t, q) for t in (0, 1) for q in qs]
        known = [(0, qs[0]), (0, qs[1]), (1, qs[0])]
        ops = [START if i % 4 else None, [mk([t], q) for t, q in known]]
        if i % 4 == 0:     # before the server is started
            ops += [setoff(*r.choice(known), r.choice(gs), r.choice([3, 7])) for _ in range(3)] + [START]
        ops += [dial(1)]
        vals = r.choice([[0, 1, 2, 3, 5, 8], [-1, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1], [10, 9, 8, 7, 6, 5], [-2 ** 63, -1, 0, 1, 255, 256]])
        for _ in range(30):
            g = r.choice(gs)
            x = r.random()
            if x < 0.4:
                t, q = r.choice(known) if r.random() < 0.7 else r.choice(tps + [(2, qs[0]), (2, 2)])
                ops.append(setoff(t, q, g, r.choice(vals)))
                ops += ask(1, ofetch(g, tps)) if r.random() < 0.7 else []
            elif x < 0.6:
                ops += ask(1, commit(g, [(t, q, r.choice(vals)) for t, q in r.sample(tps, r.randrange(1, 4))]))
            elif x < 0.9:
                ops += ask(1, ofetch(r.choice(gs), r.sample(tps, r.randrange(1, 7))))
            else:
                ops += ask(1, sync()) + ask(1, meta())
        for g in gs:
            ops += ask(1, ofetch(g, tps + [(2, qs[0])]))
        ops += ask(1, sync())
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    conc = []
    for i in range(pick(10, 50)):
        sc = Sc("conc%d" % i, names(r, 2))
        g = r.choice(GROUPS)
        n = 3
        sc.th("m", START, mk([0, 1], 2), barrier(1, n + 2), barrier(2, n + 2), dial(9), ask(9, ofetch(g, [(0, 2), (1, 2)])), close(9), TAIL)
        sc.th("s", barrier(1, n + 2), [setoff(r.choice([0, 0, 1]), 2, g, r.randrange(40)) for _ in range(10)], barrier(2, n + 2))
        for c in range(1, n + 1):
            ops = [barrier(1, n + 2), dial(c)]
            for _ in range(6):
                ops += ask(c, r.choice([commit(g, [(0, 2, r.randrange(40))]), ofetch(g, [(0, 2), (1, 2)]), ofetch(g, [(0, 2)])]))
            sc.th("c%d" % c, *ops, close(c), barrier(2, n + 2))
        conc.append(sc.done())
    j = allow("ofetch", "sync", "commit", "meta")
    return [Batch("seq", scs, j), Batch("conc", conc, j, instr=pick((SEED, SEED + 1000), tuple(SEED + 1000 * k for k in range(10))))]


# ---- C09 ---------------------------------------------------------------------------------------

def c09(gen):
    r = rng(SEED, "C09")

    def after(b, c, rnd, h):
        q = [fetch_ts for fetch_ts in (-2, -1)] + [b.ts(v) for v in range(0, 5)]
        d = [b.ts(v) + x for v in range(1, 4) for x in (-1, 1)]
        tg = [(b.t[0], b.q[0], ts) for ts in q + rnd.sample(d, 3)]
        rnd.shuffle(tg)
        return ask(c, lst(tg))
    scs = pack("cover", sample(r, gen("GenLog"), pick(160, 340)), 8, r, after, nt=1)
    scs += pack("deep", sample(r, gen("GenLogDeep"), pick(240, 3000)), 12, r, after, nt=1)
    for i in range(pick(24, 120)):
        L = Logs(r)
        nt, qs = r.choice([1, 2, 3]), r.sample(PARTS, r.choice([1, 2, 3]))
        sc = Sc("rand%d" % i, names(r, nt + 1))
        times = r.choice([TIMES, [1000 + k for k in range(30)], [r.randrange(-10 ** 6, 10 ** 6) for _ in range(12)], [5, 5, 5, 6]])
        shape = r.choice(["rand", "asc", "desc", "rand"])
        seq = sorted(times, reverse=shape == "desc") if shape != "rand" else times
        ops = [START, dial(1)]
        tps = [(t, q) for t in range(nt) for q in qs]
        for k in range(pick(40, 60)):
            t, q = r.choice(tps)
            if r.random() < 0.5:
                at = r.choice(seq) if shape == "rand" else seq[min(len(seq) - 1, k // 3)]
                ops.append(L.post(t, q, at=at, kl=4, vl=r.randrange(8, 40), simple=0.1, scrib=0))
            else:
                tg = []
                for _ in range(r.choice([1, 2, 5])):
                    t, q = r.choice(tps) if r.random() < 0.9 else (nt, r.choice(qs))
                    tg.append((t, q, r.choice([-1, -2, r.choice(times), r.choice(times) + 1, r.choice(times) - 1, 0, 2 ** 63 - 1, -2 ** 63, -3])))
                ops += ask(1, lst(tg))
        ops += ask(1, fetch([(t, q, 0, MAXI) for t, q in tps]))     # (tells the times of simple posts)
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # long logs
    for i in range(pick(2, 8)):
        L = Logs(r)
        n = pick(400, 1500)
        sc = Sc("long%d" % i, names(r, 1))
        ops = [START, dial(1), [L.post(0, 2, kl=-1, vl=4, at=(1000 + 10 * k + r.randrange(-30, 30)) if i % 2 else 1000 + 10 * k, scrib=0) for k in range(n)]]
        for _ in range(20):
            ops += ask(1, lst([(0, 2, r.choice([1000 + 10 * r.randrange(n) + r.choice([-1, 0, 1]), -1, -2]))]))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # against concurrent posts
    conc = []
    for i in range(pick(8, 30)):
        L = Logs(r)
        sc = Sc("conc%d" % i, names(r, 2))
        sc.th("m", START, mk([0], 2), barrier(1, 4), [L.post(r.choice([0, 0, 1]), 2, at=r.randrange(1000, 1010), kl=9, scrib=0) for _ in range(25)], barrier(2, 4), TAIL)
        for c in (1, 2, 3):
            ops = [barrier(1, 4), dial(c)]
            for _ in range(15):
                ops += ask(c, lst([(t, 2, r.choice([-1, -1, -2, 1004, 1009, 1011])) for t in r.choice([[0], [1], [0, 1]])]))
            sc.th("c%d" % c, *ops, close(c), barrier(2, 4))
        conc.append(sc.done())
    return [Batch("seq", scs, allow("list")), Batch("conc", conc, allow("list"), instr=(None, SEED))]


# ---- C10 ---------------------------------------------------------------------------------------

def c10(gen):
    r = rng(SEED, "C10")
    scs = []
    for i in range(pick(60, 300)):
        L = Logs(r)
        nt = 3
        sc = Sc("miss%d" % i, names(r, nt + 3))
        qs = r.sample(PARTS, 4)
        known = [(t, q) for t in range(nt) for q in qs if r.random() < 0.4]
        ops = [START, dial(1)]
        for t, q in known:
            ops += [mk([t], q)] if r.random() < 0.3 else [L.post(t, q, simple=0, scrib=0) for _ in range(r.choice([1, 2, 4]))]
        g = r.choice(GROUPS)

        def mix(n):
            out = []
            for _ in range(n):
                x = r.random()
                if known and x < 0.45:
                    out.append(r.choice(known))
                elif x < 0.75:
                    out.append((r.randrange(nt), r.choice(PARTS)))
                else:
                    out.append((r.randrange(nt, nt + 3), r.choice(PARTS)))
            return out
        for _ in range(24):
            x = r.random()
            tps = mix(r.choice([1, 1, 2, 4, 7]))
            if x < 0.3:
                ops += ask(1, fetch([(t, q, L.offset(t, q, neg=0.3), r.choice([MAXI, 0, 100])) for t, q in tps],
                                    wait=r.choice([0, 0, 15]) if not known or r.random() < 0.9 else 0))
            elif x < 0.5:
                ops += ask(1, lst([(t, q, r.choice([-1, -2, 5, 0])) for t, q in tps]))
            elif x < 0.7:
                ops += ask(1, commit(g, [(t, q, r.randrange(9)) for t, q in tps]))
            elif x < 0.9:
                ops += ask(1, ofetch(g, tps))
            else:
                ops += ask(1, meta([t for t, _ in tps])) + ask(1, join(g)) + ask(1, coord(g)) + ask(1, beat(g)) + ask(1, leave(g))
            if r.random() < 0.15:
                ops += ask(1, sync(g)) + ask(1, meta())
        # a negative offset is answered at once, and harms nothing
        if known:
            t, q = r.choice(known)
            ops += ask(1, fetch([(t, q, r.choice([-1, -2, -2 ** 63]), MAXI)], wait=9000))
            ops += ask(1, fetch([(t, q, 0, MAXI), (nt, 0, -1, MAXI)], wait=0))
        ops += ask(1, sync(g)) + ask(1, meta())
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # an empty server
    for i in range(4):
        sc = Sc("empty%d" % i, names(r, 3))
        ops = [START, dial(1)]
        rq = [fetch([(0, 2, 0, MAXI), (1, 0, -1, MAXI)]), lst([(0, 2, -1), (1, 2, -2), (2, 0, 5)]), commit("g", [(0, 2, 4), (1, 2, 4)]),
              ofetch("g", [(0, 2), (1, 2)]), meta([0, 1, 2]), meta([]), meta(), sync(), join(), beat(), leave(), coord(), APIV]
        r.shuffle(rq)
        ops += [ask(1, q) + ask(1, sync()) + ask(1, meta()) for q in rq]
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # requests do not create while partitions are being created
    return [Batch("miss", scs, allow("fetch", "list", "commit", "ofetch", "sync", "meta", "hold", "late"))]


# ---- C11 ---------------------------------------------------------------------------------------

def anyreq(r, L, tps, gs, big=0.0):
    t, q = r.choice(tps)
    g = r.choice(gs)
    pad = r.choice([0, 0, 0, 30, 200])
    if r.random() < big:
        pad = r.choice([3000, 4000, 4050, 4096, 5000, 9000, 20000])
    k = r.randrange(12)
    some = r.sample(tps, r.randrange(1, len(tps) + 1))
    if k == 0:
        return fetch([(a, b, L.offset(a, b), r.choice([MAXI, 500])) for a, b in some], wait=r.choice([0, 0, 10]))
    if k == 1:
        return lst([(a, b, r.choice([-1, -2, 1000])) for a, b in some])
    if k == 2:
        return meta(None if r.random() < 0.3 else [a for a, _ in some])
    if k == 3:
        return commit(g, [(a, b, r.randrange(100)) for a, b in some], md="m" * (pad % 20000))
    if k == 4:
        return ofetch(g, some)
    if k == 5:
        return coord(g)
    if k == 6:
        return join(g, proto=r.choice([0, 1, 2, 5]), pad=pad)
    if k == 7:
        return sync(g, pad=pad)
    if k == 8:
        return beat(g, pad=pad)
    if k == 9:
        return leave(g, pad=pad)
    if k == 10:
        return APIV
    return fetch([(t, q, 0, MAXI)])


EVERY = ["fetch", "list", "meta", "commit", "ofetch", "coord", "join", "beat", "leave", "sync", "apiv"]


def c11(gen):
    r = rng(SEED, "C11")
    scs = []
    gs = ["g", "", "long" * 40]
    for i in range(pick(36, 200)):
        L = Logs(r)
        sc = Sc("seg%d" % i, names(r, 2))
        tps = [(t, q) for t in (0, 1) for q in (2, 0)]
        ops = [START, [L.post(t, q, simple=0, scrib=0, big=0.1 if i % 4 == 0 else 0) for t, q in tps for _ in range(2)], dial(1), dial(2)]
        for k in range(4):
            n = r.choice([1, 2, 3, 8, 20])
            rq = [anyreq(r, L, tps, gs, big=0.1) for _ in range(n)]
            mode = r.randrange(6)
            if mode == 0:
                sg, pz = [], 0
            elif mode == 1:
                sg, pz = [-r.choice([1, 2, 3, 5, 7, 13])], 0
                rq = rq[:3]
            elif mode == 2:
                sg, pz = [r.randrange(1, 60) for _ in range(12)], r.choice([0, 2])
            elif mode == 3:
                sg, pz = [r.choice([1, 2, 3, 4, 5, 8]), r.choice([1, 3, 4, 6, 10])], 25
            elif mode == 4:
                sg, pz = [-r.choice([100, 1000, 4095, 4096, 4097])], 0
            else:
                sg, pz = [-1], 0
                rq = rq[:2]
            c = r.choice([1, 2])
            ops += [send(c, rq, sg=sg, pz=pz), await_(c)]
        scs.append(sc.th("m", *ops, close(1), close(2), TAIL).done())
    # cut everywhere: two requests, split at every byte
    reqs = [APIV, lst([(0, 2, -1)]), join("g", 2), fetch([(0, 2, 0, MAXI)]), meta([0]), commit("g", [(0, 2, 3)]), ofetch("g", [(0, 2)]), sync("g"), coord("g"),
            beat("g"), leave("g")]
    for i in range(pick(8, 24)):
        L = Logs(r)
        sc = Sc("split%d" % i, names(r, 1))
        ops = [START, L.post(0, 2, simple=0, scrib=0), dial(1)]
        two = r.sample(reqs, 2)
        for cut in range(1, 120, r.choice([1, 2, 3])):
            ops += [send(1, two, sg=[cut], pz=1), await_(1)]
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # large requests and responses
    for i in range(pick(8, 30)):
        L = Logs(r)
        sc = Sc("big%d" % i, names(r, 2))
        ops = [START, [L.post(0, 2, vl=r.choice([10, 70000, 300000]), simple=0, scrib=0) for _ in range(4)], dial(1)]
        for _ in range(4):
            n = r.choice([4080 + r.randrange(40), 8150 + r.randrange(80), 32000, 65500 + r.randrange(80), 130000])
            rq = r.choice([beat("g", pad=min(n, 32700)), join("g", proto=r.choice([1, 3]), pad=n), sync("g", pad=n), leave("g", pad=min(n, 32700)),
                           lst([(r.randrange(2), q % 50, -1) for q in range(n // 16)]), meta([q % 2 for q in range(max(1, n // 20))])])
            ops += [send(1, r.choice([[rq], [APIV, rq, APIV], [rq, rq]]), sg=r.choice([[], [-1400], [-4096], [-65536], [4, -5000]])), await_(1)]
            ops += ask(1, fetch([(0, 2, r.randrange(4), MAXI)]))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    # an incomplete request gets nothing until its last byte: the rest of the request is sent later
    for i in range(pick(8, 40)):
        L = Logs(r)
        sc = Sc("part%d" % i, names(r, 1))
        rq = r.choice(reqs)
        c = 2
        ops = [START, L.post(0, 2, simple=0, scrib=0), dial(1), dial(2)]
        cut = r.choice([1, 1, 2, 3, 5, 8, 12])
        # the last byte(s) only after a pause; requests on another connection are served meanwhile
        sc.th("m", *ops, barrier(1, 2), send(1, [APIV, rq], sg=[-r.choice([7, 9, 16])], pz=r.choice([8, 15, 40])), await_(1), barrier(2, 2), close(1), close(2), TAIL)
        sc.th("o", barrier(1, 2), [ask(2, x) for x in r.sample(reqs, 6)], barrier(2, 2))
        scs.append(sc.done())
    for i in range(pick(4, 20)):
        # never completed: no response; the client gives up
        sc = Sc("never%d" % i, names(r, 1))
        L = Logs(r)
        rq = r.choice(reqs)
        sc.th("m", START, L.post(0, 2, simple=0, scrib=0), dial(1), dial(2), send(1, [APIV, rq], ct=r.choice([1, 1, 2, 5])), await_(1), sleep(r.choice([80, 200])),
              ask(2, rq), close(1, r.choice(["fin", "rst"])), ask(2, APIV), close(2), TAIL)
        scs.append(sc.done())
    # many connections at once
    conc = []
    for i in range(pick(8, 40)):
        L = Logs(r)
        n = r.choice([3, 5])
        sc = Sc("conns%d" % i, names(r, 2))
        tps = [(t, q) for t in (0, 1) for q in (2, 0)]
        sc.th("m", START, [L.post(t, q, simple=0, scrib=0) for t, q in tps for _ in range(2)], barrier(1, n + 1), barrier(2, n + 1), TAIL)
        for c in range(1, n + 1):
            ops = [barrier(1, n + 1), dial(c)]
            for _ in range(4):
                ops += [send(c, [anyreq(r, L, tps, ["g%d" % c]) for _ in range(r.choice([1, 4, 8]))], sg=r.choice([[], [-11], [-50], [30]])), await_(c)]
            sc.th("c%d" % c, *ops, close(c), barrier(2, n + 1))
        conc.append(sc.done())
    j = EVERY + ["late", "net"]
    return [Batch("stream", scs, j), Batch("conns", conc, j, instr=pick((None, SEED), (None, SEED, SEED + 1000, SEED + 2000)))]


# ---- C12 / C13 ---------------------------------------------------------------------------------

def _topo(r, kind, gen):
    scs = []

    def after(b, c, rnd, h):
        tl = list(b.t)
        if kind == "meta":
            o = ask(c, meta()) + ask(c, meta(tl)) + ask(c, meta(tl[::-1] + tl[:1])) + ask(c, meta(tl[:1]))
            return o + ask(c, coord(rnd.choice(GROUPS)))
        return ask(c, sync(rnd.choice(GROUPS), null=rnd.random() < 0.5)) + ask(c, join(rnd.choice(GROUPS), proto=rnd.choice([0, 1, 2, 3])))
    scs += pack("topo", sample(r, gen("GenTopo"), pick(120, 540)), 4, r, after)
    scs += pack("topo3", sample(r, gen("GenTopo3"), pick(90, 1792)), 3, r, after, nt=3)
    return scs


def c12(gen):
    r = rng(SEED, "C12")
    scs = _topo(r, "meta", gen)
    for i in range(pick(20, 100)):
        nt = r.choice([1, 3, 8, 14])
        sc = Sc("rand%d" % i, names(r, nt + 2))
        ops = [START, dial(1), ask(1, meta())]
        for _ in range(15):
            x = r.random()
            if x < 0.4:
                ops.append(mk(r.sample(range(nt), r.randrange(1, nt + 1)), r.choice(PARTS)))
            elif x < 0.5:
                ops.append(post(r.randrange(nt), r.choice(PARTS), 3, 5, r.randrange(10 ** 6), 5))
            elif x < 0.8:
                ops += ask(1, meta([r.randrange(nt + 2) for _ in range(r.randrange(0, 6))]))
            elif x < 0.9:
                ops += ask(1, meta())
            else:
                ops += ask(1, coord(r.choice(GROUPS)))
        # many partitions
        if i % 5 == 0:
            ops += [mk([0], q) for q in range(r.choice([20, 130, 300]))]
        ops += ask(1, meta()) + ask(1, meta(list(range(nt + 2))))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    conc = []
    for i in range(pick(8, 30)):
        sc = Sc("conc%d" % i, names(r, 4))
        sc.th("m", START, barrier(1, 4), [mk(r.sample(range(4), 2), r.randrange(4)) for _ in range(12)], barrier(2, 4), TAIL)
        for c in (1, 2, 3):
            ops = [barrier(1, 4), dial(c)]
            for _ in range(10):
                ops += ask(c, r.choice([meta(), meta([0, 1, 2, 3]), meta([r.randrange(4)])]))
            sc.th("c%d" % c, *ops, close(c), barrier(2, 4))
        conc.append(sc.done())
    return [Batch("topo", scs, allow("meta", "coord")), Batch("conc", conc, allow("meta", "coord"), instr=(None, SEED))]


def c13(gen):
    r = rng(SEED, "C13")
    scs = _topo(r, "sync", gen)
    for i in range(pick(20, 100)):
        nt = r.choice([1, 3, 8, 14])
        sc = Sc("rand%d" % i, names(r, nt))
        ops = [START, dial(1), ask(1, sync(r.choice(GROUPS)))]
        for _ in range(18):
            x = r.random()
            g = r.choice(GROUPS)
            if x < 0.3:
                ops.append(mk(r.sample(range(nt), r.randrange(1, nt + 1)), r.choice(PARTS)))
            elif x < 0.4:
                ops.append(post(r.randrange(nt), r.choice(PARTS), 3, 5, r.randrange(10 ** 6), 5))
            elif x < 0.6:
                ops += ask(1, sync(g, null=r.random() < 0.3, pad=r.choice([0, 10, 300])))
            elif x < 0.8:
                ops += ask(1, join(g, proto=r.choice([0, 1, 2, 6]), pad=r.choice([0, 20, 600])))
            elif x < 0.9:
                ops += ask(1, beat(g, pad=r.choice([0, 9])))
            else:
                ops += ask(1, leave(g, pad=r.choice([0, 9])))
        if i % 5 == 0:
            ops += [mk([0], q) for q in range(r.choice([20, 130, 300]))]
        ops += ask(1, sync(g))
        scs.append(sc.th("m", *ops, close(1), TAIL).done())
    conc = []
    for i in range(pick(10, 40)):
        sc = Sc("conc%d" % i, names(r, 4))
        L = Logs(r)
        sc.th("m", START, barrier(1, 4), [r.choice([mk(r.sample(range(4), 2), r.randrange(4)), L.post(r.randrange(4), r.randrange(4), kl=8, scrib=0)]) for _ in range(12)], barrier(2, 4), TAIL)
        for c in (1, 2, 3):
            ops = [barrier(1, 4), dial(c)]
            for _ in range(10):
                ops += ask(c, r.choice([sync("g"), sync("g%d" % c), sync("g"), join("g", 1), beat("g"), leave("g")]))
            sc.th("c%d" % c, *ops, close(c), barrier(2, 4))
        conc.append(sc.done())
    j = allow("sync", "join", "beat", "leave")
    return [Batch("topo", scs, j), Batch("conc", conc, j, instr=pick((None, SEED, SEED + 1000), (None, SEED, SEED + 1000, SEED + 2000)))]


# ---- C08 ---------------------------------------------------------------------------------------

def c08(gen):
    r = rng(SEED, "C08")

    def after(b, c, rnd, h):
        return probe(c, b.t, b.q[:2], b.g[:2], times=(b.ts(1), b.ts(2), b.ts(3)))
    hs = [h for h in gen("GenSim", num=pick(60, 400), seed=SEED) if any(o["o"] == "restart" for o in h)]
    scs = pack("sim", hs, 1, r, after)
    for i in range(pick(30, 150)):
        L = Logs(r)
        nt = 3
        sc = Sc("cycle%d" % i, names(r, nt + 1))
        qs = r.sample(PARTS, 2)
        gs = r.sample(GROUPS, 2)
        tps = [(t, q) for t in range(nt) for q in qs]
        c = [0]
        ops = []

        def api(n):
            for _ in range(n):
                t, q = r.choice(tps)
                x = r.random()
                if x < 0.6:
                    ops.append(L.post(t, q, simple=0.1, scrib=0.2))
                elif x < 0.75:
                    ops.append(mk([r.randrange(nt)], q))
                else:
                    ops.append(setoff(t, q, r.choice(gs), r.randrange(8)))

        def rqs(n, cc):
            for _ in range(n):
                t, q = r.choice(tps)
                ops.extend(ask(cc, r.choice([commit(r.choice(gs), [(t, q, r.randrange(8))]), ofetch(r.choice(gs), tps),
                                             fetch([(t, q, r.randrange(L.count(t, q) + 1), MAXI)]), lst([(t, q, -1)])])))

        def cycle(k):
            left = []
            for _ in range(r.choice([1, 1, 2])):
                c[0] += 1
                ops.append(dial(c[0]))
                left.append(c[0])
            for cc in left:
                rqs(r.randrange(1, 5), cc)
            api(r.randrange(0, 5))
            if r.random() < 0.4:       # still connected, perhaps in a fetch, when it happens
                if r.random() < 0.5:
                    ops.append(send(left[0], fetch([(r.randrange(nt), qs[0], 99, MAXI)], wait=9000)))
                keep = left
            else:
                ops.extend(close(x) for x in left)
                keep = []
            x = r.randrange(5)
            if x == 0:
                ops.append(op("restart"))
            elif x == 1:
                ops.extend(STOP)
                api(r.randrange(0, 4))
                ops.append(op("restart"))
            elif x == 2:
                ops.extend(STOP)
                api(r.randrange(0, 4))
                ops.extend(START)
            elif x == 3:
                ops.append(op("finish"))
                api(r.randrange(0, 3))
                ops.append(op("restart"))
            else:
                ops.append(op("finish"))
                ops.extend(STOP)
                api(r.randrange(0, 2))
                ops.extend(START)
            ops.extend(close(y) for y in keep)
        if r.random() < 0.3:
            api(4)
        ops.extend(START)
        for k in range(r.choice([1, 2, 3])):
            cycle(k)
        c[0] += 1
        ops += [dial(c[0])] + probe(c[0], range(nt), qs, gs, times=(0, 1000, 1700000000000))
        api(3)
        ops += probe(c[0], range(nt), qs, gs)
        scs.append(sc.th("m", *ops, close(c[0]), TAIL).done())
    # posts, settings and creations that go on while the server restarts
    conc = []
    for i in range(pick(8, 30)):
        L = Logs(r)
        sc = Sc("during%d" % i, names(r, 2))
        gs = ["g"]
        sc.th("m", START, barrier(1, 3), [op("restart"), sleep(r.choice([0, 2, 10]))] * r.choice([2, 3]), STOP, START, barrier(2, 3),
              dial(1), probe(1, [0, 1], [0, 2], gs), close(1), TAIL)
        for p in range(2):
            ops = [barrier(1, 3)]
            for _ in range(14):
                ops.append(r.choice([L.post(r.randrange(2), r.choice([0, 2]), kl=8, simple=0, scrib=0), setoff(r.randrange(2), 2, "g", r.randrange(9)), mk([0, 1], 2)]))
                if r.random() < 0.3:
                    ops.append(sleep(r.choice([1, 5])))
            sc.th("p%d" % p, *ops, barrier(2, 3))
        conc.append(sc.done())
    nets = net(gen, "GenNetMost", "net", pick(130, 1500), r, keep=lambda h: any(o["o"] in ("post", "commit", "set") for o in h) and any(o["o"] in ("restart", "wait") for o in h), res_=False)
    j = allow("fetch", "list", "ofetch", "sync", "meta", "commit", "net")
    return [Batch("net", nets, j, procs=14), Batch("cycles", scs, j), Batch("during", conc, j, instr=pick((None, SEED), (None, SEED, SEED + 1000, SEED + 2000)))]


# ---- C14 ---------------------------------------------------------------------------------------

SERVED = {1: 2, 2: 1, 3: 1, 8: 2, 9: 1, 10: 0, 11: 1, 12: 0, 13: 0, 14: 0, 18: 0}


def body_of(key, L):
    """the body of the version that is served"""
    import struct

    def st(x):
        return struct.pack(">h", len(x)) + x
    t = st(b"topic-a")
    return {1: struct.pack(">iiii", -1, 0, 1, 1) + t + struct.pack(">iiqi", 1, 2, 0, MAXI),
            2: struct.pack(">ii", -1, 1) + t + struct.pack(">iiq", 1, 2, -1),
            3: struct.pack(">i", 1) + t,
            8: st(b"g") + struct.pack(">i", -1) + st(b"") + struct.pack(">qi", -1, 1) + t + struct.pack(">iiqh", 1, 2, 77, -1),
            9: st(b"g") + struct.pack(">i", 1) + t + struct.pack(">ii", 1, 2),
            10: st(b"g"), 11: st(b"g") + struct.pack(">ii", 1, 1) + st(b"") + st(b"consumer") + struct.pack(">i", 0),
            12: st(b"g") + struct.pack(">i", 1) + st(b""), 13: st(b"g") + st(b""),
            14: st(b"g") + struct.pack(">i", 1) + st(b"") + struct.pack(">i", 0), 18: b"",
            0: struct.pack(">hhii", -1, 1, 100, 1) + t + struct.pack(">iii", 1, 2, 0),
            19: struct.pack(">i", 1) + t + struct.pack(">ihiii", 3, 1, 0, 0, 100),
            20: struct.pack(">i", 1) + t + struct.pack(">i", 100)}.get(key, b"")


def c14(gen):
    r = rng(SEED, "C14")
    scs = []
    for i in range(pick(8, 20)):
        L = Logs(r)
        sc = Sc("list%d" % i, names(r, 2))
        tps = [(t, q) for t in (0, 1) for q in (2, 0)]
        ops = [START, L.post(0, 2, scrib=0, simple=0)]
        for k in range(3):
            ops += [dial(10 * k + 1), dial(10 * k + 2)]
            for _ in range(6):
                ops += ask(10 * k + r.choice([1, 2]), r.choice([APIV, APIV, anyreq(r, L, tps, ["g"])]))
            # every version that is listed is served
            ops += ask(10 * k + 1, fetch([(0, 2, 0, MAXI)])) + ask(10 * k + 1, lst([(0, 2, -1)])) + ask(10 * k + 1, meta([0])) + ask(10 * k + 1, commit("g", [(0, 2, 1)]))
            ops += ask(10 * k + 1, ofetch("g", [(0, 2)])) + ask(10 * k + 1, coord()) + ask(10 * k + 1, join()) + ask(10 * k + 1, sync()) + ask(10 * k + 1, beat()) + ask(10 * k + 1, leave())
            ops += ask(10 * k + 2, APIV) + [close(10 * k + 1), close(10 * k + 2)]
            ops += r.choice([[op("restart")], STOP + START])
        scs.append(sc.th("m", *ops, TAIL).done())
    # every other API and version, one server each: the process may die, but it may not answer
    keys = [(k, v) for k in range(0, 75) for v in range(0, 18) if SERVED.get(k) != v]
    keys += [(k, v) for k in (-1, -32768, 32767, 100, 256, 1000) for v in (0, 1, 2)] + [(k, v) for k in SERVED for v in (-1, -32768, 255, 256, 32767)]
    near = [x for x in keys if x[0] in SERVED and x[1] <= 6] + [(k, v) for k in (0, 4, 5, 6, 7, 15, 16, 17, 19, 20, 22, 32, 36, 37) for v in (0, 1)]
    rest = [x for x in keys if x not in near]
    probes = near + sample(r, rest, pick(60, len(rest)))
    other_scs = []
    for k, v in probes:
        sc = Sc("key%d.%d" % (k, v), ["topic-a"])
        body = body_of(k, None) if k in SERVED or k in (0, 19, 20) else r.choice([b"", b"\0\0", body_of(3, None)])
        other_scs.append(sc.th("m", START, mk([0], 2), post(0, 2, 3, 4, 1, 5), dial(1), dial(2), ask(2, APIV), send(1, other(k, v, body)), sleep(60),
                               probe(2, [0], [2, 0], ["g"]), close(2), close(1), TAIL).done())
    return [Batch("list", scs, EVERY), Batch("other", other_scs, EVERY, procs=8)]


# ---- C15 / C16 ---------------------------------------------------------------------------------

def client_states(r, L, sc, n, what):
    """n clients in some state each when the server is told; returns (ops before, ops after, threads' ops, nonreaders)"""
    pre, threads, nr = [], [], []
    for c in range(1, n + 1):
        k = r.choice(what)
        if k == "nr":
            pre += [dial(c, nr=True, bs=4096)]
            nr.append(c)
            pre += [send(c, [fetch([(0, 2, 0, MAXI)])] * r.choice([20, 60]))]
            continue
        pre += [dial(c)]
        if k == "idle":
            if r.random() < 0.6:
                pre += ask(c, APIV)
        elif k == "mid":
            pre += [send(c, [APIV, r.choice([lst([(0, 2, -1)]), fetch([(0, 2, 0, MAXI)]), join()])], ct=r.choice([1, 3, 8]))]
        elif k == "blocked":
            pre += [send(c, fetch([(1, 2, 0, MAXI), (0, 2, 9999, MAXI)], wait=r.choice([9000, 30000, 2147483647])))]
        elif k == "blocked2":
            pre += [send(c, [fetch([(1, 2, 0, MAXI)], wait=30000), APIV, fetch([(1, 2, 0, MAXI)], wait=30000)])]
        elif k == "half":
            pre += ask(c, APIV) + [close(c, "half")]
        elif k == "pump":
            rq = r.choice([[APIV], [beat(), lst([(0, 2, -1)])], [fetch([(0, 2, 0, MAXI)])], [fetch([(1, 2, 0, MAXI)], wait=30)]])
            threads.append([{"o": "pump", "c": c, "rq": rq, "ms": 2500, "n": r.choice([1, 4, 16]), "pz": r.choice([0, 0, 1, 5])}])
        elif k == "dribble":
            # one request, one byte at a time
            threads.append([send(c, [lst([(0, 2, -1)])] * 3, sg=[-1], pz=12)])
    return pre, threads, nr


def c15(gen):
    r = rng(SEED, "C15")
    scs = []
    kinds = ["idle", "mid", "blocked", "blocked2", "pump", "dribble", "half", "nr"]
    combos = [[k] for k in kinds] + [kinds[:-1], kinds, ["idle", "blocked", "pump"], ["pump"], ["pump", "nr"]]
    for i in range(pick(26, 110)):
        what = combos[i % len(combos)]
        L = Logs(r)
        sc = Sc("stop%d" % i, names(r, 2))
        n = r.choice([1, 2, 4]) if i >= len(combos) else r.choice([1, 2])
        big = "nr" in what
        pre, threads, nr = client_states(r, L, sc, n, what)
        posts = [L.post(0, 2, vl=400000 if big else 20, scrib=0) for _ in range(2)]
        ops = [START, BASE, posts, mk([1], 2), pre, barrier(1, len(threads) + 1), sleep(r.choice([0, 0, 10, 100, 300, 1200]))]
        ops += [op("stop")] * r.choice([1, 1, 2]) + [op("wait")] * r.choice([1, 1, 2])
        ops += [eof(c) for c in range(1, n + 1) if c not in nr]
        ops += [dial(90), res(0, False)]
        ops += [close(c) for c in range(1, n + 1)]
        ops += START + [dial(91)] + ask(91, APIV) + ask(91, lst([(0, 2, -1)])) + [res(1, True), close(91)]
        sc.th("m", *ops, TAIL, res(0, False))
        for j, t in enumerate(threads):
            sc.th("t%d" % j, barrier(1, len(threads) + 1), *t)
        scs.append(sc.done())
    # orders of life cycle calls
    for i in range(pick(16, 60)):
        sc = Sc("life%d" % i, names(r, 1))
        ops = []
        c = 0
        if r.random() < 0.5:
            ops += r.choice([[op("stop")], [op("wait")], [op("stop"), op("wait")], [op("stop"), op("stop")], [op("finish")], [op("wait"), op("stop")],
                             [op("finish"), op("stop"), op("wait"), op("finish")]])
        first = True
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            if x < 0.3:
                ops += [op("start"), op("stop"), op("wait")]      # before it listens
            elif x < 0.4:
                ops += [op("start"), op("finish"), op("stop"), op("wait")]
            elif x < 0.5:
                ops += [op("start"), op("restart")] + ([op("restart")] if r.random() < 0.5 else [])
                c += 1
                ops += [dial(c)] + ask(c, APIV) + [close(c), op("stop"), op("wait")]
            elif x < 0.6:
                ops += [op("restart")]
                c += 1
                ops += [dial(c)] + ask(c, APIV) + [op("stop"), op("wait"), eof(c), close(c)]
            else:
                ops += START
                c += 1
                ops += [dial(c)] + ask(c, APIV) + [close(c)]
                ops += r.choice([[op("stop"), op("stop"), op("wait")], [op("stop"), op("wait"), op("wait")], [op("finish"), op("stop"), op("wait")],
                                 [op("finish"), op("finish"), op("stop"), op("stop"), op("wait"), op("stop")], [op("stop"), op("finish"), op("wait"), op("finish")]])
            c += 1
            ops += [dial(c), res(0, False)]
        scs.append(sc.th("m", *ops).done())
    # a waiter that waits from the beginning; stop from elsewhere
    for i in range(pick(5, 20)):
        sc = Sc("waiter%d" % i, names(r, 1))
        sc.th("m", START, BASE, dial(1), ask(1, APIV), barrier(1, 3), sleep(r.choice([0, 5, 40])), [op("stop")] * r.choice([1, 2]), op("wait"), eof(1), close(1), barrier(2, 3), res(0, False))
        sc.th("w", barrier(1, 3), op("wait"), barrier(2, 3))
        sc.th("s", barrier(1, 3), sleep(r.choice([0, 5, 20])), op("stop"), barrier(2, 3))
        scs.append(sc.done())
    # connecting while it stops
    for i in range(pick(10, 40)):
        sc = Sc("dialing%d" % i, names(r, 1))
        n = 3
        lastc = 100 * n + 100
        sc.th("m", START, BASE, mk([0], 2), barrier(1, n + 1), sleep(r.choice([0, 1, 3, 10])), op("stop"), op("wait"), barrier(2, n + 1), res(0, False), START, dial(lastc), ask(lastc, APIV), close(lastc), TAIL)
        for p in range(1, n + 1):
            ops = [barrier(1, n + 1)]
            cs = []
            for k in range(6):
                c = 100 * p + k
                ops += [dial(c), send(c, r.choice([[APIV], [fetch([(0, 2, 0, MAXI)], wait=30000)], [APIV, APIV]]))]
                cs.append(c)
                if r.random() < 0.3:
                    ops.append(sleep(r.choice([1, 2, 4])))
            ops += [eof(c) for c in cs] + [close(c) for c in cs] + [barrier(2, n + 1)]
            sc.th("d%d" % p, *ops)
        scs.append(sc.done())
    nets = net(gen, "GenNetLife", "life.", pick(60, 158), r) + net(gen, "GenNetStop", "stopnet", pick(130, 2120), r, keep=anywhere("stop", "restart"))
    j = EVERY + ["net", "res", "late"]
    return [Batch("net", nets, j, procs=14), Batch("stop", scs, j, procs=8), Batch("delayed", sample(r, [s for s in scs if s["id"].startswith(("dial", "life", "wait"))], pick(20, 80)), j, procs=8,
                                                   instr=pick((SEED,), (SEED, SEED + 1000, SEED + 2000)))]


def c16(gen):
    r = rng(SEED, "C16")
    scs = []
    kinds = ["idle", "mid", "blocked", "blocked2", "pump", "dribble", "half"]
    combos = [[k] for k in kinds] + [kinds, kinds + ["nr"], ["blocked", "pump"], ["blocked2"], ["blocked"]]
    for i in range(pick(26, 110)):
        what = combos[i % len(combos)]
        L = Logs(r)
        sc = Sc("fin%d" % i, names(r, 2))
        n = r.choice([1, 2, 5]) if i >= len(combos) else r.choice([1, 2])
        big = "nr" in what
        pre, threads, nr = client_states(r, L, sc, n, what)
        posts = [L.post(0, 2, vl=400000 if big else 20, scrib=0) for _ in range(2)]
        ops = [START, posts, mk([1], 2), pre, barrier(1, len(threads) + 1), sleep(r.choice([0, 0, 10, 100, 300, 1200]))]
        ops += [op("finish")] * r.choice([1, 1, 2])
        if r.random() < 0.3:
            ops.append(L.post(1, 2, scrib=0))
        # new clients get nothing
        late = []
        for k in range(r.choice([1, 2, 4])):
            c = 50 + k
            late.append(c)
            ops += [sleep(r.choice([0, 0, 3, 30, 150])), dial(c), send(c, r.choice([[APIV], [fetch([(0, 2, 0, MAXI)])], [commit("g", [(0, 2, 5)])], [lst([(0, 2, -1)]), APIV]]))]
        ops += [eof(c) for c in range(1, n + 1) if c not in nr] + [eof(c) for c in late]
        ops += [close(c) for c in range(1, n + 1)] + [close(c) for c in late]
        ops += [op("restart"), dial(91)] + ask(91, APIV) + ask(91, lst([(0, 2, -1), (1, 2, -1)])) + ask(91, ofetch("g", [(0, 2)])) + [close(91)]
        sc.th("m", *ops, TAIL)
        for j, t in enumerate(threads):
            sc.th("t%d" % j, barrier(1, len(threads) + 1), *t)
        scs.append(sc.done())
    # before the start, between runs, twice
    for i in range(pick(6, 20)):
        sc = Sc("odd%d" % i, names(r, 1))
        ops = [op("finish")] * r.choice([0, 1, 2]) + START + [mk([0], 2), dial(1), ask(1, APIV)]
        ops += [send(1, fetch([(0, 2, 0, MAXI)], wait=9000)), sleep(r.choice([800, 900])), op("finish"), op("finish"), eof(1), close(1)]
        ops += r.choice([[], [op("finish")]]) + STOP + r.choice([[], [op("finish")]]) + START + [dial(2), ask(2, APIV), ask(2, fetch([(0, 2, 0, MAXI)], wait=50)), close(2)]
        scs.append(sc.th("m", *ops, TAIL).done())
    # every request completely answered: large answers under way
    for i in range(pick(6, 20)):
        L = Logs(r)
        sc = Sc("large%d" % i, names(r, 2))
        n = r.choice([1, 3])
        ops = [START, [L.post(0, 2, vl=r.choice([300000, 900000]), scrib=0) for _ in range(3)], mk([1], 2), [dial(c) for c in range(1, n + 1)]]
        for c in range(1, n + 1):
            ops.append(send(c, [fetch([(1, 2, 0, MAXI)], wait=9000), fetch([(0, 2, 0, MAXI)]), APIV]))
        ops += [sleep(800), L.post(1, 2, vl=500000, scrib=0), op("finish"), [eof(c) for c in range(1, n + 1)], [close(c) for c in range(1, n + 1)]]
        scs.append(sc.th("m", *ops, TAIL).done())
    nets = net(gen, "GenNetStop", "finnet", pick(130, 2120), r, keep=anywhere("finish"), res_=False)
    j = EVERY + ["net", "late", "hold"]
    return [Batch("net", nets, j, procs=14), Batch("finish", scs, j, procs=8), Batch("delayed", sample(r, scs, pick(10, 40)), j, procs=8, instr=pick((SEED,), (SEED, SEED + 1000)))]


# ---- C17 ---------------------------------------------------------------------------------------

def c17(gen):
    r = rng(SEED, "C17")
    scs = []
    for i in range(pick(24, 120)):
        L = Logs(r)
        sc = Sc("fault%d" % i, names(r, 3))
        nth = r.choice([1, 2, 3])
        big = i % 3 == 0
        posts = [L.post(0, 2, vl=r.choice([20, 200000 if big else 30]), simple=0, scrib=0) for _ in range(4)] + [mk([1], 2)]
        tps = [(0, 2), (1, 2)]
        steady = []
        for _ in range(12):
            steady += ask(1, anyreq(r, L, [(0, 2)], ["g"]))
            steady += [sleep(r.choice([0, 1, 5, 20]))]
        ops = [START, BASE, posts, dial(1), ask(1, APIV), res(1, True), barrier(1, nth + 1), steady, barrier(2, nth + 1)]
        half_left = []
        for p in range(nth):
            f = [barrier(1, nth + 1)]
            for k in range(r.choice([5, 9])):
                c = 100 * (p + 2) + k
                nr = r.random() < 0.25
                f.append(dial(c, nr=nr, bs=4096 if nr else 0))
                rq = [anyreq(r, L, tps, ["g", "h"]) for _ in range(r.choice([1, 2, 6]))]
                x = r.random()
                if x < 0.15:
                    pass                                          # says nothing
                elif x < 0.35:
                    f.append(send(c, rq, ct=r.choice([1, 2, 5, 9, 14])))
                elif x < 0.55:
                    f.append(send(c, rq))
                elif x < 0.7:
                    f.append(send(c, rq + [fetch([(1, 2, 0, MAXI)], wait=r.choice([40, 300, 1200]))]))
                elif x < 0.85:
                    f.append(send(c, [fetch([(0, 2, 0, MAXI)])] * r.choice([3, 30])))
                else:
                    f += ask(c, rq) if not nr else [send(c, rq)]
                f.append(sleep(r.choice([0, 0, 0, 1, 3, 20, 70])))
                how = r.choice(["fin", "rst", "half"]) if not nr else r.choice(["fin", "rst"])
                f.append(close(c, how))
                if how == "half":
                    f += [eof(c), close(c)]
            sc.th("f%d" % p, *f, barrier(2, nth + 1))
        # nothing is left, nothing was disturbed
        ops += [res(1, True)] + ask(1, fetch([(0, 2, 0, MAXI)])) + ask(1, APIV) + [close(1), res(0, True)]
        ops += [dial(2)] + ask(2, fetch([(0, 2, 0, MAXI), (1, 2, 0, MAXI)])) + ask(2, sync()) + [close(2)]
        sc.d["threads"].insert(0, {"p": "m", "ops": []})
        sc.d["threads"].pop(0)
        sc.th("m", *ops, TAIL, res(0, False))
        scs.append(sc.done())
    # the same fault many times over
    for i, how in enumerate(["fin", "rst", "half", "mid", "pending", "nr"] * pick(1, 3)):
        L = Logs(r)
        sc = Sc("many-%s%d" % (how, i), names(r, 1))
        ops = [START, BASE, L.post(0, 2, vl=300000, simple=0, scrib=0), dial(1), ask(1, APIV)]
        for k in range(30):
            c = 10 + k
            ops.append(dial(c, nr=how == "nr", bs=4096 if how == "nr" else 0))
            if how == "mid":
                ops += [send(c, [lst([(0, 2, -1)])], ct=r.choice([1, 4, 10])), close(c, r.choice(["fin", "rst"]))]
            elif how in ("pending", "nr"):
                ops += [send(c, [fetch([(0, 2, 0, MAXI)])] * 20), sleep(r.choice([0, 0, 1, 5])), close(c, r.choice(["fin", "rst"]))]
            elif how == "half":
                ops += [send(c, [APIV, fetch([(0, 2, 9, MAXI)], wait=r.choice([0, 30])), fetch([(0, 2, 0, MAXI)])]), close(c, "half"), eof(c), close(c)]
            else:
                ops += ask(c, APIV) + [close(c, how)]
        ops += [res(1, True), ask(1, fetch([(0, 2, 0, MAXI)])), close(1), res(0, True)]
        scs.append(sc.th("m", *ops, TAIL, res(0, False)).done())
    # out of order: connections closed in any order while others stay
    for i in range(pick(6, 24)):
        sc = Sc("order%d" % i, names(r, 1))
        n = r.choice([3, 6, 12])
        cs = list(range(1, n + 1))
        ops = [START, BASE, mk([0], 2), [dial(c) for c in cs], [ask(c, APIV) for c in cs], res(n, True)]
        r.shuffle(cs)
        nxt = n + 1
        left = list(cs)
        for c in cs[:-1]:
            ops += [close(c, r.choice(["fin", "rst"]))]
            left.remove(c)
            if r.random() < 0.4:
                ops += [dial(nxt), ask(nxt, APIV)]
                left.append(nxt)
                nxt += 1
            if r.random() < 0.6:
                ops += [res(len(left), True)]
            ops += ask(r.choice(left), APIV)
        ops += [res(len(left), True), op("stop"), op("wait"), [eof(c) for c in left], [close(c) for c in left], res(0, False)]
        scs.append(sc.th("m", *ops).done())
    nets = net(gen, "GenNetFault", "faultnet", pick(150, 1498), r, keep=anywhere("fin", "rst", "half"))
    j = EVERY + ["net", "res", "late"]
    return [Batch("net", nets, j, procs=14), Batch("faults", scs, j, procs=8), Batch("delayed", sample(r, scs, pick(10, 40)), j, procs=8, instr=pick((SEED,), (SEED, SEED + 1000)))]


# ---- C18 ---------------------------------------------------------------------------------------

def c18(gen):
    r = rng(SEED, "C18")

    def chaos(i, posters, conns, nops, npipe, tps, gs, life=False):
        L = Logs(r)
        nt = 1 + max(t for t, _ in tps)
        sc = Sc("mix%d" % i, names(r, nt))
        n = posters + conns + 1
        fresh = r.random() < 0.6
        first = [] if fresh else [mk([t], q) for t, q in tps]
        end = [dial(99), probe(99, range(nt), sorted({q for _, q in tps}), gs), close(99)]
        sc.th("m", START, first, barrier(1, n), barrier(2, n), end, TAIL)
        for p in range(posters):
            ops = [barrier(1, n)]
            for _ in range(nops):
                t, q = r.choice(tps)
                x = r.random()
                ops.append(L.post(t, q, kl=8, simple=0, scrib=0.3) if x < 0.55 else mk([t], q) if x < 0.7 else setoff(t, q, r.choice(gs), r.randrange(40)))
            sc.th("p%d" % p, *ops, barrier(2, n))
        for c in range(1, conns + 1):
            ops = [barrier(1, n), dial(c)]
            for _ in range(nops):
                ops += [send(c, [anyreq(r, L, tps, gs) for _ in range(r.choice(npipe))]), await_(c)]
            sc.th("c%d" % c, *ops, close(c), barrier(2, n))
        return sc.done()
    scs = []
    for i in range(pick(16, 80)):
        tps = r.choice([[(0, 2)], [(0, 2), (0, 0)], [(0, 2), (1, 2)], [(0, 0), (0, 1), (1, 0)]])
        scs.append(chaos(i, r.choice([1, 2]), r.choice([2, 3]), r.choice([5, 8]), [1, 1, 2], tps, r.choice([["g"], ["g", "h"]])))
    # for the race detector: more of everything, less to judge
    hot = []
    for i in range(pick(10, 40)):
        tps = r.choice([[(0, 2)], [(0, 2), (1, 2)], [(0, 0), (0, 1), (1, 0)]])
        hot.append(chaos(1000 + i, 2, 3, 12, [1, 3], tps, ["g"]))
    for i in range(pick(6, 20)):     # life cycle and faults under the race detector
        L = Logs(r)
        sc = Sc("churn%d" % i, names(r, 2))
        sc.th("m", START, mk([0, 1], 2), barrier(1, 4), sleep(r.choice([20, 60])), r.choice([[op("restart")], STOP + START, [op("finish")] + STOP + START]), sleep(20), barrier(2, 4),
              dial(1), probe(1, [0, 1], [2], ["g"]), close(1), TAIL)
        sc.th("p", barrier(1, 4), [x for k in range(20) for x in (L.post(r.randrange(2), 2, kl=8, simple=0, scrib=0), sleep(r.choice([0, 2])))], barrier(2, 4))
        for p in (1, 2):
            ops = [barrier(1, 4)]
            cs = []
            for k in range(6):
                c = 100 * p + k
                ops += [dial(c), send(c, [anyreq(r, L, [(0, 2), (1, 2)], ["g"]) for _ in range(3)]), sleep(r.choice([0, 4, 15])), close(c, r.choice(["fin", "rst"]))]
            sc.th("d%d" % p, *ops, barrier(2, 4))
        hot.append(sc.done())
    j = EVERY + ["late"]
    return [Batch("race", hot, ["none"], race=True, instr=pick((None,), (None, SEED, None))),
            Batch("mix", scs, j, instr=pick((None, SEED, SEED + 1000, SEED + 2000), tuple([None] + [SEED + 1000 * k for k in range(10)])))]


# ---- C19, C20 ----------------------------------------------------------------------------------

def c19(gen):
    return [codec_check.CodecBatch("C19", rng(SEED, "C19"), codec_check.FAMILIES, pick(2500, 12000))]


def c20(gen):
    return [codec_check.CodecBatch("C20", rng(SEED, "C20"), codec_check.FAMILIES, pick(2500, 40000))]


# ---- C21 ---------------------------------------------------------------------------------------

def c21(gen):
    r = rng(SEED, "C21")
    scs = []

    def rec(sc):
        for th in sc["threads"]:
            for o in th["ops"]:
                if o["o"] == "send":
                    o["raw"] = True
        return sc
    # a bit of everything, on data of all shapes
    for i in range(pick(160, 700)):
        L = Logs(r)
        nt = r.choice([1, 2, 4])
        sc = Sc("any%d" % i, names(r, nt + 1), latency=0)
        tps = [(t, q) for t in range(nt) for q in r.sample(PARTS, r.choice([1, 2, 3]))]
        gs = r.sample(GROUPS, 2)
        ops = [START, dial(1), dial(2)]
        if r.random() < 0.4:
            ops += [ask(1, q) for q in (meta(), sync(), meta([0]), ofetch("g", [(0, 2)]), lst([(0, 2, -1)]), fetch([(0, 2, 0, MAXI)]), commit("g", [(0, 2, 1)]))]
        for t, q in tps:
            if r.random() < 0.2:
                ops.append(mk([t], q))
        for _ in range(pick(26, 40)):
            t, q = r.choice(tps)
            x = r.random()
            if x < 0.3:
                ops.append(L.post(t, q, scrib=0.1))
            elif x < 0.35:
                ops.append(setoff(t, q, r.choice(gs), r.choice([0, 1, 255, 256, 2 ** 31, 2 ** 63 - 1, -1, -2 ** 63])))
            else:
                rq = anyreq(r, L, tps + [(nt, 0), (0, 77)], gs)
                ops += ask(r.choice([1, 2]), rq)
        ops += [probe(1, range(nt), sorted({q for _, q in tps}), gs, times=[0, 1000])]
        ops += [ask(2, coord(g)) for g in gs] + ask(1, APIV) + [ask(1, x) for x in (join(proto=0), join(proto=2, pad=60), beat(), leave(), sync(null=True))]
        scs.append(rec(sc.th("m", *ops, close(1), close(2), TAIL).done()))
    # every kind of content of a record: no key, no value, empty, binary, sizes where counters grow a byte
    sizes = [-1, 0, 1, 2, 3, 13, 14, 127, 128, 129, 233, 255, 256, 257, 300, 1000, 4095, 4096]
    for i in range(pick(60, 300)):
        L = Logs(r)
        sc = Sc("recs%d" % i, names(r, 2))
        ops = [START, dial(1)]
        for _ in range(22):
            ops.append(L.post(0, 2, kl=r.choice(sizes), vl=r.choice(sizes), at=r.choice(TIMES)))
        for k in range(7):
            off = L.offset(0, 2)
            ops += ask(1, fetch([(0, 2, off, r.choice([MAXI, MAXI, L.limit(0, 2, off)])), (1, 0, 0, MAXI)][:r.choice([1, 2])]))
        scs.append(rec(sc.th("m", *ops, close(1), TAIL).done()))
    # large ones
    for i in range(pick(12, 60)):
        L = Logs(r)
        sc = Sc("large%d" % i, names(r, 1))
        ops = [START, dial(1)]
        for _ in range(3):
            ops.append(L.post(0, 2, kl=r.choice([-1, 3, 300, 70000]), vl=r.choice(BIGSIZES), at=r.choice(TIMES), scrib=0))
            ops += ask(1, fetch([(0, 2, 0, MAXI)])) + ask(1, fetch([(0, 2, L.count(0, 2) - 1, MAXI)]))
        scs.append(rec(sc.th("m", *ops, close(1), TAIL).done()))
    # many topics and partitions
    for i in range(pick(8, 30)):
        nt = r.choice([20, 60, 130])
        L = Logs(r)
        sc = Sc("wide%d" % i, names(r, nt))
        qs = r.sample(range(0, 300), r.choice([1, 3]))
        ops = [START, [mk(list(range(nt)), q) for q in qs], mk([0], 2), [mk([1], q) for q in range(300, 300 + r.choice([60, 130]))], dial(1)]
        ops += [ask(1, meta()), ask(1, sync()), ask(1, meta([r.randrange(nt) for _ in range(5)])), ask(1, ofetch("g", [(t, q) for t in range(nt) for q in qs])),
                ask(1, commit("g", [(t, qs[0], t) for t in range(nt)])), ask(1, lst([(t, qs[0], -1) for t in range(nt)])), ask(1, fetch([(t, q, 0, MAXI) for t in range(nt) for q in qs]))]
        scs.append(rec(sc.th("m", *ops, close(1), TAIL).done()))
    # while the data changes
    for i in range(pick(16, 80)):
        L = Logs(r)
        sc = Sc("moving%d" % i, names(r, 2))
        sc.th("m", START, mk([0], 2), barrier(1, 4), [L.post(r.randrange(2), r.choice([0, 2]), simple=0.3) for _ in range(30)], barrier(2, 4), TAIL)
        for c in (1, 2, 3):
            ops = [barrier(1, 4), dial(c)]
            for k in range(14):
                ops += ask(c, r.choice([anyreq(r, L, [(0, 2), (0, 0), (1, 2)], ["g"]), fetch([(0, 2, r.randrange(5), MAXI), (1, 0, 0, 500)], wait=20), sync(), meta()]))
            sc.th("c%d" % c, *ops, close(c), barrier(2, 4))
        scs.append(rec(sc.done()))
    b = Batch("frames", scs, ["wire"], instr=pick((None,), (None, SEED)))
    b.inspect = frames.inspect
    return [b]


# ---- everything at once: the data properties must not depend on what else happens ---------------

def world(prop, n, steps=70):
    """long random programs over every operation and request, on a few connections; values are chosen around each other
    (committed offsets around the log ends, limits around record sizes, times around record times)"""
    out = []
    for i in range(n):
        r = rng(SEED, prop, "world", i)
        L = Logs(r)
        nt = r.choice([1, 2, 3])
        sc = Sc("world%d" % i, names(r, nt + 1))
        qs = r.sample(PARTS, r.choice([1, 2, 3])) if r.random() < 0.6 else list(range(r.choice([1, 2, 4])))
        gs = r.sample(GROUPS, r.choice([1, 2, 3]))
        tps = [(t, q) for t in range(nt) for q in qs]
        every = tps + [(nt, qs[0])]          # the last topic never exists
        hot = r.choice(tps)
        big = r.choice([0, 0, 0, 0.2])
        tm = r.choice([[1000 + 10 * k for k in range(8)], TIMES, [5], [9000 - 10 * k for k in range(8)]])
        made = {}
        ops, cs, c = [], [], [0]
        up = False

        def pick_tp(all_=0.15):
            return r.choice(every) if r.random() < all_ else hot if r.random() < 0.4 else r.choice(tps)

        def value(t, q):
            n_ = L.count(t, q)
            return r.choice([n_, n_ + 1, n_ - 1, n_ + 7, 0, 0, r.randrange(n_ + 2), r.choice([-1, 1, 2, 5, 127, 128, 255, 256, 32768, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1])])

        def begin():
            ops.extend(START)
            c[0] += 1
            cs[:] = [c[0]]
            ops.append(dial(c[0]))

        def api():
            t, q = pick_tp(0)
            x = r.random()
            if x < 0.62:
                for _ in range(r.choice([1, 1, 1, 2, 3, 12]) if r.random() > 0.04 else 90):
                    ops.append(L.post(t, q, big=big, at=None if r.random() < 0.15 else r.choice(tm) + r.choice([0, 0, 1]), simple=0))
                made[(t, q)] = 1
            elif x < 0.75:
                ts = r.sample(range(nt), r.randrange(1, nt + 1))
                ops.append(mk(ts, q))
            else:
                t, q = pick_tp()
                ops.append(setoff(t, q, r.choice(gs), value(t, q)))

        def req():
            k = r.random()
            if k < 0.3:
                tg = []
                for _ in range(r.choice([1, 1, 2, 3, 5])):
                    t, q = pick_tp()
                    off = L.offset(t, q)
                    tg.append((t, q, off, r.choice([MAXI, MAXI, L.limit(t, q, off), 0, 33, 34])))
                return fetch(tg, wait=r.choice([0, 0, 0, 0, 30]))
            if k < 0.45:
                return lst([(t, q, r.choice([-1, -1, -2, r.choice(tm), r.choice(tm) + 1, r.choice(tm) - 1, 2 ** 63 - 1])) for t, q in [pick_tp() for _ in range(r.choice([1, 1, 2, 4]))]])
            if k < 0.6:
                return commit(r.choice(gs), [(t, q, value(t, q)) for t, q in [pick_tp() for _ in range(r.choice([1, 1, 2, 4]))]], md=r.choice(["", "", "m" * r.choice([1, 50, 9000])]))
            if k < 0.78:
                return ofetch(r.choice(gs), r.sample(every, r.randrange(1, len(every) + 1)))
            if k < 0.84:
                return meta(r.choice([None, None, [r.randrange(nt + 1) for _ in range(r.choice([0, 1, 2, 4]))]]))
            if k < 0.9:
                return sync(r.choice(gs))
            return r.choice([coord(r.choice(gs)), join(r.choice(gs), proto=r.choice([0, 1, 3])), beat(r.choice(gs)), leave(r.choice(gs)), APIV])

        for _ in range(r.choice([0, 0, 3])):
            api()
        begin()
        cycles = 0
        for _ in range(steps):
            x = r.random()
            if x < 0.3:
                api()
            elif x < 0.85:
                cc = r.choice(cs)
                if r.random() < 0.15:
                    ops += [send(cc, [req() for _ in range(r.choice([2, 3, 5]))]), await_(cc)]
                else:
                    ops += ask(cc, req(), sg=r.choice([None, None, None, [1], [5, 9]]))
            elif x < 0.9 and len(cs) < 3:
                c[0] += 1
                cs.append(c[0])
                ops.append(dial(c[0]))
            elif x < 0.94 and len(cs) > 1:
                ops.append(close(cs.pop(), r.choice(["fin", "fin", "rst"])))
            elif x < 0.96 and cycles < 2:
                cycles += 1
                ops.extend(close(y) for y in cs)
                y = r.random()
                if y < 0.5:
                    ops.append(op("restart"))
                    c[0] += 1
                    cs[:] = [c[0]]
                    ops.append(dial(c[0]))
                else:
                    ops.extend(([op("finish")] if y < 0.65 else []) + STOP)
                    for _ in range(r.choice([0, 1, 3])):
                        api()
                    begin()
        ops += probe(cs[0], range(nt), qs, gs, times=(r.choice(tm), r.choice(tm) + 1))
        out.append(sc.th("m", *ops, [close(y) for y in cs], TAIL).done())
    return out


WORLD = {"C01": ["fetch"], "C02": ["fetch", "list"], "C03": ["fetch"], "C04": ["fetch"], "C06": ["commit", "ofetch"], "C07": ["ofetch", "commit", "sync", "meta"],
         "C08": ["fetch", "list", "ofetch", "sync", "meta", "commit"], "C09": ["list"], "C10": ["fetch", "list", "commit", "ofetch", "sync", "meta"], "C11": EVERY,
         "C12": ["meta", "coord"], "C13": ["sync", "join", "beat", "leave"], "C14": ["apiv"], "C18": EVERY}


def with_world(prop, f):
    def g(gen):
        return f(gen) + [Batch("world", world(prop, pick(100, 400)), WORLD[prop], instr=pick((None,), (None, SEED)))]
    return g if prop in WORLD else f



PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16,
         "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}
PROPS = {k: with_world(k, v) for k, v in PROPS.items()}
# Design-model runs (spec/Server.tla; tools/mkcfg.py): "ok" must hold, "bad" must be violated, "obs" must be
# accepted by the trace acceptor, "obsbad" (behaviours of a mistaken design) must in part be rejected.
def _models():
    quick = {
        "C01": ["ok:q_fetch", "obs:fetch", "obsbad:create"],
        "C02": ["ok:q_post", "bad:create", "obsbad:create"],
        "C03": ["ok:q_fetch", "obs:fetch2"],
        "C04": ["ok:q_fetch", "obs:fetch"],
        "C05": ["ok:q_fetch", "ok:live_wake", "bad:empty", "bad:stale", "obs:wake", "obsbad:empty", "obsbad:stale"],
        "C06": ["ok:q_commit", "bad:commit", "obs:commit", "obsbad:commit"],
        "C07": ["ok:q_set", "obs:set"],
        "C08": ["ok:restart2", "ok:live_restart", "bad:restart", "obs:lose", "obsbad:lose"],
        "C09": ["ok:q_post", "obs:post"],
        "C10": ["ok:q_set", "obs:commit2"],
        "C11": ["ok:q_pieces", "ok:live_pipe", "bad:pipe", "obs:pieces", "obsbad:pipe"],
        "C12": ["ok:q_meta", "obs:post"],
        "C13": ["ok:q_meta", "obs:post"],
        "C14": ["obs:pieces"],
        "C15": ["ok:stop", "ok:live_before", "ok:live_stuck", "bad:wait", "bad:deadline", "obs:stop", "obs:before", "obs:both", "obsbad:hang"],
        "C16": ["ok:fin1", "ok:live_finish", "bad:finish", "bad:serve", "obs:held", "obs:finish", "obsbad:drop", "obsbad:serve"],
        "C17": ["ok:q_fault", "bad:eof", "bad:pipe", "obs:fault", "obs:two", "obsbad:eof"],
        "C18": ["ok:q_post", "bad:create", "bad:commit", "obs:post2", "obs:commit2", "obs:set"],
    }
    more = {
        "C01": ["ok:fetch", "ok:post"], "C02": ["ok:post", "ok:post2"], "C03": ["ok:fetch"], "C04": ["ok:q_fetch2", "ok:fetch2"], "C05": ["ok:live_fetch", "ok:q_fetch2", "ok:fetch", "ok:fetch2"],
        "C06": ["ok:commit", "ok:commit2"], "C07": ["ok:set"], "C08": ["ok:restart", "ok:live_stop"], "C09": ["ok:post2"], "C10": ["ok:commit"], "C11": ["ok:pieces"],
        "C12": ["ok:post"], "C13": ["ok:post2"], "C15": ["ok:two", "ok:both", "ok:before", "ok:live_stop", "ok:live_both", "ok:live_two"],
        "C16": ["ok:finish"], "C17": ["ok:fault", "ok:two", "ok:live_fault", "ok:live_two"], "C18": ["ok:post", "ok:post2", "ok:fetch2", "ok:commit2", "ok:set", "ok:fault"],
    }
    out = {}
    for k in quick:
        out[k] = quick[k] + (more.get(k, []) if THOROUGH else [])
    return out


MODELS = _models()
ASSUME = [
    "TLC and the CommunityModules evaluate the specification as TLA+ defines it",
    "the journal of one process is in an order that real time allows (one mutex, taken before a request is sent and after an answer has been read)",
    "what the instrumented copies of the sources do (delays before statements) the sources may do, too",
    "within the 8 s the acceptor allows, a server that is alive has acted; runs during which the machine stalled are repeated, not judged",
]
