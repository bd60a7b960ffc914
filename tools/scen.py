"""Scenario programs for the runner. Every random choice comes from VERIF_SEED."""
import random
import string

NAMES = ["topic-a", "b", "B", "orders.v1", "", "\u00fcber-\u4e3b\u984c", "a", "ab", "abc", " leading", "x" * 300, "topic-a ",
         "null\x00byte", "__consumer_offsets", "T", "topic_b", "y" * 129, "-1", "topic-A"]
GROUPS = ["g", "grp", "G", "", "gr\u00fcppe", "g" * 200, "gr", "kafka-mock", "g\x00", "grp "]
PARTS = [2, 0, 1, 3, 7, -1, 2147483647, -2147483648, 65536, 100, 255, 256]
SIZES = [0, 1, 2, 7, 8, 60, 127, 128, 255, 256, 300, 1000]
BIGSIZES = [4094, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 32767, 32768, 65535, 65536, 70000]
TIMES = [0, 1, 999, 1000, 1700000000000, 1700000000001, -1, -2, -3, -1000, 253402300799999, 4102444800000, 2 ** 31, 2 ** 32 + 5]
MAXI = 2 ** 31 - 1


def post(t, q, kl, vl, sd, at=None, sc=False):
    o = {"o": "post", "t": t, "q": q, "rec": {"kl": kl, "vl": vl, "sd": sd}}
    if at is not None:
        o["at"] = at
    if sc:
        o["sc"] = True
    return o


def mk(ts, q):
    return {"o": "mk", "ts": ts, "q": q}


def setoff(t, q, g, off):
    return {"o": "setoff", "t": t, "q": q, "g": g, "off": off}


def _group(tgs):
    """targets (dicts with t) to topic entries, keeping the order: consecutive ones of a topic share an entry"""
    tn, tg = [], []
    for x in tgs:
        if not tn or tn[-1] != x["t"]:
            tn.append(x["t"])
            tg.append([])
        tg[-1].append(x)
    return tn, tg


def fetch(tgs, wait=0, minb=1):
    tn, tg = _group([{"t": t, "q": q, "off": off, "max": mx} for t, q, off, mx in tgs])
    return {"k": "fetch", "tn": tn, "tg": tg, "wait": wait, "minb": minb}


def lst(tgs):
    tn, tg = _group([{"t": t, "q": q, "ts": ts} for t, q, ts in tgs])
    return {"k": "list", "tn": tn, "tg": tg}


def commit(g, tgs, pad=0, md=""):
    tn, tg = _group([{"t": t, "q": q, "off": off, **({"md": md} if md else {})} for t, q, off in tgs])
    return {"k": "commit", "g": g, "tn": tn, "tg": tg, "pad": pad}


def ofetch(g, tgs):
    tn, tg = _group([{"t": t, "q": q} for t, q in tgs])
    return {"k": "ofetch", "g": g, "tn": tn, "tg": tg}


def meta(ts=None):
    return {"k": "meta", "null": True} if ts is None else {"k": "meta", "tn": ts}


def sync(g="g", null=False, pad=0):
    return {"k": "sync", "g": g, "null": null, "pad": pad}


def join(g="g", proto=1, pad=0):
    return {"k": "join", "g": g, "proto": proto, "pad": pad}


def beat(g="g", pad=0):
    return {"k": "beat", "g": g, "pad": pad}


def leave(g="g", pad=0):
    return {"k": "leave", "g": g, "pad": pad}


def coord(g="g"):
    return {"k": "coord", "g": g}


APIV = {"k": "apiv"}


def other(key, ver, body=b""):
    import base64
    return {"k": "other", "key": key, "ver": ver, "body": base64.b64encode(body).decode()}


def dial(c, nr=False, bs=0):
    return {"o": "dial", "c": c, "nr": nr, "bs": bs}


def send(c, rq, sg=None, pz=0, ct=0, raw=False):
    return {"o": "send", "c": c, "rq": rq if isinstance(rq, list) else [rq], "sg": sg or [], "pz": pz, "ct": ct, "raw": raw}


def rest(c):
    return {"o": "rest", "c": c}


def await_(c, n=0, to=0):
    return {"o": "await", "c": c, "n": n, "to": to}


def ask(c, rq, **kw):
    return [send(c, rq, **kw), await_(c)]


def close(c, how="fin"):
    return {"o": "close", "c": c, "how": how}


def eof(c, to=0):
    return {"o": "eof", "c": c, "to": to}


def sleep(ms):
    return {"o": "sleep", "ms": ms}


def barrier(i, n):
    return {"o": "barrier", "id": i, "n": n}


def res(cn=0, up=True):
    return {"o": "res", "cn": cn, "up": up}


START = [{"o": "start"}, {"o": "up"}]
BASE = {"o": "base"}
STOP = [{"o": "stop"}, {"o": "wait"}]


def op(o, **kw):
    return dict(o=o, **kw)


class Sc:
    def __init__(self, sid, names, latency=0, patience=0):
        self.d = {"id": sid, "names": names, "threads": [], "latency": latency, "patience": patience}

    def th(self, p, *ops):
        flat = []

        def add(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    add(y)
            elif x is not None:
                flat.append(x)
        add(ops)
        self.d["threads"].append({"p": p, "ops": flat})
        return self

    def done(self):
        return self.d


def names(rnd, n, plain=False):
    pool = NAMES[:4] if plain else NAMES
    first = rnd.random() < 0.3
    out = rnd.sample(pool, min(n, len(pool)))
    if first and "topic-a" not in out:
        out[0] = "topic-a"
    while len(out) < n:
        out.append("t" + "".join(rnd.choice(string.ascii_lowercase) for _ in range(8)))
    return out


def rng(seed, *tags):
    return random.Random("%s/%s" % (seed, "/".join(str(t) for t in tags)))


def probe(c, topics, parts, groups, ends=None, times=(), full=True):
    """reads everything there is: latest and earliest offsets, the logs, committed offsets, metadata, assignment"""
    tp = [(t, q) for t in topics for q in parts]
    out = ask(c, lst([(t, q, ts) for t, q in tp for ts in (-1, -2)]))
    out += ask(c, fetch([(t, q, 0, MAXI) for t, q in tp], wait=0))
    for g in groups:
        out += ask(c, ofetch(g, tp))
    if full:
        out += ask(c, meta()) + ask(c, meta(list(topics))) + ask(c, sync())
    if times:
        out += ask(c, lst([(t, q, ts) for t, q in tp for ts in times]))
    return out
