"""Checks D01, D02, D04: the detector as its peers see it."""
from vlib import *
from registry import quoted, SELF

MC_CFG = """SPECIFICATION MCSpec
VIEW View
INVARIANT MCInv
ACTION_CONSTRAINT EmitTransition
PROPERTY OnlySenders HostileStays
CHECK_DEADLOCK FALSE
CONSTANTS
 Genesis = 0
 NoBlock <- MCNoBlock
 LongFork = 2
 ScoreAdd <- MCAdd
 ScoreLess <- MCLess
 BlockScore <- MCScore
 Acceptable <- MCAcceptable
 IsV4 <- MCIsV4
 IsLoopback <- MCIsLoopback
 ScoreLimit <- MCScoreLimit
 Delay = 1
 NoScore = ""
 Zero <- MCZero
 Addrs = {%(addrs)s}
 MaxBlocks = %(blocks)d
 MaxConns = %(conns)d
 Emit = "transitions"
 Rich = %(rich)s
"""
TRACE_CFG = """CONSTANTS
 Genesis = 0
 NoBlock <- TraceNoBlock
 LongFork = 5
 ScoreAdd <- TraceAdd
 ScoreLess <- TraceLess
 BlockScore <- TraceScore
 Acceptable <- InRange
 IsV4 <- TraceIsV4
 IsLoopback <- TraceIsLoopback
 ScoreLimit <- WithinLimit
 Delay = 600
 NoScore = ""
 Zero <- TraceZero
 Wire = %s
 Focus = "%s"
VIEW View
"""
VERSIONS = [[1, 5, 0], [1, 4, 0]]
ADDR = {"a": "10.0.0.1", "b": "10.0.0.2", "new": "10.0.0.7", "self": SELF, "v6": "2001:db8::1"}
GHOST, BAD, ORPHAN = 999, 60, 50


def trace_cfg(wire, focus="all"):
    return TRACE_CFG % ("TRUE" if wire else "FALSE", focus)


def shake(a, k, n):
    h = dict(ver=[1, 4, 3], app="wavesT", name="n%d" % n, nonce=str(n), daddr=a, dport=6868)
    if k == "old":
        h["ver"] = [1, 2, 0]
    if k == "loop":
        h["daddr"] = "127.0.0.1"
    if k == "foreign":
        h["app"] = "wavesW"
    if k == "bare":
        h["daddr"] = ""
    if k == "port":
        h["dport"] = 70000
    if k == "else":
        h["daddr"] = "10.77.0.1"
    return h


def odd_shake(r, a, n):
    """A handshake with extreme or meaningless contents."""
    h = shake(a, r.choice(["good", "bare", "port", "loop"]), n)
    h["app"] = r.choice(["wavesT", "wavesT", "", "T", "x" * 255, "wavest", "\u0000", "w\u00e9", "W" * 254 + "T"])
    h["ver"] = r.choice([[1, 4, 0], [1, 4, 2 ** 31 + 1], [1, 2 ** 31 + 5, 0], [2 ** 31 + 7, 4, 0], [0, 0, 0], [2 ** 32 - 9] * 3, [1, 2 ** 32 - 7, 9]])
    h["name"] = r.choice(["", "n", "x" * 255, "a\u0000b", "\ufffd", "n\"'`%s%n\n"])
    h["nonce"] = str(r.choice([0, 2 ** 64 - 1, 2 ** 63]))
    if r.random() < 0.4:
        h["name"], h["namex"] = "", r.choice(["ff", "61ff62", "c328", "ed9f80eda080", "00fe", "f8" * 255])
    h["daddr"] = r.choice([h["daddr"], h["daddr"], "0.0.0.0", "255.255.255.255", "224.0.0.1"]) if h["dport"] <= 65535 else h["daddr"]
    return h


def script(c, sid, seq, wire):
    """A history of the bounded design on concrete blocks: all of the old format, or all of the new one."""
    micros = any(o["op"] == "micro" and o["r"] == 0 for o in seq)
    old = micros or c.rng.random() < 0.5
    name = lambda n: 0 if n == 0 else 2 * n + (1 if old else 0)
    tree, at, ops = {}, {}, []
    for o in seq:
        o = dict(o)
        if o["op"] == "accept":
            o["a"] = at[o["c"]] = ADDR[o["a"]]
        elif o["op"] == "shake":
            o["hs"] = shake(at[o["c"]], o.pop("k"), o["c"])
        elif o["op"] == "leave":
            o["n"] = c.rng.choice([0, 1, 7, 22, 60])
        elif o["op"] == "block":
            o["b"] = name(o["b"])
            tree[o["b"]] = dict(p=name(o["p"]), bt=str(2 ** 63 + 5) if o["bad"] else "123456789", ts="1500000000000", gen=o["b"] % 5,
                                v=c.rng.choice([1, 2, 3, 4]) if old else 5, tx=c.rng.choice([0, 0, 1, 2]))
            tree[o["b"]] = tree.get(o["b"])
            del o["p"], o["bad"]
        elif o["op"] == "micro":
            o["b"], o["r"] = name(o["b"]), name(o["r"])
        elif o["op"] == "score":
            if o["s"] == "huge":
                o["n"] = c.rng.choice([65, 100, 2000])
        elif o["op"] == "peers":
            o["addrs"] = [["127.0.0.1" if wire and x[0] == "v6" else ADDR[x[0]], x[1]] for x in o.pop("l")]
        elif o["op"] == "list":
            o["ids"] = [0 if x == 0 else 2 * x + 1 if o["k"] == "sigs" or old else 2 * x for x in o.pop("l")]
        elif o["op"] == "other":
            o["n"], o["seed"] = c.rng.randrange(13), c.rng.randrange(1000)
        elif o["op"] == "sleep":
            o["n"] *= 60
        if wire and c.rng.random() < 0.2:
            o["split"] = c.rng.choice([1, 3, 20])
        ops.append(o)
    return dict(id=sid, par=dict(wire=wire, salt=sid, tree=tree, declared=SELF, versions=VERSIONS), ops=ops)


def histories(c, tag, addrs, blocks, conns, rich, limit, wire):
    r = c.model("Detector_MC", MC_CFG % dict(addrs=quoted(addrs), blocks=blocks, conns=conns, rich="TRUE" if rich else "FALSE"),
                what="%d addresses, %d blocks, %d connections" % (len(addrs), blocks, conns), timeout=800)
    seqs = [s for s, _ in dedupe_prefixes(r.ops())]
    c.log(len(seqs), "histories")
    if len(seqs) > limit:
        seqs = c.rng.sample(seqs, limit)
    return [script(c, "%s-%d" % (tag, i), s, wire) for i, s in enumerate(seqs)]


POOL = ["10.0.0.%d" % i for i in range(1, 8)]


def random_history(c, tag, i, steps, wire, rude=0.0, bursts=0.0):
    """A long history of some peers building a tree, with rude messages and bursts at the given rates."""
    r = random.Random("%s/%s/%d" % (tag, c.seed, i))
    pool = r.sample(POOL, r.randrange(1, 5))
    tree, known, old_known, at, live, waiting, shunned = {}, [0], [0], {}, [], [], set()
    ops, cid, nb = [], 1, 1
    oldrate = r.choice([0.0, 0.3, 1.0])

    def put(b, p, **kw):
        tree[b] = dict(dict(p=p, bt=str(r.choice([1, 50, 123456789, 2 ** 62])), ts=str(r.choice([0, 1500000000000, 253370764800000])), gen=r.randrange(6),
                            v=5 if b % 2 == 0 else r.choice([1, 2, 3, 4, 4]), tx=r.choice([0, 0, 0, 1, 3])), **kw)

    def fresh(odd):
        nonlocal nb
        nb += 1
        return 2 * nb + (1 if odd else 0)

    def message(c_):
        k = r.random()
        o = dict(c=c_)
        if k < 0.40:
            old = r.random() < oldrate
            p = r.choice((old_known if old else known)[-6:] + [r.choice(old_known if old else known)])
            b = fresh(old)
            put(b, p)
            o.update(op="block", b=b)
            if r.random() < 0.06:
                tree[b].update(r.choice([dict(bt=str(2 ** 63 + r.randrange(9))), dict(ts=str(r.choice([2 ** 63 + r.randrange(9), 253402300800000, 2 ** 63 - 1]))), dict(bt=str(2 ** 64 - 1))]))
            elif r.random() < 0.08:
                tree[b]["p"] = 90001 if old else 90000 + r.randrange(2)
            elif r.random() < rude:
                o["k"] = r.choice(["count", "features", "length", "empty"])      # taken or not: not built upon
            else:
                known.append(b)
                if old:
                    old_known.append(b)
        elif k < 0.50 and len(tree) > 0:
            o.update(op="block", b=r.choice(list(tree)))
        elif k < 0.62:
            old = r.random() < oldrate
            t = fresh(old)
            o.update(op="micro", b=t)
            refs = [x for x in known if x and x % 2 == t % 2]
            o["r"] = r.choice(refs[-3:]) if refs and r.random() < 0.85 else (80001 if old else 80000)
            if o["r"] in refs:
                known.append(t)
                if old:
                    old_known.append(t)
        elif k < 0.70:
            o.update(op="score", s=str(r.choice([0, 1, 255, 2 ** 64, 2 ** 500, 10 ** 40, r.randrange(10 ** 20)])))
            if r.random() < 0.3:
                o["k"] = "padded"
            if r.random() < rude:
                o["n"] = r.choice([63, 64, 65, 66, 5000])
                o.pop("k", None)
        elif k < 0.76:
            o.update(op="peers", addrs=[[r.choice(POOL + ["10.9.%d.%d" % (r.randrange(9), r.randrange(9)), SELF, "127.0.0.1", "0.0.0.0"] +
                                                  ([] if wire else ["2001:db8::1", "::1"])), r.choice([0, 1, 6868, 65535])]
                                        for _ in range(r.randrange(0, 5))])
        elif k < 0.86:
            sigs = r.random() < 0.4
            src = [x for x in known if x == 0 or x % 2 == 1] if sigs else known
            o.update(op="list", k="sigs" if sigs else "ids", ids=[r.choice(src + [70001 if sigs else 70000]) for _ in range(r.choice([0, 1, 2, 5, 100]))])
        elif k < 0.92:
            o.update(op="ask")
        else:
            o.update(op="other", n=r.randrange(13), seed=r.randrange(10 ** 6))
        if wire and r.random() < 0.15:
            o["split"] = r.choice([1, 2, 7, 100])
        return o

    for _ in range(steps):
        k = r.random()
        if waiting and k < 0.7:
            c_ = waiting.pop()
            if r.random() < 0.1:
                ops.append(dict(op="leave", c=c_, n=r.choice([0, 1, 5, 22, 60, 500]), split=r.choice([0, 1])))
                continue
            kind = r.choice(["good"] * 8 + ["old", "loop", "foreign", "bare", "port", "else"])
            quiet = kind == "good" and at[c_] not in shunned and r.random() < 0.3     # what a refused peer adds may be heard or not
            if kind in ("old", "foreign"):
                shunned.add(at[c_])
            if r.random() < rude / 2:
                ops.append(dict(op="shake", c=c_, hs=odd_shake(r, at[c_], c_), split=r.choice([0, 0, 1, 5]) if wire else 0))
                shunned.add(at[c_])
                live.append(c_)
                continue
            ops.append(dict(op="shake", c=c_, hs=shake(at[c_], kind, c_), quiet=quiet, split=r.choice([0, 0, 1, 5]) if wire else 0))
            if kind in ("good", "bare", "else"):
                live.append(c_)
            if quiet:
                o = message(c_)
                while o["op"] in ("ask",) or "k" in o or o.get("n"):
                    o = message(c_)
                ops.append(o)
        elif k < 0.08 or not live:
            a = r.choice(pool + (["2001:db8::1", SELF] if r.random() < 0.1 else []))
            at[cid] = a
            ops.append(dict(op="accept", a=a, c=cid))
            if a in pool:
                waiting.append(cid)
            cid += 1
        elif k < 0.12:
            c_ = r.choice(live)
            ops.append(dict(op="end", c=c_))
            live.remove(c_)
        elif k < 0.15:
            ops.append(dict(op="sleep", n=r.choice([1, 59, 60, 61, 130] if wire else [1, 59, 60, 61, 119, 601, 3600])))
        elif k < 0.155:
            ops.append(dict(op="reopen"))
            live, waiting = [], []
        elif r.random() < rude:
            ops.append(dict(op="fuzz", c=r.choice(live), k=r.choice(["old", "old", "pb", "pb", "inv", "inv", "ids", "sigs", "none", "kind", "head", "peers"]),
                            seed=r.randrange(10 ** 9)))
        elif r.random() < bursts:
            c_ = r.choice(live)
            for _ in range(r.randrange(2, 40)):
                o = message(c_)
                if "k" in o and o["op"] == "block":
                    del o["k"]
                    continue
                o["quiet"] = True
                ops.append(o)
            ops.append(dict(op="ask", c=c_))
        else:
            ops.append(message(r.choice(live)))
    return dict(id="%s-%d" % (tag, i), par=dict(wire=wire, salt="%s%d" % (tag, i), tree=tree, declared=SELF, versions=r.choice([VERSIONS, [[1, 5, 0]]])), ops=ops)


def heavy_history(c, tag, i, wire):
    """A short history of messages as big as they get."""
    r = random.Random("%s/%s/%d" % (tag, c.seed, i))
    tree, ops, last = {}, [], {0: 0, 1: 0}
    peers = r.sample(POOL, 2)
    for n, a in enumerate(peers, 1):
        ops += [dict(op="accept", a=a, c=n), dict(op="shake", c=n, hs=shake(a, "good", n))]
    for n in range(1, r.randrange(6, 12)):
        old = r.randrange(2)
        o = dict(c=r.choice([1, 2]))
        k = r.random()
        if k < .5:
            b = 2 * n + old
            tree[b] = dict(p=last[old], bt="123456789", ts="1500000000000", gen=n % 5, v=r.choice([3, 4]) if old else 5,
                           tx=r.choice([90, 300, 380, 800, 1500, 4000, 5000]))
            last[old] = b
            o.update(op="block", b=b)
        elif k < .7:
            o.update(op="list", k="sigs" if old else "ids", ids=[r.choice([70001 if old else 70000, last[old]]) for _ in range(r.choice([101, 500, 1100, 2100]))])
        elif k < .8:
            o.update(op="peers", addrs=[["10.%d.%d.%d" % (20 + n, x // 200, x % 200 + 1), r.choice([0, 6868])] for x in range(r.choice([101, 130, 300]))])
        elif k < .9:
            o.update(op="score", s=str(r.choice([2 ** 511, 10 ** 150])))
        else:
            o.update(op="other", n=r.randrange(13), seed=r.randrange(10 ** 6))
        if wire and r.random() < .3:
            o["split"] = r.choice([500, 4096, 65536])
        ops.append(o)
        ops.append(dict(op="ask", c=r.choice([1, 2])))
    return dict(id="%s-%d" % (tag, i), par=dict(wire=wire, salt="%s%d" % (tag, i), tree=tree, declared=SELF, versions=VERSIONS), ops=ops)


def judge(c, sc, wire, what, focus="all", **kw):
    traces = c.run_driver("detector", sc, timeout=800, **kw)
    c.sample(dict(script=sc[-1]["id"], events=traces[-1][:4]), limit=2)
    return c.validate("DetectorTrace", traces, trace_cfg(wire, focus), what=what, timeout=800)


def through(c, focus, wire):
    """What the property says, seen through the whole detector."""
    big = c.thorough
    sc = [heavy_history(c, "DF", i, wire) for i in range(30 if big else 8)]
    sc += [random_history(c, "DG", i, 120, wire) for i in range(200 if big else 40)]
    return judge(c, sc, wire, "histories of the whole detector", focus)


def d01(c):
    big = c.thorough
    sc = histories(c, "DA", ["a"], 2, 2, True, 5000 if big else 1200, False)
    sc += histories(c, "DB", ["a", "b"], 2 if big else 1, 3 if big else 2, False, 12000 if big else 1500, False)
    if not judge(c, sc, False, "histories of the bounded design"):
        return
    judge(c, [heavy_history(c, "DH", i, False) for i in range(60 if big else 10)]
          + [random_history(c, "DR", i, 120, False) for i in range(400 if big else 60)], False, "random histories")


def d02(c):
    big = c.thorough
    c.model("Detector_MC", MC_CFG % dict(addrs=quoted(["a"]), blocks=2, conns=2, rich="TRUE"), what="1 address, 2 blocks, 2 connections")
    for wire in (False, True):
        sc = [random_history(c, "DX%d" % wire, i, 150, wire, rude=0.5) for i in range(800 if big else 180)]
        if not judge(c, sc, wire, "rude histories over connections" if wire else "rude histories", hang_ms=60000):
            return


def d04(c):
    big = c.thorough
    sc = histories(c, "DC", ["a"], 2, 2, True, 5000 if big else 1200, True)
    sc += histories(c, "DD", ["a", "b"], 2 if big else 1, 3 if big else 2, False, 8000 if big else 900, True)
    if not judge(c, sc, True, "histories of the bounded design over connections"):
        return
    if not judge(c, [heavy_history(c, "DJ", i, True) for i in range(80 if big else 14)]
                 + [random_history(c, "DW", i, 120, True, bursts=0.1) for i in range(400 if big else 60)], True, "random histories over connections"):
        return
    import registry     # and what the real connection manager says to those it connects to
    registry.offers(c, "D04")
    if c.violation:
        return
    import shutdown     # callers of the real listener are answered, whoever else is silent on a connection
    sc = [h for h in (shutdown.service_history(c, i) for i in range(400 if big else 80)) if h["par"]["kind"] == "listener"]
    c.validate("ServiceTrace", c.run_driver("service", sc, timeout=800, workers=16), "", what="listener", timeout=800)


T = "TLA+ model checking (TLC) with conformance replay and trace validation"
NOTES = {
    "D01": (T, "TLC explores the bounded design of the whole detector (chain store, registry, connections, loader hand-off, replies); every transition sampled from "
               "it and random longer histories are fed to the real distributor over the real stores in virtual time, and TLC decides every effect: stores, "
               "what reached the loader and what was sent. Sampled beyond the bounds."),
    "D02": (T, "Random histories with extreme, damaged and meaningless handshakes and messages, given to the distributor and as bytes over connections of the real "
               "connection manager; TLC decides that nothing but the allowed effect remains and every view still answers, also after restarts. "
               "Damage is generated, not exhaustive; deep nesting is limited to small messages."),
    "D04": (T, "The histories of the bounded design of D01 and random ones with bursts and split writes, as bytes over in-memory connections accepted by the real "
               "connection manager; TLC decides handshakes, effects, connections closed and left open. Of connections to peers only the handshake sent is judged."),
}
CHECKS = {"D01": d01, "D02": d02, "D04": d04}
