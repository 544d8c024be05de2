"""Check D03: termination."""
from vlib import *
from process import lives

LIVE_CFG = """SPECIFICATION LSpec
INVARIANT AllEnded NeverOfferedToNobody InOrder
PROPERTY Terminates NothingToNobody
CHECK_DEADLOCK FALSE
CONSTANTS
 GivesUp = %s
 Components = {"api", "listener", "respawn", "loader", "dist"}
 Order <- MCOrder
 MaxMsgs = %d
"""
MC_CFG = """SPECIFICATION MCSpec
VIEW View
INVARIANT MCInv
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 GivesUp = TRUE
 Components = {"dist"}
 MaxMsgs = %d
 MaxOps = %d
"""
TRACE_CFG = """CONSTANTS
 GivesUp = TRUE
 Components = {"dist", "loader", "respawn"}
VIEW View
INVARIANT Reached
"""
END = [dict(op="cancel"), dict(op="stop", comp="dist"), dict(op="take"), dict(op="end")]


def finish(ops):
    s = []
    for o in ops:
        o = dict(o)
        if o["op"] == "stop":
            o["comp"] = "dist"
        s.append(o)
    names = [o["op"] for o in s]
    for o in END:
        if o["op"] in ("cancel", "stop") and o["op"] in names:
            continue
        s.append(o)
    if s:
        s[-1]["quiet"] = False
    return s


def vary(r, o):
    """The model's messages stand for classes."""
    if o["op"] != "msg":
        return o
    k = {"ids": ["ids", "sigs"], "block": ["block", "orphan"], "score": ["score", "none", "ask", "info", "error"]}[o["k"]]
    return dict(o, k=r.choice(k))


def random_history(c, i):
    """Distributor alone: bursts of messages, a consumer that comes and goes, termination in between."""
    r = random.Random("S/%d/%d" % (c.seed, i))
    s, cancelled, stand = [], False, False
    burst = 0
    for _ in range(r.randrange(3, 40)):
        k = r.random()
        if k < 0.55 and not (cancelled and burst > 6):
            burst += 1
            s.append(dict(op="msg", k=r.choice(["ids", "sigs", "block", "orphan", "score", "none", "ask", "info", "error"]), quiet=r.random() < 0.6))
        elif k < 0.75:
            s.append(dict(op="take"))
            burst = 0
        elif k < 0.80 and not stand:
            stand = True
            s.append(dict(op="stand", quiet=r.random() < 0.5))
        elif k < 0.86 and not cancelled and len(s) > 3:
            cancelled = True
            s.append(dict(op="cancel", quiet=r.random() < 0.5))
        elif k < 0.95:
            s.append(dict(op="sleep", ms=r.choice([1, 1000, 59000, 61000, 3600000]), quiet=r.random() < 0.3))
        elif cancelled and not any(o["op"] == "stop" for o in s):
            s.append(dict(op="stop", comp="dist", quiet=r.random() < 0.5))
    # few messages may be under way when termination is requested: TLC considers every subset of them
    cut, n = [], 0
    for o in s:
        if o["op"] == "msg" and n >= 7 and not stand:
            continue
        n = n + 1 if o["op"] == "msg" else n - 1 if o["op"] == "take" else n
        cut.append(o)
    return dict(id="SR-%d" % i, par=dict(), ops=finish(cut))


def node_history(c, i):
    """All components: a round of loading is in any state when termination is requested."""
    r = random.Random("SN/%d/%d" % (c.seed, i))
    peers = ["10.0.0.%d" % k for k in range(1, r.randrange(2, 4))]
    s = []
    if r.random() < 0.9:
        for a in peers:
            s.append(dict(op="connect", a=a))
            s.append(dict(op="score", a=a))
        s.append(dict(op="sleep", ms=r.choice([0, 4000, 5000, 6000, 6000, 7000, 9000])))
    ids = [2 * k + 1 for k in range(1, r.randrange(2, 8))]
    parent = {b: (ids[j - 1] if j else 0) for j, b in enumerate(ids)}
    for _ in range(r.randrange(0, 14)):
        a = r.choice(peers)
        k = r.random()
        q = r.random() < 0.4
        if k < 0.25:
            s.append(dict(op="msg", k="ids", a=a, ids=ids, quiet=q))
        elif k < 0.7:
            b = r.choice(ids)
            s.append(dict(op="msg", k="block", a=a, b=b, p=parent[b], quiet=q))
        elif k < 0.8:
            s.append(dict(op="msg", k=r.choice(["orphan", "score", "info", "error", "none", "sigs"]), a=a, quiet=q))
        else:
            s.append(dict(op="sleep", ms=r.choice([500, 1000, 5000, 10000, 30000, 31000, 60000]), quiet=q))
    burst = r.randrange(0, 6)
    for _ in range(burst):
        s.append(dict(op="msg", k=r.choice(["ids", "block", "orphan", "score"]), a=r.choice(peers), ids=ids, quiet=True))
    s.append(dict(op="cancel", quiet=r.random() < 0.7))
    for _ in range(r.randrange(0, 4)):
        s.append(dict(op="msg", k=r.choice(["ids", "block", "orphan"]), a=r.choice(peers), ids=ids, quiet=r.random() < 0.7))
    order = ["respawn", "loader", "dist"]
    if r.random() < 0.4:
        r.shuffle(order)
    for x in order:
        s.append(dict(op="stop", comp=x, quiet=r.random() < 0.6))
        if r.random() < 0.3:
            s.append(dict(op="msg", k="ids", a=r.choice(peers), ids=ids, quiet=True))
    s.append(dict(op="end"))
    for o in s:     # distinct numbers matter only where the driver takes
        if o["op"] == "msg" and o["k"] != "ids":
            o.pop("ids", None)
    return dict(id="SN-%d" % i, par=dict(loader=True, respawn=True, peers=peers), ops=s)


def run(c):
    big = c.thorough
    c.model("Shutdown_Live", LIVE_CFG % ("TRUE", 3 if big else 2), what="liveness", timeout=800)
    r = c.model("Shutdown_MC", MC_CFG % ((4, 7) if big else (3, 6)), what="histories")
    seqs = [s for s, _ in dedupe_prefixes(r.ops())]
    limit = 12000 if big else 2000
    c.log(len(seqs), "histories")
    if len(seqs) > limit:
        seqs = c.rng.sample(seqs, limit)
    sc = [dict(id="SM-%d" % i, par=dict(), ops=finish([vary(c.rng, o) for o in s])) for i, s in enumerate(seqs)]
    traces = c.run_driver("shutdown", sc, timeout=800)
    c.sample(dict(script=sc[-1]["id"], events=traces[-1]))
    c.validate("ShutdownTrace", traces, TRACE_CFG, what="histories of the bounded design", timeout=800)
    if c.violation:
        return
    sc = [random_history(c, i) for i in range(3000 if big else 400)]
    c.validate("ShutdownTrace", c.run_driver("shutdown", sc, timeout=800), TRACE_CFG, what="random histories", timeout=800)
    if c.violation:
        return
    sc = [node_history(c, i) for i in range(4000 if big else 350)]
    c.validate("ShutdownTrace", c.run_driver("shutdown", sc, timeout=800), TRACE_CFG, what="all components", timeout=800)
    if c.violation:
        return
    sc = [service_history(c, i) for i in range(400 if big else 100)]
    c.validate("ServiceTrace", c.run_driver("service", sc, timeout=800, workers=16), "", what="listener and API", timeout=800)
    if c.violation:
        return
    c.validate("ServiceTrace", lives(c, 120 if big else 20), "", what="the program", timeout=800)


def service_history(c, i):
    r = random.Random("SS/%d/%d" % (c.seed, i))
    kind = r.choice(["listener", "listener", "listener", "api"])
    taken = kind == "listener" and r.random() < 0.3
    s = [dict(op="run")]
    k = r.random()
    if not taken and k < 0.7:
        s.append(dict(op="served"))
        for _ in range(r.randrange(0, 6)):
            s.append(dict(op="open", k=r.choice(["silent", "half", "shaken", "garbage"] if kind == "listener" else ["silent", "http", "halfhttp", "garbage"])))
        if r.random() < 0.5:
            s.append(dict(op="sleep", ms=r.choice([1, 20, 200])))
    elif k < 0.9:
        s.append(dict(op="sleep", ms=r.choice([0, 1, 5, 50, 200])))
    s.append(dict(op="cancel"))
    if r.random() < 0.3:
        s.append(dict(op="sleep", ms=r.choice([1, 20, 200])))
    s += [dict(op="stop")] + ([] if taken else [dict(op="gone")])
    return dict(id="SS-%d" % i, par=dict(kind=kind, taken=taken), ops=s)


CHECKS = {"D03": run}
NOTES = {"D03": ("TLA+ model checking (TLC, liveness) with conformance replay and trace validation",
                 "TLC shows for the design of all components that termination always ends (and that it would not without giving hand-overs up), and generates "
                 "histories of messages, takings and cancellation. The real distributor, loader and dialling loop run through them and through random longer ones "
                 "in virtual time, listener and API on real sockets, and the program itself as a process under traffic and signals; TLC decides whether what was "
                 "observed is a behaviour of the design. Interleavings inside a burst are those the scheduler chose.")}
