"""Check P07: the dialling loop."""
from vlib import *
from registry import quoted, ADDR, SELF, POOL

LIVE_CFG = """SPECIFICATION LSpec
INVARIANT LiveOK
PROPERTY NobodyAbandoned EligibleDialled NothingAfterStop
CHECK_DEADLOCK FALSE
CONSTANTS
 IsV4 <- MCIsV4
 IsLoopback <- MCIsLoopback
 Delay = 2
 NoScore = ""
 Zero <- MCZero
 Addrs = {%s}
"""
MC_CFG = """SPECIFICATION MCSpec
VIEW View
INVARIANT MCInv
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 IsV4 <- MCIsV4
 IsLoopback <- MCIsLoopback
 Delay = 2
 NoScore = ""
 Zero <- MCZero
 Addrs = {%(addrs)s}
 MaxTime = %(time)d
 Emit = TRUE
"""
TRACE_CFG = """CONSTANTS
 IsV4 <- TraceIsV4
 IsLoopback <- TraceIsLoopback
 Delay = 600000
 NoScore = ""
 Zero <- TraceZero
VIEW View
"""
VERSIONS = [[1, 5, 0], [1, 4, 0]]
NEW = dict(op="new", declared=SELF, versions=VERSIONS)


def shake(a, k, c):
    h = dict(ver=[1, 5, 1], app="wavesW" if k == "foreign" else "wavesT", name="n%d" % c, nonce=str(c), daddr=a if k == "good" else "", dport=6868)
    return h


def concrete(o):
    o = dict(o)
    if "a" in o:
        o["a"] = ADDR.get(o["a"], o["a"])
    if "k" in o:
        o["hs"] = shake(o["a"], o.pop("k"), o["c"])
    if o["op"] == "sleep" and "s" not in o:
        o["s"] = 300
    return o


def random_history(c, i, steps):
    r = random.Random("DR/%d/%d" % (c.seed, i))
    pool = r.sample(POOL, r.randrange(1, 6)) + (["0.0.0.0"] if r.random() < 0.4 else [])
    pool = list(dict.fromkeys(pool))
    s, cid, live = [NEW], 1, []
    for _ in range(steps):
        a = r.choice(pool)
        k = r.random()
        if k < 0.15:
            s.append(dict(op="append", a=r.choice(pool + [SELF, "127.0.0.1", "2001:db8::1"]), p=r.choice([6868, 6868, 6868, 0, 1])))
        elif k < 0.35:
            s.append(dict(op="fail", a=a))
        elif k < 0.47:
            s.append(dict(op="ok", a=a, k=r.choice(["good", "good", "bare", "foreign"]), c=cid))
            live.append((a, cid))
            cid += 1
        elif k < 0.55 and live:
            a, x = r.choice(live)
            s.append(dict(op="end", a=a, c=x))
        elif k < 0.6:
            s.append(dict(op="come", a=a, k=r.choice(["good", "good", "bare", "foreign"]), c=cid))
            live.append((a, cid))
            cid += 1
        elif k < 0.61:
            s.append(dict(op="hostile", a=a))
        elif k < 0.64:
            s.append(dict(op="break"))
        elif k < 0.70:
            s.append(dict(op="mend"))
        else:
            s.append(dict(op="sleep", s=r.choice([1, 5, 9, 10, 11, 20, 60, 300, 580, 590, 600, 610, 1200, 3600])))
    return dict(id="DR-%d" % i, ops=[concrete(o) for o in s])


def crowd_history(c, i, n):
    """Many addresses at once: all are due at the same tick, again and again."""
    r = random.Random("DC/%d/%d" % (c.seed, i))
    pool = ["10.9.%d.%d" % (k // 250, k % 250 + 1) for k in range(n)]
    s = [NEW] + [dict(op="append", a=a, p=r.choice([6868, 6868, 6863, 1])) for a in pool]
    s += [dict(op="sleep", s=11)]
    gone = r.sample(pool, n * 2 // 3)
    s += [dict(op="fail", a=a) for a in gone]
    s += [dict(op="sleep", s=x) for x in (20, 560, 25, 11)]
    for c1, a in enumerate(r.sample(pool, 6), 1):
        s.append(dict(op="ok", a=a, k=r.choice(["good", "bare"]), c=c1))
    s += [dict(op="fail", a=a) for a in pool] + [dict(op="sleep", s=x) for x in (600, 11, 60)]
    return dict(id="DC-%d" % i, ops=[concrete(o) for o in s])


def run(c):
    big = c.thorough
    c.model("Dial_Live", LIVE_CFG % quoted(["a", "b"] if big else ["a"]), what="liveness", timeout=800)
    sc = []
    for tag, addrs, t, limit in [("DA", ["a"], 5, 6000 if big else 2500), ("DB", ["a", "b"], 4 if big else 3, 6000 if big else 1500)]:
        r = c.model("Dial_MC", MC_CFG % dict(addrs=quoted(addrs), time=t), what="%d addresses, time %d" % (len(addrs), t))
        seqs = [s for s, _ in dedupe_prefixes(r.ops())]
        c.log(len(seqs), "histories")
        if len(seqs) > limit:
            seqs = c.rng.sample(seqs, limit)
        sc += [dict(id="%s-%d" % (tag, i), ops=[NEW] + [concrete(o) for o in s]) for i, s in enumerate(seqs)]
    traces = c.run_driver("dial", sc, timeout=800)
    c.sample(dict(script=sc[-1]["id"], events=traces[-1][:6]))
    c.validate("DialTrace", traces, TRACE_CFG, what="histories of the bounded design", timeout=800)
    if c.violation:
        return
    sc = [random_history(c, i, 120) for i in range(600 if big else 150)]
    sc += [crowd_history(c, i, n) for i, n in enumerate([17, 40, 101] + ([260, 520] if big else []))]
    c.validate("DialTrace", c.run_driver("dial", sc, timeout=800), TRACE_CFG, what="random histories", timeout=800)


CHECKS = {"P07": run}
NOTES = {"P07": ("TLA+ model checking (TLC) with conformance replay and trace validation",
                 "TLC checks on the bounded design that every address worth dialling is dialled or connected again and again, and generates histories of the "
                 "environment around the loop (discovery, failing, pending and ended attempts, unreadable store, shutdown); the real loop runs through them and "
                 "random longer ones in virtual time and TLC decides which addresses had to be dialled when. Sampled beyond the bounds.")}
