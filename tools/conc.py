"""Check C11: the chain store under concurrent use."""
from vlib import *
from chains import PEERS, new_op

CFG = """CONSTANTS
 Genesis = 0
 NoBlock <- TraceNoBlock
 LongFork = 5
 ScoreAdd <- BigAdd
 ScoreLess <- BigLess
 BlockScore <- TableScore
 Acceptable <- InRange
CONSTRAINT Progress
"""


def history(c, i, threads, steps):
    r = random.Random("C11/%d/%d" % (c.seed, i))
    peers = PEERS[:3]
    n = 1
    setup = []
    known = [0]
    for _ in range(r.randrange(0, 4)):
        setup.append(dict(op="put", b=n, p=r.choice(known), bt=r.choice(["50", "60"]), ts=str(1000 + n), gen=r.randrange(3), a=r.choice(peers)))
        known.append(n)
        n += 1
    # blocks that several threads race to deliver
    pool = []
    for _ in range(r.randrange(2, 6)):
        if r.random() < 0.7 or len(known) < 2:
            o = dict(op="put", b=n, p=r.choice((known + [x["b"] for x in pool])[-4:]), bt=r.choice(["50", "60"]), ts=str(1000 + n), gen=r.randrange(3))
        else:
            o = dict(op="micro", b=n, r=r.choice(known[1:]))
        pool.append(o)
        n += 1
    reads = ["lcb", "lastids", "forks", "fork", "stats", "gens", "heads", "active", "leashes", "leash", "lscore", "hasleash", "has", "block"]
    mix = r.choice([0.3, 0.6, 0.9])
    ths = []
    for t in range(threads):
        ops = []
        for _ in range(steps):
            a = r.choice(peers)
            if r.random() < mix:
                o = dict(r.choice(pool))
                o["a"] = a
                if r.random() < 0.1:
                    o = dict(op="move", b=r.choice(known), a=a)
            else:
                k = r.choice(reads)
                b = r.choice(known + [x["b"] for x in pool])
                o = dict(op=k, a=a, b=b, n=r.choice([1, 3, 100]))
            ops.append(o)
        ths.append(ops)
    return dict(id="L-%d" % i, par=dict(new=new_op("L%d/%d" % (c.seed, i)), setup=setup, threads=ths, names=n), ops=[])


def check(c):
    n = 20000 if c.thorough else 3000
    sc = [history(c, i, 2 + i % 3, 3 + i % 4) for i in range(n)]
    traces = c.run_driver("conc", sc, workers=4, timeout=1500)
    overlap = sum(1 for t in traces for e in t for o in e["ops"] if any(p["inv"] < o["ret"] and o["inv"] < p["ret"] and p is not o for p in e["ops"]))
    c.notes["calls_overlapping_others"] = overlap
    c.notes["calls"] = sum(len(e["ops"]) for t in traces for e in t)
    c.sample(dict(script="L-0", history=traces[0][0]["ops"][:8]))
    c.validate("LinTrace", traces, CFG, spec="Spec", what="concurrent histories", timeout=1500)


CHECKS = {"C11": check}
