"""Checks C01..C09: the chain store as a sequential object."""
import itertools
from vlib import *

MC_CFG = """SPECIFICATION MCSpec
VIEW View
INVARIANT MCInv
INVARIANT EmitState
ACTION_CONSTRAINT EmitTransition
PROPERTY BlocksNeverChange HeadNumbersStable OthersKeepPositions
CHECK_DEADLOCK FALSE
CONSTANTS
 Genesis = 0
 NoBlock <- MCNoBlock
 LongFork = %(long)d
 MaxBlocks = %(n)d
 Peers = {%(peers)s}
 Moves = %(moves)s
 Emit = "%(emit)s"
 ScoreAdd <- MCAdd
 ScoreLess <- MCLess
 BlockScore <- MCScore
 Acceptable <- MCAcceptable
"""

TRACE_CFG = """CONSTANTS
 Genesis = 0
 NoBlock <- TraceNoBlock
 LongFork = 5
 Focus = {%s}
 ScoreAdd <- BigAdd
 ScoreLess <- BigLess
 BlockScore <- TableScore
 Acceptable <- InRange
VIEW View
"""

# Real base targets standing for the abstract weights <<4,2,2,0,3,2,1,4>> of Chains_MC (indices 1..8): ties, zero
# and non-monotonic scores among the first blocks.
BT = {1: "4611686018427387904", 2: "9223372036854775807", 3: "9223372036854775807", 4: "0", 5: "6148914691236517205",
      6: "9223372036854775807", 7: "9223372036854775807", 8: "4611686018427387904",
      9: "9223372036854775808"}
PEERS = ["10.0.0.1", "10.0.0.2", "192.168.7.9"]
PEERS6 = ["2001:db8::1", "255.255.255.255", "::1", "0.0.0.0"]
MAXI = 2 ** 63 - 1
MAXT = 253370764800000                      # latest timestamp: 9999-01-01T00:00:00Z
LATE = [253402300800000, 2 ** 53, MAXI - 1, MAXI, MAXI + 1, 2 ** 64 - 1]    # from the year 10000 on


def new_op(salt, bt="153722867", ts="1460678400000", gen=0):
    return dict(op="new", salt=salt, bt=bt, ts=ts, gen=gen)


def model_ops(c, n, peers, moves, emit, what):
    cfg = MC_CFG % dict(n=n, peers=", ".join('"p%d"' % i for i in range(peers)), moves="TRUE" if moves else "FALSE",
                        emit=emit, long=2)
    r = c.model("Chains_MC", cfg, what=what, workers=CPUS)
    return r.ops()


def concrete(op, ts0=1000):
    """Map an operation of the model to one for the driver."""
    o = dict(op)
    if "a" in o:
        o["a"] = PEERS[int(o["a"][1:])]
    if o["op"] == "put":
        o["bt"] = BT[o["bt"]]
        o["ts"] = str(ts0 + o["b"] * 17)
        if o["bt"] == BT[9] and o["b"] % 2:     # out of range one way or the other
            o["bt"], o["ts"] = BT[1], str(LATE[o["b"] // 2 % len(LATE)])
    return o


def queries(kinds, known, peers, rng, full=False):
    """Query operations of the given kinds over the blocks known so far (and one unknown)."""
    q = []
    if "lcb" in kinds:
        q += [dict(op="lcb", a=p) for p in peers]
    if "lastids" in kinds:
        for b in known:
            ns = [0, 1, 2, 3, 100] if full else [rng.choice([0, 1, 2, 3]), 100]
            q += [dict(op="lastids", b=b, n=n) for n in ns]
        q.append(dict(op="lastids", b=77, n=5))
    if "line" in kinds:
        q += [dict(op="lastids", b=b, n=2) for b in known]
    if "forks" in kinds:
        q.append(dict(op="forks"))
        q.append(dict(op="forks", peers=[]))
        for k in range(1, len(peers) + 1):
            for s in itertools.combinations(peers, k):
                q.append(dict(op="forks", peers=list(s)))
        q.append(dict(op="forks", peers=["172.16.0.1"]))
    if "fork" in kinds:
        q += [dict(op="fork", a=p) for p in peers]
        q.append(dict(op="stats"))
    if "gens" in kinds:
        for b in known:
            ns = [0, 1, 2, 3, 100] if full else [rng.choice([0, 1, 2, 3]), 100]
            q += [dict(op="gens", b=b, n=n) for n in ns]
        q.append(dict(op="gens", b=known[-1], n=(1 << 62)))
        q.append(dict(op="gens", b=78, n=5))
    return q


def known_after(ops):
    k = [0]
    for o in ops:
        if o["op"] == "put" and o["b"] not in k and o["p"] in k and o["bt"] != 9:
            k.append(o["b"])
        if o["op"] == "micro" and o["b"] not in k and o["r"] in k and o["r"] != 0:
            k.append(o["b"])
    return k


def transition_scripts(c, ops, obs, kinds, tag):
    """One script per transition of the model (prefixes merged); observations only after steps not already observed
    in the script before."""
    out = []
    for i, (seq, common) in enumerate(dedupe_prefixes(ops)):
        s = [new_op("%s%d/%d" % (tag, c.seed, i))]
        if common == 0:
            s += queries(kinds, [0], PEERS, c.rng, True)
        for j, o in enumerate(seq):
            s.append(concrete(o))
            if j >= common:
                if obs:
                    s.append(dict(op="obs", peers=PEERS + ["172.16.0.1"]))
                s += queries(kinds, known_after(seq[:j + 1]), PEERS[:2], c.rng, True)
        out.append(dict(id="%s-%d" % (tag, i), ops=s))
    return out


def shape_scripts(c, shapes, kinds, tag, peers=3, limit=None, obs=False):
    """For every tree shape, walk all assignments of the peers to blocks by single moves, asking the queries after
    each."""
    out = []
    uniq = sorted({json.dumps([{k: v for k, v in o.items() if k != "a"} for o in s]) for s in shapes})
    if limit and len(uniq) > limit:
        uniq = sorted(c.rng.sample(uniq, limit))
    for i, u in enumerate(uniq):
        seq = json.loads(u)
        s = [new_op("%s%d/%d" % (tag, c.seed, i))]
        for o in seq:
            o["a"] = "p0"
            s.append(concrete(o))
        known = known_after(seq)
        ps = PEERS[:peers]
        pos = {}
        for assign in itertools.product(known, repeat=peers):
            for p, b in zip(ps, assign):
                if pos.get(p) != b:
                    s.append(dict(op="move", b=b, a=p))
                    pos[p] = b
            if obs:
                s.append(dict(op="obs", peers=ps))
            s += queries(kinds, known, ps, c.rng) if "lastids" not in kinds and "gens" not in kinds else []
        if "lastids" in kinds or "gens" in kinds:
            s += queries(kinds, known, ps, c.rng, True)
        out.append(dict(id="%s-%d" % (tag, i), ops=s))
    return out


def random_bt(r):
    k = r.random()
    if k < 0.08:
        return 0
    if k < 0.16:
        return r.choice([1, 2, 3, MAXI, MAXI - 1, 2 ** 32, 2 ** 62, 10 ** 18])
    if k < 0.5:
        return r.choice([50, 60, 70])       # few values: ties between forks
    return r.randrange(1, 2 ** r.randrange(1, 63))


def random_ts(r):
    k = r.random()
    if k < 0.1:
        return r.choice([0, 1, MAXT - 1, MAXT, 2 ** 47])
    return r.randrange(0, 2 ** 41)


def random_script(c, tag, i, kinds, steps=60, npeers=5, obs_every=10, reopen=False, micro=0.25):
    r = random.Random("%s/%s/%d/%d" % (c.prop, tag, c.seed, i))
    peers = PEERS + PEERS6
    r.shuffle(peers)
    peers = [p for p in peers[:npeers]]
    s = [new_op("%s%d/%d" % (tag, c.seed, i), bt=str(random_bt(r)), ts=str(random_ts(r)), gen=r.randrange(4))]
    known = [0]
    spec = {}
    nxt = 1
    orphans = []
    for step in range(steps):
        a = r.choice(peers)
        k = r.random()
        if k < 0.08:
            s.append(dict(op="move", b=r.choice(known), a=a))
        elif k < 0.14 and spec:         # known block again, with other contents: only the position changes
            b = r.choice([x for x in known if x])
            s.append(dict(op="put", b=b, p=r.choice(known + [900]), bt=str(random_bt(r)), ts=str(random_ts(r)),
                          gen=r.randrange(4), a=a))
        elif k < 0.155:                 # out of range
            s.append(dict(op="put", b=nxt, p=r.choice(known), gen=1, a=a,
                          **r.choice([dict(bt=str(random_bt(r)), ts=str(r.choice(LATE))),
                                      dict(bt=str(r.choice([MAXI + 1, 2 ** 64 - 1])), ts=str(random_ts(r)))])))
            nxt += 1
        elif k < 0.2:                   # orphan, delivered again later
            o = dict(op="put", b=nxt, p=nxt + 1000, bt=str(random_bt(r)), ts=str(random_ts(r)), gen=r.randrange(4), a=a)
            if r.random() < 0.5 and nxt > 1:
                orphans.append(nxt)
                o["p"] = nxt + 1
            s.append(o)
            nxt += 1
        elif k < 0.2 + micro and len(known) > 1:
            q = r.random()
            if q < 0.1:
                s.append(dict(op="micro", b=nxt, r=nxt + 1000, a=a))
                nxt += 1
            elif q < 0.2:
                s.append(dict(op="micro", b=r.choice([x for x in known if x]), r=r.choice(known + [901]), a=a))
            else:
                ref = known[-1] if r.random() < 0.6 and known[-1] else r.choice([x for x in known if x])
                s.append(dict(op="micro", b=nxt, r=ref, a=a))
                known.append(nxt)
                spec[nxt] = 1
                nxt += 1
        else:
            p = known[-1] if r.random() < 0.6 else r.choice(known)
            s.append(dict(op="put", b=nxt, p=p, bt=str(random_bt(r)), ts=str(random_ts(r)), gen=r.randrange(4), a=a))
            known.append(nxt)
            spec[nxt] = 1
            nxt += 1
        if reopen and r.random() < 0.05:
            s.append(dict(op="reopen"))
        if obs_every and (step % obs_every == obs_every - 1):
            s.append(dict(op="obs", peers=peers + ["172.16.0.1"]))
        if kinds and r.random() < 0.5:
            sub = r.sample(peers, r.randrange(1, len(peers)))
            b = r.choice(known)
            q = []
            if "lcb" in kinds:
                q += [dict(op="lcb", a=p) for p in sub]
            if "lastids" in kinds:
                q += [dict(op="lastids", b=b, n=r.choice([0, 1, 2, 5, 10, 99, 100, 101])) for _ in range(2)]
            if "line" in kinds:
                q += [dict(op="lastids", b=x, n=2) for x in [b, known[-1]]]
            if "forks" in kinds:
                q += [dict(op="forks"), dict(op="forks", peers=sub)]
            if "fork" in kinds:
                q += [dict(op="fork", a=p) for p in sub] + [dict(op="stats")]
            if "gens" in kinds:
                q += [dict(op="gens", b=b, n=r.choice([0, 1, 2, 5, 10, 100, MAXI])) for _ in range(2)]
            s += q
    s.append(dict(op="obs", peers=peers + ["172.16.0.1"]))
    return dict(id="%s-%d" % (tag, i), ops=s)


def deep_script(c, tag, i, kinds, length):
    """A long trunk with forks of random length at random depths, and peers anywhere."""
    r = random.Random("%s/%s/%d/%d" % (c.prop, tag, c.seed, i))
    peers = PEERS[:3]
    s = [new_op("%s%d/%d" % (tag, c.seed, i), bt="100")]
    h = {0: 1}
    n = 1
    tip = 0
    for b in range(length):
        s.append(dict(op="put", b=n, p=tip, bt=str(r.choice([100, 101])), ts=str(1000 + n), gen=r.randrange(5), a=r.choice(peers)))
        h[n] = h[tip] + 1
        tip = n
        n += 1
        if r.random() < 0.12:
            # start a fork and leave it
            at = r.choice(list(h))
            t = at
            for _ in range(r.randrange(1, 12)):
                s.append(dict(op="put", b=n, p=t, bt=str(r.choice([90, 100, 101])), ts=str(1000 + n), gen=r.randrange(5), a=r.choice(peers)))
                h[n] = h[t] + 1
                t = n
                n += 1
            if r.random() < 0.5:
                tip = t
        if r.random() < 0.5:
            if r.random() < 0.6:
                s.append(dict(op="move", b=r.choice(list(h)), a=r.choice(peers)))
            b = r.choice(list(h))
            if "lcb" in kinds:
                s += [dict(op="lcb", a=p) for p in peers]
            if "lastids" in kinds:
                s += [dict(op="lastids", b=b, n=r.choice([0, 1, 5, h[b] - 1, h[b], h[b] + 1, 100]))]
            if "forks" in kinds:
                s += [dict(op="forks"), dict(op="forks", peers=r.sample(peers, 2))]
            if "fork" in kinds:
                s += [dict(op="fork", a=p) for p in peers] + [dict(op="stats")]
            if "gens" in kinds:
                s += [dict(op="gens", b=b, n=r.choice([0, 1, 5, h[b] - 1, h[b], h[b] + 1, 100]))]
    s.append(dict(op="obs", peers=peers))
    return dict(id="%s-%d" % (tag, i), ops=s)


TALL_CFG = """CONSTANTS
 LongForkT = 5
 GensN = 5
 Focus = {"%s"}
VIEW View
"""
TALL_MC_CFG = """SPECIFICATION MCSpec
INVARIANT Agree
PROPERTY Steps
CHECK_DEADLOCK FALSE
CONSTANTS
 LongForkT = 2
 GensN = 3
 MaxH = %d
 MaxBr = %d
 NPeers = 2
 MaxTotal = %d
"""
WANT = {"C05": ["lcb"], "C07": ["forks"], "C08": ["fork"]}


class TallTree:
    def __init__(self, c, tag, i):
        self.r = random.Random("%s/%s/%d/%d" % (c.prop, tag, c.seed, i))
        self.id = "%s-%d" % (tag, i)
        self.want = WANT.get(c.prop)
        self.ops = [dict(op="new", salt="%s/%d/%d" % (tag, c.seed, i))]
        self.br = [None, [0, 0, 1, 2, 0]]       # par, base, tip, w, g

    def at(self, k, h):
        while h <= self.br[k][1]:
            k = self.br[k][0]
        return [k, h]

    def extend(self, k, n):
        self.ops.append(dict(op="grow", k=k, x=[1, 1], n=n, w=0, g=0, mic=False))
        self.br[k][2] += n

    def fork(self, x, n, w=None, mic=False):
        k = len(self.br)
        g = self.r.randrange(5)
        w = w or self.r.choice([2, 2, 3, 4])
        self.ops.append(dict(op="grow", k=k, x=x, n=n, w=w, g=g, mic=mic))
        if mic:
            p = self.br[x[0]]
            self.br.append([p[0] if p[1] == x[1] - 1 else x[0], x[1] - 1, x[1] - 1 + n, p[3], p[4]])
        else:
            self.br.append([x[0], x[1], x[1] + n, w, g])
        return k

    def ask(self, xs):
        """Queries about blocks xs: as positions of peers, or one by one."""
        if self.want:
            self.ops.append(dict(op="views", pos=xs, want=self.want))

    def ask1(self, x, ns, op):
        for n in ns:
            self.ops.append(dict(op=op, x=x, n=n))

    def script(self):
        return dict(id=self.id, ops=self.ops)


def edges(n):
    """Heights around powers of two, up to n."""
    s = {1, 2, 3, n, n - 1, n // 2}
    p = 1
    while p <= n + 1:
        s |= {p - 1, p, p + 1}
        p *= 2
    return sorted(x for x in s if 1 <= x <= n)


def tall_scripts(c):
    op1 = {"C06": "last", "C09": "gens"}.get(c.prop)
    out = []
    # every triple (height, height, divergence) below a bound, with one tree per divergence
    top = 66 if c.thorough else 36
    for d in range(1, top):
        t = TallTree(c, "X", d)
        t.extend(1, top - 1)
        mic = d % 4 == 3
        k = t.fork([1, d + 1] if mic else [1, d], top - d, w=t.r.choice([2, 3]), mic=mic)
        base = t.br[k][1]
        if t.want:
            for x in range(base + 1, t.br[k][2] + 1):
                for y in range(max(1, base - 1), top + 1):
                    t.ask([[k, x], [1, y]] if (x + y) % 2 else [[1, y], [k, x]])
        else:
            for x in range(base + 1, t.br[k][2] + 1):
                t.ask1([k, x], sorted({0, 1, x - base - 1, x - base, x - base + 1, x - 1, x, x + 1, t.r.randrange(x + 1)}), op1)
        out.append(t.script())
    # tall trees with forks at all distances
    for i in range(24 if c.thorough else 8):
        t = TallTree(c, "H", i)
        r = t.r
        top = r.randrange(4000, 6000) if c.thorough else r.randrange(700, 1100)
        t.extend(1, top - 1)
        e = edges(top)
        for _ in range(30 if c.thorough else 14):
            k = r.choice([1, 1, 1, r.randrange(1, len(t.br))])
            lo, hi = t.br[k][1] + 1, t.br[k][2]
            cand = [h for h in e if lo <= h <= hi] or [lo]
            h = r.choice(cand) if r.random() < 0.6 else r.randrange(lo, hi + 1)
            n = r.choice([1, 2, 3, 5, 6, 7, 8, 64, 100]) if r.random() < 0.7 else r.randrange(1, top)
            mic = r.random() < 0.2 and h > 1
            t.fork([k, h], n, mic=mic)

        def any_block():
            k = r.choice([1, r.randrange(1, len(t.br)), r.randrange(1, len(t.br))])
            lo, hi = t.br[k][1] + 1, t.br[k][2]
            q = r.random()
            if q < 0.3:
                return [k, hi]
            if q < 0.45:
                return [k, lo]
            cand = [h for h in e if lo <= h <= hi]
            return [k, r.choice(cand)] if cand and q < 0.75 else [k, r.randrange(lo, hi + 1)]
        for _ in range(1500 if c.thorough else 700):
            if t.want:
                t.ask([any_block() for _ in range(3)])
            else:
                x = any_block()
                lo = t.br[x[0]][1]
                t.ask1(x, [max(0, r.choice([x[1] - lo - 1, x[1] - lo, x[1] - lo + 1, x[1] - 1, x[1], x[1] + 1, 100, 99, 101,
                                            r.randrange(2 * x[1]), r.choice(e)]))], op1)
        out.append(t.script())
    return out


def check_tall(c):
    c.model("Tall_MC", TALL_MC_CFG % ((5, 3, 6) if c.thorough else (4, 3, 5)),
            what="branch representation refines Chains", timeout=1800)
    sc = tall_scripts(c)
    c.notes.setdefault("scripts", {})["tall trees"] = len(sc)
    traces = c.run_driver("tall", sc, hang_ms=120000, timeout=800)
    c.sample(dict(script=sc[-1]["id"], events=traces[-1][:6]), limit=5)
    c.validate("TallTrace", traces, TALL_CFG % c.prop, what="all height triples, tall trees", timeout=1500)


def run_validate(c, scripts, what, mode="chains", timeout=600):
    traces = c.run_driver(mode, scripts, timeout=timeout)
    if traces:
        c.sample(dict(script=scripts[0]["id"], events=traces[0][:12]), limit=4)
    c.notes.setdefault("scripts", {})[what] = len(scripts)
    return c.validate("ChainsTrace", traces, TRACE_CFG % ('"%s"' % c.prop), what=what, timeout=timeout)


def check_structural(c, obs=True):
    """C01-C04: every transition of the bounded model, then random and deep histories."""
    big = c.thorough
    kinds = {"line"} if c.prop in ("C01", "C02") else set()
    ops = model_ops(c, 3, 2, True, "transitions", "3 blocks, 2 peers, all transitions")
    run_validate(c, transition_scripts(c, ops, obs, kinds, "T3"), "transitions of the 3-block model")
    if c.violation:
        return
    ops = model_ops(c, 4, 1, True, "transitions", "4 blocks, 1 peer, all transitions")
    run_validate(c, transition_scripts(c, ops, obs, kinds, "T4"), "transitions of the 4-block model")
    if c.violation:
        return
    if big:
        ops = model_ops(c, 4, 2, True, "transitions", "4 blocks, 2 peers, all transitions")
        sc = transition_scripts(c, ops, obs, kinds, "T42")
        for k in range(0, len(sc), 40000):
            run_validate(c, sc[k:k + 40000], "transitions of the 4-block model with 2 peers (part %d)" % (k // 40000), timeout=3000)
            if c.violation:
                return
    n = 400 if big else 60
    run_validate(c, [random_script(c, "R", i, kinds, steps=60) for i in range(n)], "random histories", timeout=2000)
    run_validate(c, [random_script(c, "RR", i, kinds, steps=120, npeers=7, reopen=True) for i in range(n // 4)],
                 "random histories with restarts", timeout=2000)


def check_positions(c):
    """C04, also through the message distributor."""
    check_structural(c)
    if not c.violation:
        import detector
        detector.through(c, "C04", False)


def check_views(c, kinds):
    """C05-C09: every tree shape of the bounded model with every assignment of peers, then random and deep trees."""
    big = c.thorough
    check_tall(c)
    if c.violation:
        return
    shapes = model_ops(c, 4, 1, False, "states", "all shapes of 4 blocks")
    run_validate(c, shape_scripts(c, shapes, kinds, "S4", peers=3 if kinds & {"lcb", "forks", "fork"} else 1, limit=None if big else 120),
                 "all shapes of 4 blocks, all assignments of 3 peers", timeout=1500)
    if c.violation:
        return
    shapes = model_ops(c, 5, 1, False, "states", "all shapes of 5 blocks")
    run_validate(c, shape_scripts(c, shapes, kinds, "S5", peers=2 if kinds & {"lcb", "forks", "fork"} else 1, limit=1200 if big else 150),
                 "shapes of 5 blocks, all assignments of 2 peers", timeout=1500)
    if c.violation:
        return
    ops = model_ops(c, 3, 2, True, "transitions", "3 blocks, 2 peers, all transitions")
    sc = transition_scripts(c, ops, False, kinds, "T3")
    if not big:
        sc = c.rng.sample(sc, 1500)
    run_validate(c, sc, "transitions of the 3-block model", timeout=1500)
    if c.violation:
        return
    n = 300 if big else 40
    run_validate(c, [random_script(c, "R", i, kinds, steps=50, obs_every=25) for i in range(n)], "random histories", timeout=2000)
    run_validate(c, [deep_script(c, "D", i, kinds, 120 if not big else 250) for i in range(n // 2)], "deep random trees", timeout=2000)


CHECKS = {
    "C01": check_structural, "C02": check_structural, "C03": check_structural, "C04": check_positions,
    "C05": lambda c: check_views(c, {"lcb"}),
    "C06": lambda c: check_views(c, {"lastids"}),
    "C07": lambda c: check_views(c, {"forks"}),
    "C08": lambda c: check_views(c, {"fork"}),
    "C09": lambda c: check_views(c, {"gens"}),
}
