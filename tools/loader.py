"""Checks L01..L06: loading of history."""
from vlib import *

MC_COMMON = """CONSTANTS
 Genesis = 0
 NoBlock <- MCNoBlock
 ScoreAdd <- MCAdd
 ScoreLess <- MCLess
 ScoreDiff <- MCDiff
 BlockScore <- MCScore
 Acceptable <- MCAcceptable
 LongFork = 5
 Batch = 3
 Nobody = "nobody"
"""
MC_CFG = """SPECIFICATION MCSpec
VIEW View
INVARIANT MCInv
INVARIANT EmitState
ACTION_CONSTRAINT EmitTransition
PROPERTY SentOK SelectOK OthersAlone
CHECK_DEADLOCK FALSE
""" + MC_COMMON + """ Threshold = %(threshold)d
 TimeoutMin = %(timeout)d
 TimeoutMax = %(timeout)d
 SelectWithin = 1
 Peers = {%(peers)s}
 Lists <- MCLists
 Emit = "%(emit)s"
 MaxOps = %(ops)d
 Relink = %(relink)s
"""
LIVE_CFG = """SPECIFICATION LiveSpec
INVARIANT LoaderOK
PROPERTY Reconstructed
CHECK_DEADLOCK FALSE
""" + MC_COMMON + """ Threshold = 2
 TimeoutMin = 2
 TimeoutMax = 2
 SelectWithin = 1
 Own <- %s
 Responsive = {%s}
 Silent = {%s}
 Page = %d
"""
TRACE_CFG = """CONSTANTS
 Genesis = 0
 NoBlock <- TraceNoBlock
 LongFork = 5
 ScoreAdd <- BigAdd
 ScoreLess <- BigLess
 ScoreDiff <- TraceDiff
 BlockScore <- TableScore
 Acceptable <- InRange
 Batch = 100
 Threshold = 10
 TimeoutMin = 28000
 TimeoutMax = 33000
 SelectWithin = 8000
 Nobody = "nobody"
 Focus = {"%s"}
VIEW View
CONSTRAINT Progress
"""
MAXI = str(2 ** 63 - 1)     # a block with this base target adds 2 to the score
ADDR = {"a": "10.0.0.1", "b": "10.0.0.2"}


def quoted(xs):
    return ", ".join('"%s"' % x for x in xs)


def blk(p, bt=MAXI, ts=None, gen=0):
    return dict(p=p, bt=str(bt), ts=str(ts if ts is not None else 1700000000000 + p), gen=gen)


MC_TREE = {"0": blk(-1), "1": blk(0), "2": blk(1), "3": blk(0), "7": blk(6), "8": blk(1, 2 ** 63)}


def mute(a, ver=3):
    return dict(a=a, ver=ver, chain=[0], page=1, mute=1, drop=1)


def concrete(o, fast):
    o = dict(o)
    if "a" in o:
        o["a"] = ADDR[o["a"]]
    if o["op"] == "sleep":
        ph = o.pop("ph")
        o["ms"] = 11000 if not fast else 6000 if ph == "idle" else 34000
    if o["op"] == "score":
        o["s"] = str(2 * o["s"])
    return o


def model_scripts(c, tag, limit, **kw):
    r = c.model("Loader_MC", MC_CFG % kw, what="peers %(peers)s, %(ops)d operations, threshold %(threshold)d" % kw)
    seqs = [s for s, _ in dedupe_prefixes(r.ops())]
    if limit and len(seqs) > limit:
        seqs = c.rng.sample(seqs, limit)
    par = dict(salt=tag, seed=1, tree=MC_TREE, peers=[mute(a) for a in ADDR.values()], odd=[])
    return [dict(id="%s-%d" % (tag, i), par=par, ops=[concrete(o, kw["timeout"] == 1) for o in s] + [dict(op="sleep", ms=45000), dict(op="shutdown")])
            for i, s in enumerate(seqs)]


def random_tree(r, nchains, length, old=False):
    """Some chains with common beginnings; odd blocks are identified by signatures, as all are in old chains."""
    step = 2 if old else 1
    tree = {"0": blk(-1, r.choice([100, MAXI, 153722867]))}
    chains, nxt = [[0]], 1
    for _ in range(nchains):
        src = r.choice(chains)
        keep = r.choice([1, len(src), r.randrange(1, len(src) + 1)])
        ch = src[:keep]
        for _ in range(r.randrange(0, length + 1)):
            tree[str(nxt)] = blk(ch[-1], r.choice([100, 100, 120, 153722867, MAXI, 0]), gen=r.randrange(5))
            ch.append(nxt)
            nxt += step
        chains.append(ch)
    odd = []
    for p, bt in [(nxt + 1000, 100), (0, 2 ** 63), (r.choice(chains)[-1], 2 ** 64 - 1), (r.choice(chains)[0], 77)]:
        tree[str(nxt)] = blk(p, bt)
        odd.append(nxt)
        nxt += step
    return tree, chains[1:], odd


def walk(c, i):
    """Longer random histories over the blocks of the bounded design: rounds that help, that do not help, and that fail."""
    r = random.Random("LW/%d/%d" % (c.seed, i))
    n = r.choice([1, 1, 2])
    addrs = list(ADDR.values())[:n]
    lists = [[0], [0, 1], [1], [1, 2], [0, 1, 2], [3], [0, 3], [2], [1, 8], [7], []]
    ops = [dict(op="connect", a=a) for a in addrs] + [dict(op="score", a=a, s=r.choice(["4", "6", "6", "7"])) for a in addrs]
    for _ in range(r.randrange(10, 30)):
        k = r.random()
        a = r.choice(addrs)
        if k < .3:
            ops.append(dict(op="sleep", ms=6000))
            ops.append(dict(op="ids", a=a, l=r.choice(lists)))
        elif k < .45:
            ops.append(dict(op="ids", a=a, l=r.choice(lists)))
        elif k < .7:
            ops.append(dict(op=r.choice(["blk", "blk", "live"]), a=a, b=r.choice([1, 2, 3, 1, 2, 3, 7, 8])))
        elif k < .75:
            ops.append(dict(op="score", a=a, s=r.choice(["2", "4", "6", "8"])))
        elif k < .8:
            ops.append(dict(op="put", a=a, b=r.choice([1, 3])))
        else:
            ops.append(dict(op="sleep", ms=r.choice([6000, 34000, 34000, 20000, 70000])))
    ops += [dict(op="sleep", ms=45000), dict(op="shutdown")]
    return dict(id="LW-%d" % i, par=dict(salt="LW%d" % i, seed=1, tree=MC_TREE, peers=[mute(a) for a in ADDR.values()], odd=[]), ops=ops)


def score_of(tree, chain):
    return sum(2 ** 64 // int(tree[str(b)]["bt"]) if int(tree[str(b)]["bt"]) else 0 for b in chain)


def random_history(c, i, tag, minutes):
    r = random.Random("%s/%d/%d" % (tag, c.seed, i))
    old = r.random() < 0.25
    long = r.random() < 0.15
    n = r.randrange(1, 5)
    tree, chains, odd = random_tree(r, n if not long else 2, (260 if c.thorough else 150) if long else 12, old)
    peers = []
    for j, ch in enumerate(chains):
        bad = r.random() < 0.6
        peers.append(dict(a="10.0.0.%d" % (j + 1), ver=1 if old else r.choice([2, 3, 3, 1]), chain=ch, page=r.choice([2, 3, 100]) if not long else r.choice([40, 100]),
                          mute=r.choice([0, .3, 1]) if bad else 0, lie=r.choice([0, .3, .6]) if bad else 0, drop=r.choice([0, 0.1, .4]) if bad else 0,
                          dup=r.choice([0, .2]), wrong=r.choice([0, .2]) if bad else 0, delay=r.choice([0, 500, 3000, 15000, 40000]),
                          shuffle=r.random() < .6, quiet=r.choice([0, 0, .5, 1])))
    ops = []
    up = set()

    def connect(p):
        if p["a"] not in up:
            ops.append(dict(op="connect", a=p["a"]))
            up.add(p["a"])

    def announce(p):
        s = score_of(tree, p["chain"])
        ops.append(dict(op="score", a=p["a"], s=str(r.choice([s, s, s, s + 1, s + 10 ** 20, 0]))))
    for p in peers:
        if r.random() < 0.8:
            connect(p)
            if r.random() < 0.8:
                announce(p)
    left = minutes * 60000
    while left > 0:
        ms = r.choice([100, 1000, 3000, 7000, 20000, 40000, 60000])
        ops.append(dict(op="sleep", ms=ms))
        left -= ms
        k = r.random()
        p = r.choice(peers)
        if k < 0.25:
            connect(p)
            announce(p)
        elif k < 0.35:
            if p["a"] in up:
                ops.append(dict(op="disconnect", a=p["a"]))
                up.discard(p["a"])
        elif k < 0.5:
            b = r.choice(p["chain"][1:] + odd) if r.random() < .5 else p["chain"][-1]
            if b and p["a"] in up:
                ops.append(dict(op="live", a=p["a"], b=b))
        elif k < 0.62 and p["a"] in up:
            l = r.choice([p["chain"][-3:], [], odd[:1], r.choice(chains)[:4], list(reversed(p["chain"][:3]))])
            ops.append(dict(op="ids", a=p["a"], l=l))
        elif k < 0.7 and p["a"] in up:
            ops.append(dict(op="blk", a=p["a"], b=r.choice(odd)))
    ops.append(dict(op="shutdown"))
    return dict(id="%s-%d" % (tag, i), par=dict(salt="%s%d" % (tag, i), seed=r.randrange(1 << 30), tree=tree, peers=peers, odd=odd), ops=ops)


def failing_history(c, i):
    """One peer that fails for a long time, so that loading restarts from the last common block, and succeeds later."""
    r = random.Random("LF/%d/%d" % (c.seed, i))
    tree, chains, odd = random_tree(r, 3, 8)
    peers = [dict(a="10.0.0.%d" % (j + 1), ver=3, chain=ch, page=3, mute=0, lie=0, drop=0, delay=100) for j, ch in enumerate(chains)]
    for p in peers[:2]:
        p["mute"] = r.choice([.9, 1, .8])
    ops = []
    for p in peers:
        ops.append(dict(op="connect", a=p["a"]))
        for b in p["chain"][1:r.randrange(1, len(p["chain"]) + 1)]:
            ops.append(dict(op="put", a=p["a"], b=b))
    ops += [dict(op="score", a=p["a"], s=str(score_of(tree, p["chain"]) + r.choice([0, 1]))) for p in peers[:r.choice([1, 2, 3])]]
    for _ in range(9):
        ops.append(dict(op="sleep", ms=100000))
    ops += [dict(op="shutdown")]
    return dict(id="LF-%d" % i, par=dict(salt="LF%d" % i, seed=r.randrange(1 << 30), tree=tree, peers=peers, odd=odd), ops=ops)


def giving_up_history(c, i):
    """A peer on a fork of its own that stays silent for dozens of rounds, with no one else to load from."""
    r = random.Random("LG/%d/%d" % (c.seed, i))
    trunk = r.randrange(0, 4)
    tree = {"0": blk(-1)}
    main, fork, nxt = [0], [0], 1
    for _ in range(trunk):
        tree[str(nxt)] = blk(main[-1])
        main.append(nxt)
        fork.append(nxt)
        nxt += 1
    for ch, n in ((main, r.randrange(2, 7)), (fork, r.randrange(1, 4))):
        for _ in range(n):
            tree[str(nxt)] = blk(ch[-1], gen=r.randrange(3))
            ch.append(nxt)
            nxt += 1
    kind = r.choice(["ids", "ids", "blocks"])
    tree[str(nxt)] = blk(fork[-1])
    p = dict(a="10.0.0.1", ver=r.choice([3, 3, 1]), chain=fork + [nxt], page=100, mute=1 if kind == "ids" else 0, lie=0, drop=0 if kind == "ids" else 1, delay=100)
    q = dict(a="10.0.0.2", ver=3, chain=main, page=100, mute=0, lie=0, drop=0, delay=100)
    ops = []
    for x, ch in r.sample([(p, fork), (q, main)], 2):
        ops.append(dict(op="connect", a=x["a"]))
        ops += [dict(op="put", a=x["a"], b=b) for b in ch[1:]]
    ops.append(dict(op="score", a=p["a"], s=str(10 ** 30)))
    for _ in range(r.choice([6, 13])):
        ops.append(dict(op="sleep", ms=100000))
        if r.random() < .1:
            ops += [dict(op="disconnect", a=p["a"]), dict(op="sleep", ms=r.choice([1000, 60000])), dict(op="connect", a=p["a"])]
    ops.append(dict(op="shutdown"))
    return dict(id="LG-%d" % i, par=dict(salt="LG%d" % i, seed=r.randrange(1 << 30), tree=tree, peers=[p, q], odd=[]), ops=ops)


def bystander_history(c, i):
    """While loading from one peer, others deliver the very blocks and lists it is asked for, in any order."""
    r = random.Random("LH/%d/%d" % (c.seed, i))
    n = r.randrange(1, 6)
    tree = {str(b): blk(b - 1, gen=b % 3) for b in range(n + 2)}
    chain = list(range(n + 1))
    p, q = mute("10.0.0.1"), mute("10.0.0.2")
    ops = [dict(op="connect", a=x["a"]) for x in r.sample([p, q], 2)]
    ops.append(dict(op="score", a=p["a"], s=str(10 ** 30)))
    if r.random() < .3:
        ops.append(dict(op="score", a=q["a"], s="1"))
    have = r.choice([0, 0, 0, 1])
    ops += [dict(op="put", a=r.choice([p, q])["a"], b=b) for b in chain[1:have + 1]]
    for _ in range(r.randrange(1, 4)):
        ops.append(dict(op="sleep", ms=r.choice([6000, 6000, 38000])))
        if r.random() < .3:
            ops.append(dict(op="ids", a=q["a"], l=r.choice([chain, chain[1:], []])))
        ops.append(dict(op="ids", a=p["a"], l=chain[r.choice([0, 1]):] + ([n + 1] if r.random() < .3 else [])))
        own = [b for b in chain[1:] if r.random() < .5]
        mine = [(p, b) for b in own]
        alien = [(q, b) for b in chain[1:] if b not in own or r.random() < .3]
        some = mine + alien
        if r.random() < .5:
            some.sort(key=lambda x: x[1])
        else:
            r.shuffle(some)
        for x, b in some:
            ops.append(dict(op="blk" if x is q or r.random() < .5 else "live", a=x["a"], b=b))
            if r.random() < .1:
                ops.append(dict(op="ids", a=q["a"], l=r.choice([chain, chain[1:], [n + 1]])))
        rest = [b for b in chain[1:] if b not in own]
        if r.random() < .6:
            ops += [dict(op="blk", a=p["a"], b=b) for b in rest]
    ops += [dict(op="sleep", ms=45000), dict(op="shutdown")]
    return dict(id="LH-%d" % i, par=dict(salt="LH%d" % i, seed=1, tree=tree, peers=[p, q], odd=[]), ops=ops)


def settling_history(c, i, silent):
    """Responsive peers on any forks among silent ones: in the end all are where they belong."""
    r = random.Random("LS/%d/%d" % (c.seed, i))
    old = r.random() < .2
    tree, chains, odd = random_tree(r, r.randrange(1, 6), r.choice([8, 8, 30, 240]), old)
    peers, ops = [], []
    for j, ch in enumerate(chains):
        peers.append(dict(a="10.0.0.%d" % (j + 1), ver=1 if old else 3, chain=ch, page=r.choice([100, 100, 7]), mute=0, lie=0, drop=0,
                          dup=r.choice([0, .2]), delay=r.choice([0, 1000, 9000]), shuffle=r.random() < .5, quiet=0))
    for j in range(r.randrange(0, silent + 1)):
        peers.append(dict(a="10.0.1.%d" % (j + 1), ver=3, chain=[0], page=1, mute=1, drop=1))
    order = peers[:]
    r.shuffle(order)
    for p in order:
        ops.append(dict(op="connect", a=p["a"]))
        real = p["chain"]
        while len(real) > 1 and int(tree[str(real[-1])]["bt"]) == 0:
            real.pop()      # such a block does not show in the announced score
        for b in real[1:] if r.random() < .3 else []:
            ops.append(dict(op="put", a=p["a"], b=b))
        if r.random() < .3 and len(real) > 1:
            ops.append(dict(op="live", a=p["a"], b=real[-1]))
        s = score_of(tree, real) if p["mute"] == 0 else 10 ** 40
        ops.append(dict(op="score", a=p["a"], s=str(s)))
        if r.random() < .3:
            ops.append(dict(op="sleep", ms=r.choice([1000, 30000])))
    late = [p for p in peers if p["mute"] == 0 and r.random() < .3] if r.random() < .4 else []
    for p in late:      # fails for many rounds before it answers at last
        p[r.choice(["mute", "drop"])] = 1
    if late:
        ops += [dict(op="sleep", ms=600000)] * r.choice([1, 2, 4]) + [dict(op="voice", a=p["a"]) for p in late]
    for _ in range(9):
        ops.append(dict(op="sleep", ms=600000))
    ops += [dict(op="settled"), dict(op="shutdown")]
    return dict(id="LS-%d" % i, par=dict(salt="LS%d" % i, seed=r.randrange(1 << 30), tree=tree, peers=peers, odd=odd), ops=ops)


def run(c, focus):
    big = c.thorough
    cfg = TRACE_CFG % focus
    c.model("Loader_MC", MC_CFG % dict(peers=quoted("a"), ops=99, threshold=2, timeout=3, emit="no", relink="FALSE"), what="one peer, unbounded histories")
    if big:
        c.model("Loader_MC", MC_CFG % dict(peers=quoted("ab"), ops=12, threshold=2, timeout=2, emit="no", relink="TRUE"), what="two peers", timeout=1800)
    par = dict(threshold=10, emit="transitions")
    sc = model_scripts(c, "LA", None if big else 500, peers=quoted("a"), ops=9 if big else 7, timeout=3, relink="FALSE", **par)
    sc += model_scripts(c, "LB", 4000 if big else 400, peers=quoted("ab"), ops=8 if big else 7, timeout=3, relink="TRUE", **par)
    sc += model_scripts(c, "LC", 6000 if big else 600, peers=quoted("a"), ops=9 if big else 7, timeout=1, relink="FALSE", **par)
    traces = c.run_driver("loader", sc, timeout=1500)
    c.sample(dict(script=sc[-1]["id"], events=traces[-1][:8]))
    c.validate("LoaderTrace", traces, cfg, what="histories of the bounded design", timeout=1500)
    if c.violation:
        return
    sc = [random_history(c, i, "LR", 20 if big else 12) for i in range(400 if big else 48)] + [failing_history(c, i) for i in range(60 if big else 8)]
    sc += [walk(c, i) for i in range(2000 if big else 200)]
    sc += [giving_up_history(c, i) for i in range(100 if big else 16)] + [bystander_history(c, i) for i in range(1000 if big else 150)]
    c.validate("LoaderTrace", c.run_driver("loader", sc, timeout=1500), cfg, what="random histories", timeout=1500)


def settle(c):
    big = c.thorough
    for own, resp, silent, page in [("MCOwn", "ab", "s", 2), ("MCOwn", "abc", "st", 1), ("MCOwn2", "ab", "s", 2)] + ([("MCOwn2", "abc", "stu", 1)] if big else []):
        c.model("Loader_Live", LIVE_CFG % (own, quoted(resp), quoted(silent), page), what="liveness: %s with %s silent" % (resp, silent), timeout=1800)
    sc = [settling_history(c, i, 5) for i in range(400 if big else 100)]
    traces = c.run_driver("loader", sc, timeout=1500)
    c.sample(dict(script=sc[0]["id"], events=traces[0][-1:]))
    traces = [[e for e in t if e["op"] in ("new", "settled") or e["moved"]] for t in traces]
    c.validate("LoaderTrace", traces, TRACE_CFG % "L06", what="settled histories", timeout=1500)


CHECKS = {p: (lambda c, p=p: run(c, p)) for p in ["L01", "L02", "L03", "L04", "L05"]}
CHECKS["L06"] = settle


def bystanders(c):
    run(c, "L03")
    if not c.violation:
        import detector
        detector.through(c, "L03", False)


CHECKS["L03"] = bystanders
_NOTE = ("Loader.tla (with Chains.tla): design model-checked for one and two peers (blocks, forks, refused and foreign blocks), its transitions replayed on the real "
         "loader with real stores in virtual time and the recorded messages, store changes and times validated against the specification by TLC; so are random histories "
         "with simulated peers (silent, lying, slow, repeating, of the old protocol). Not judged: the loader's reaction to failures of LevelDB itself.")
NOTES = {p: ("TLA+ model checking (TLC) with conformance replay and trace validation", _NOTE) for p in ["L01", "L02", "L03", "L04", "L05"]}
NOTES["L06"] = ("TLA+ liveness checking (TLC) with conformance runs", "Loader_Live.tla: <>[] every responsive peer on the head of its chain, checked under weak fairness of the loader and strong "
                "fairness of the selection of each lagging peer; the real loader is run for 90 virtual minutes with simulated responsive and silent peers on random forks and the final positions "
                "are judged. Eventuality is judged on the code within this horizon.")
