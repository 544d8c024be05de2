"""Checks P01..P06: the peer registry as a sequential object, and what of it survives."""
from vlib import *

MC_CFG = """SPECIFICATION MCSpec
VIEW View
INVARIANT MCInv
INVARIANT EmitState
ACTION_CONSTRAINT EmitTransition
PROPERTY HostileForever NobodyForgotten OneRecordAtATime NotForgotten ScoreKept
CHECK_DEADLOCK FALSE
CONSTANTS
 IsV4 <- MCIsV4
 IsLoopback <- MCIsLoopback
 Delay = 1
 NoScore = ""
 Zero <- MCZero
 Addrs = {%(addrs)s}
 MaxTime = %(time)d
 Emit = "%(emit)s"
 Shakes = {%(shakes)s}
"""
TRACE_CFG = """CONSTANTS
 IsV4 <- TraceIsV4
 IsLoopback <- TraceIsLoopback
 Delay = 600
 NoScore = ""
 Zero <- TraceZero
 Focus = {"%s"}
VIEW View
"""
ALL = ["good", "bare", "else", "loop", "six", "old", "foreign"]
SELF = "10.0.0.9"
VERSIONS = [[1, 4, 0], [1, 5, 0], [1, 2, 0]]
ADDR = {"a": "10.0.0.1", "b": "10.0.0.2", "self": SELF, "v6": "2001:db8::1", "loop": "127.0.0.1"}


def quoted(xs):
    return ", ".join('"%s"' % x for x in xs)


def shake(a, k, c):
    h = dict(ver=[1, 4, 3], app="wavesT", name="node-%d" % c, nonce=str(2 ** 63 + c), daddr=a, dport=6000 + c)
    if k == "bare":
        h["daddr"] = ""
    if k == "else":
        h.update(ver=[1, 5, 3], daddr="10.77.0.1")
    if k == "loop":
        h["daddr"] = "127.0.0.1"
    if k == "six":
        h["daddr"] = "2001:db8::1"
    if k == "old":
        h["ver"] = [1, 2, 0]
    if k == "foreign":
        h["app"] = "wavesW"
    return h


def concrete(o):
    o = dict(o)
    if "a" in o:
        o["a"] = ADDR[o["a"]]
    if o["op"] == "register":
        o["hs"] = shake(o["a"], o.pop("k"), o["c"])
    if o["op"] == "append":
        o["l"] = [[ADDR[x[0]], 6000 + i] for i, x in enumerate(o["l"])]
    if o["op"] == "sleep":
        o["s"] = 600
    if o["op"] == "reopen":
        o.update(declared=SELF, versions=VERSIONS)
    if o["op"] == "score":
        o["s"] = "123456789012345678901234567890"
    return o


def model_scripts(c, addrs, shakes, time_, tag, emit, limit=None):
    """One script per transition of the bounded design, or per state of it with some operations added at the end."""
    r = c.model("Registry_MC", MC_CFG % dict(addrs=quoted(addrs), time=time_, emit=emit, shakes=quoted(shakes)),
                what="%d addresses, %d handshakes, time %d" % (len(addrs), len(shakes), time_))
    seqs = [s for s, _ in dedupe_prefixes(r.ops())] if emit == "transitions" else sorted(r.ops(), key=str)
    if limit and len(seqs) > limit:
        seqs = c.rng.sample(seqs, limit)
    if emit == "states":
        for s in seqs:
            n = 100
            known = [o["a"] for o in s if o["op"] == "suggest"]
            for _ in range(4):
                a = c.rng.choice(addrs)
                o = c.rng.choice([dict(op="take"), dict(op="suggest", a=a), dict(op="score", a=a, s=""), dict(op="hostile", a=a),
                                  dict(op="append", l=[[a, 1]]), dict(op="unregister", a=a, c=c.rng.randrange(3)), dict(op="sleep"),
                                  dict(op="reopen")] + [dict(op="register", a=a, k=c.rng.choice(ALL), c=n)] * (4 if a in known else 0))
                n += 1
                if o["op"] == "suggest":
                    known.append(a)
                s.append(o)
    out = []
    for i, s in enumerate(seqs):
        out.append(dict(id="%s-%d" % (tag, i), ops=[dict(op="new", declared=SELF, versions=VERSIONS)] + [concrete(o) for o in s]))
    return out


NAMES = ["", "n", "Node One", "вузол", "x" * 255, "a\u0000b", "(\"quoted\")", "\ufffd"]
POOL = ["10.0.0.%d" % i for i in range(1, 9)] + ["0.0.0.0", "255.255.255.255", "172.16.5.4", "10.1.2.3"]
ODD = ["2001:db8::1", "::1", "fe80::7", "127.0.0.1", "127.0.0.2", "127.255.255.254", SELF]


def random_versions(r):
    n = r.randrange(1, 6)
    vs = [[r.choice([1, 1, 1, 0, 2]), r.randrange(1, 6), r.randrange(0, 4)] for _ in range(n)]
    if r.random() < 0.3:
        vs.append([vs[0][0], vs[0][1], 9])
    return vs


def random_history(c, i, steps, tag, crash=False, peers=None):
    r = random.Random("%s/%d/%d" % (tag, c.seed, i))
    pool = r.sample(POOL, peers or r.randrange(2, 7))
    vs = random_versions(r)
    declared = r.choice([SELF, "", SELF, r.choice(pool)])
    declared = "" if declared == "0.0.0.0" else declared      # that is none
    s = [dict(op="new", declared=declared, versions=vs)]
    cid, stored, live = 1, {}, []     # stored: version last negotiated, as far as followed here
    seen = set()

    def suggest(a):
        s.append(dict(op="suggest", a=a))
        seen.add(a)
    for _ in range(steps):
        a = r.choice(pool)
        k = r.random()
        if k < 0.14:
            s.append(dict(op="take"))
        elif k < 0.26:
            n = r.randrange(0, 6)
            s.append(dict(op="append", l=[[r.choice(pool + ODD if r.random() < 0.4 else pool), r.choice([0, 1, 6868, 6868, 65535])] for _ in range(n)]))
        elif k < 0.38:
            suggest(r.choice([a, a, a, a, r.choice(ODD[:3] + ["a01:203::", SELF])]))
        elif k < 0.68:
            if a not in seen or r.random() < 0.2:
                suggest(a)
            v = r.choice(vs)
            d = r.random()
            ver = [v[0], max(0, v[1] + r.choice([0, 0, 0, 1, -1])), r.randrange(5)] if d < 0.75 else \
                [v[0] + r.choice([0, 1]), v[1] + r.choice([2, 3, 100, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1]), 0]
            app = r.choice(["wavesT"] * 8 + ["wavesW", "T", "wavest", "wavesTX", "T\u00e9", "", "XXXXXT"])
            h = dict(ver=ver, app=app, name=r.choice(NAMES), nonce=str(r.choice([0, 1, 2 ** 64 - 1, 2 ** 63, r.randrange(2 ** 64)])),
                     daddr=r.choice([a, a, a, "", r.choice(pool), "127.0.0.1", "2001:db8::1", "10.77.0.1"]), dport=r.choice([0, 1, 6868, 65535]))
            if r.random() < 0.08:
                h["namex"] = r.choice(["ff", "61ff62", "c328", "ed9f80eda080", "00fe"])
                h["name"] = ""
            at = a
            if r.random() < 0.06:
                at = r.choice([SELF, "2001:db8::1", "a01:203::"])
                if at == SELF and declared != SELF:
                    at = a
            s.append(dict(op="register", a=at, c=cid, hs=h))
            live.append((at, cid))
            cid += 1
        elif k < 0.78:
            at, cc = r.choice(live[-6:]) if live and r.random() < 0.7 else (a, 0)
            s.append(dict(op="unregister", a=at, c=cc))
        elif k < 0.87:
            s.append(dict(op="score", a=a, s=str(r.choice([0, 1, 2 ** 63, 2 ** 64, 10 ** 40, r.randrange(10 ** 30)]))))
        elif k < 0.895:
            s.append(dict(op="hostile", a=a))
        elif k < 0.96 or crash:
            s.append(dict(op="sleep", s=r.choice([1, 9, 10, 300, 599, 600, 601, 1200, 86400])))
        else:
            if r.random() < 0.5:
                vs = random_versions(r)
            if r.random() < 0.4:
                declared = r.choice(["", SELF] + [x for x in pool if x != "0.0.0.0"])
            s.append(dict(op="reopen", declared=declared, versions=vs))
            live = []
    return dict(id="%s-%d" % (tag, i), ops=s)


def offering_history(c, i):
    """Versions offered to peers that are connected to over the loopback network."""
    r = random.Random("RO/%d/%d" % (c.seed, i))
    vs = r.sample([[1, 5, 0], [1, 5, 2], [1, 4, 0], [1, 4, 3], [1, 3, 0], [1, 0, 0], [2, 0, 0]], r.randrange(1, 5))
    pool = ["127.0.0.1", "127.0.0.2", "127.255.255.254"]
    s = [dict(op="new", declared=SELF, versions=vs)]
    for _ in range(20):
        a, k = r.choice(pool), r.random()
        if k < .6:
            s.append(dict(op="offer", a=a))
        elif k < .8:
            s.append(dict(op="suggest", a=a))
        elif k < .85:
            s.append(dict(op="hostile", a=a))
        elif k < .95:
            s.append(dict(op="sleep", s=r.choice([1, 599, 600, 4000])))
        else:
            s.append(dict(op="reopen", declared=SELF, versions=vs))
    return dict(id="RO-%d" % i, ops=s)


def crash_history(c, i, steps, stride):
    r = random.Random("RC/%d/%d" % (c.seed, i))
    x = random_history(c, i, 3 * steps, "RC", crash=True, peers=4)
    ops = x["ops"]
    out, n = [ops[0]], 1
    for part in range(3):
        out += ops[n:n + steps]
        n += steps
        out.append(dict(op="crashall", c=r.randrange(stride), stride=stride))
        out.append(dict(op="recover", frac=r.choice([-1, 1, 0, r.random(), r.random()])))
    out += [dict(op="append", l=[["10.9.0.%d" % k, k] for k in range(1, 6)]), dict(op="crashall", c=0, stride=7)]
    # after a crash a peer may not be negotiated with any more: registration follows a negotiation
    fixed = []
    for o in out:
        if o["op"] == "register":
            fixed.append(dict(op="suggest", a=o["a"]))
        fixed.append(o)
    return dict(id="RC-%d" % i, par=dict(crash=True), ops=fixed)


def run(c, focus):
    big = c.thorough
    cfg = TRACE_CFG % focus
    sc = model_scripts(c, ["a"], ALL, 3, "A", "transitions")
    sc += model_scripts(c, ["a", "b"], ["good", "old"], 1, "B", "states", None if big else 3000)
    if big:
        c.model("Registry_MC", MC_CFG % dict(addrs=quoted(["a", "b"]), time=3, emit="no", shakes=quoted(["good", "old", "loop", "foreign"])), what="2 addresses, time 3")
    traces = c.run_driver("registry", sc, timeout=1500)
    c.sample(dict(script=sc[-1]["id"], events=traces[-1][:6]))
    c.validate("RegistryTrace", traces, cfg, what="histories of the bounded design", timeout=1500)
    if c.violation:
        return
    n, steps = (600, 120) if big else (120, 80)
    sc = [random_history(c, i, steps if i % 5 else 3 * steps, "R") for i in range(n)]
    c.validate("RegistryTrace", c.run_driver("registry", sc, timeout=1500), cfg, what="random histories", timeout=1500)


    if focus == "P05" and not c.violation:
        offers(c, focus)


def offers(c, focus):
    sc = [offering_history(c, i) for i in range(200 if c.thorough else 40)]
    c.validate("RegistryTrace", c.run_driver("registry", sc, timeout=1500), TRACE_CFG % focus, what="handshakes sent on connecting", timeout=1500)


LIN_CFG = """CONSTANTS
 IsV4 <- TraceIsV4
 IsLoopback <- TraceIsLoopback
 Delay = 600
 NoScore = ""
 Zero <- TraceZero
CONSTRAINT Progress
"""


def conc_history(c, i):
    r = random.Random("RL/%d/%d" % (c.seed, i))
    pool = POOL[:r.choice([1, 2, 3])]
    cid = [0]

    def op(a, k):
        if k == "register":
            cid[0] += 1
            v = r.choice([[1, 5, 1], [1, 5, 1], [1, 4, 0], [2, 0, 0]])
            return dict(op=k, a=a, c=cid[0], hs=dict(ver=v, app=r.choice(["wavesT", "wavesT", "wavesT", "wavesW"]), name="n%d" % cid[0],
                                                     nonce=str(cid[0]), daddr=r.choice([a, ""]), dport=6868))
        if k == "append":
            return dict(op=k, l=[[x, r.choice([1, 6868])] for x in r.sample(pool, r.randrange(1, len(pool) + 1))])
        if k == "unregister":
            return dict(op=k, a=a, c=r.randrange(0, cid[0] + 1))
        if k == "score":
            return dict(op=k, a=a, s=str(r.randrange(5)))
        return dict(op=k, a=a)
    setup = [op(a, "append") for a in pool] + [op(r.choice(pool), r.choice(["suggest", "suggest", "score"])) for _ in range(r.randrange(3))]
    seen = {o["a"] for o in setup if o["op"] == "suggest"}
    kinds = r.choice([["take", "take", "unregister", "suggest", "append"], ["score", "register", "unregister", "suggest", "peers"],
                      ["take", "suggest", "register", "unregister", "score", "append", "hostile", "peers", "friendly", "connections", "broadcast"]])
    threads = []
    for t in range(r.choice([2, 3, 4])):
        th, mine = [], set(seen)
        for _ in range(r.randrange(2, 5)):
            a = r.choice(pool)
            o = op(a, r.choice(kinds))
            if o["op"] == "register" and a not in mine:
                th.append(dict(op="suggest", a=a))
            if o["op"] in ("register", "suggest"):
                mine.add(a)
            th.append(o)
        threads.append(th)
    if "connections" in kinds or r.random() < 0.5:
        threads[0] += [dict(op="peers"), dict(op="connections")]
    return dict(id="RL-%d" % i, par=dict(declared=SELF, versions=[[1, 5, 0], [1, 4, 0]], setup=setup, threads=threads), ops=[])


def concurrent(c):
    n = 12000 if c.thorough else 2000
    traces = c.run_driver("regconc", [conc_history(c, i) for i in range(n)], workers=4, timeout=1500)
    c.notes["calls_overlapping_others"] = sum(1 for t in traces for e in t for o in e["ops"]
                                              if any(p["inv"] < o["ret"] and o["inv"] < p["ret"] and p is not o for p in e["ops"]))
    c.validate("RegistryLin", traces, LIN_CFG, spec="Spec", what="concurrent histories", timeout=1500)


def sequential_and_concurrent(c, focus):
    run(c, focus)
    if not c.violation:
        concurrent(c)


def crashes(c):
    sequential_and_concurrent(c, "P06")
    if c.violation:
        return
    big = c.thorough
    sc = [crash_history(c, i, 14, 2 if i % 8 == 0 else 11 if big else 41) for i in range(64 if big else 16)]
    traces = c.run_driver("registry", sc, timeout=1500)
    c.notes["crash_points"] = sum(1 for t in traces for e in t if e["op"] in ("crash", "recover"))
    if c.validate("RegistryTrace", traces, TRACE_CFG % "P06", what="crash points", timeout=1500):
        import detector
        detector.through(c, "P06", False)


def through_detector(c, focus, first):
    """The registry alone, then as the connection manager and the message distributor use it."""
    import detector
    first(c, focus)
    if not c.violation:
        detector.through(c, focus, focus in ("P02", "P03", "P05"))


CHECKS = {p: (lambda c, p=p: through_detector(c, p, run)) for p in ["P02", "P04", "P05"]}
CHECKS["P01"] = lambda c: sequential_and_concurrent(c, "P01")
CHECKS["P03"] = lambda c: through_detector(c, "P03", sequential_and_concurrent)
CHECKS["P06"] = crashes

_NOTE = ("TLC checks the bounded registry exhaustively and generates one history per transition (one address, all handshakes) and samples of the "
         "states of a larger instance; all are executed on the real registry in virtual time and TLC decides every step of every recorded trace, "
         "as of random longer histories%s. Sampled beyond the bounds; trusted: the driver's recording and leveldb.")
NOTES = {p: ("TLA+ model checking (TLC) with conformance replay and trace validation", _NOTE % x) for p, x in
         [("P01", ", and of concurrent ones (linearization search)"), ("P02", ""), ("P03", ", and of concurrent ones (linearization search)"), ("P04", ""), ("P05", ""),
          ("P06", ", of concurrent ones (linearization search), and of stores reopened after their log was cut anywhere")]}
