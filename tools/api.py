"""Check A01: the HTTP API as views of the stores."""
from vlib import *
import chains
from chains import PEERS, PEERS6, MAXI, MAXT, LATE, random_bt

MC_CFG = """SPECIFICATION AMCSpec
VIEW AView
INVARIANT AMCInv
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 Genesis = 0
 NoBlock <- MCNoBlock
 LongFork = 2
 MaxBlocks = %(n)d
 Peers = {%(peers)s}
 Moves = FALSE
 Emit = "%(emit)s"
 ScoreAdd <- MCAdd
 ScoreLess <- MCLess
 BlockScore <- MCScore
 Acceptable <- MCAcceptable
"""
NAMES = ["node", "Alpha", "alpha", "beta", "Gamma-2", "zeta <&>", "1st", "имя", "\"q\"", "", "new\nline"]
RANK = sorted({n.upper() for n in NAMES})
RANKS = [[n, RANK.index(n.upper())] for n in NAMES]
STRANGER = "172.16.0.1"
BAD = ["garbage", "1.2.3", "256.1.1.1", "10.0.0.1:6868", "10.0.0.01", "[::1]", "::g", "%20", "10.0.0.1%25eth0", "-", "0x0a000001", "10.0.0.1%2Fx"]
BADN = ["abc", "1.5", "0x10", "9999999999999999999999", "-", "1e3", "%20", "5%2F", "null"]


def op_new(salt, r=None, **kw):
    return dict(chains.new_op(salt, **kw), ranks=RANKS)


def hs(r, a, c, bad=None):
    h = dict(ver=r.choice([[1, 5, 0], [1, 5, 7], [1, 4, 2]]), app="wavesT", name=r.choice(NAMES), nonce=str(r.choice([0, 1, 2 ** 64 - 1, c])),
             daddr=a, dport=6868)
    if bad == "foreign":
        h["app"] = "wavesW"
    return h


def views():
    return [dict(what=w) for w in ("all", "friendly", "connections", "heads", "leashes", "status")]


def fork_requests(r, peers, some=False):
    q = [dict(what="forks"), dict(what="active"), dict(what="forks", rawq="?peers="), dict(what="active", rawq="?peers=%20,,")]
    subs = [[p] for p in peers] + [peers, peers[:2], [STRANGER], [peers[0], STRANGER]]
    if some:
        subs = r.sample(subs, 3)
    for s in subs:
        q.append(dict(what=r.choice(["forks", "active"]) if some else "forks", req=s))
        if not some:
            q.append(dict(what="active", req=s))
    s = r.sample(peers, min(2, len(peers)))
    q.append(dict(what=r.choice(["forks", "active"]), req=s, rawq="?peers=%20" + "%2C%20".join(s) + "%2C&x=1"))
    q.append(dict(what=r.choice(["forks", "active"]), req=[], bad=True, rawq="?peers=%s%%2C%s" % (peers[0], r.choice([b for b in BAD if b != "%20"]))))
    return q


def peer_requests(r, peers, some=False):
    q = []
    for a in (r.sample(peers, 2) if some and len(peers) > 2 else peers) + [STRANGER, "2001:db8::77"]:
        q.append(dict(what="fork", a=a))
        for n in ([r.choice([0, 1, 2, 3, 1000])] if some else [0, 1, 3, 1000]):
            q.append(dict(what="gens", a=a, n=n))
    a = r.choice(peers)
    q.append(dict(what="gens", a=a, n=r.choice([MAXI, 2 ** 31, 2 ** 32, 1 << 62])))
    q.append(dict(what="gens", a=a, n=0, badn=True, rawn=r.choice(BADN)))
    q.append(dict(what="gens", a=STRANGER, n=0, badn=True, rawn=r.choice(BADN)))
    q.append(dict(what="gens", a=a, n=5, rawn=r.choice(["+5", "005"]), lax=True))
    q.append(dict(what="gens", a=a, n=-5, rawn=r.choice(["-1", "-5", "-1000", "-9223372036854775808"]), lax=True))
    b = r.choice(BAD)
    q.append(dict(what="fork", a=a, raw=b, bad=True))
    q.append(dict(what="gens", a=a, raw=r.choice(BAD), bad=True, n=r.choice([0, 1])))
    q.append(dict(what="gens", a=a, raw=r.choice(BAD), bad=True, badn=True, rawn=r.choice(BADN)))
    # other ways to write an address
    if ":" in a:
        q.append(dict(what="fork", a=a, raw=a + "%25eth0", lax=True))
        q.append(dict(what="gens", a=a, raw=a + "%25eth0", lax=True, n=2))
    else:
        q.append(dict(what="fork", a=a, raw="::ffff:" + a, lax=True))
        q.append(dict(what="gens", a=a, raw="::ffff:" + a, lax=True, n=2))
    q.append(dict(what="other", raw=r.choice(["/", "", "/fork", "/fork/", "/fork/%s/generators" % a, "/fork/%s/generators/" % a, "/nothing",
                                              "/fork/%s/generators/1/2" % a, "/peers", "/forks/", "/status?x=%zz", "/forks?peers=%zz"])))
    return q


def everything(r, peers, some=False):
    q = views() + fork_requests(r, peers, some) + peer_requests(r, peers, some)
    if some:
        r.shuffle(q)
    return q


class Conns:
    """Connections are numbered."""

    def __init__(self, r):
        self.r, self.c, self.of = r, 0, {}

    def register(self, a, bad=None):
        self.c += 1
        self.of[a] = self.c
        return dict(op="register", a=a, c=self.c, hs=hs(self.r, a, self.c, bad))

    def unregister(self, a):
        return dict(op="unregister", a=a, c=self.of.get(a, 0))


def concrete(o, k):
    o = dict(o)
    if o["op"] in ("put", "micro", "move"):
        return chains.concrete(o)
    a = PEERS[int(o["a"][1:])]
    if o["op"] == "register":
        return k.register(a)
    if o["op"] == "unregister":
        return k.unregister(a)
    if o["op"] == "append":
        return dict(op="append", l=[[a, 6868]])
    return dict(o, a=a)


def model_scripts(c, n, peers, limit):
    cfg = MC_CFG % dict(n=n, peers=", ".join('"p%d"' % i for i in range(peers)), emit="transitions")
    m = c.model("Api_MC", cfg, what="%d blocks, %d peers, connections" % (n, peers), timeout=1200)
    seqs = [s for s, _ in dedupe_prefixes(m.ops())]
    c.notes.setdefault("model histories", {})["%d/%d" % (n, peers)] = len(seqs)
    if len(seqs) > limit:
        seqs = c.rng.sample(seqs, limit)
    out = []
    for i, s in enumerate(seqs):
        r = random.Random("M/%d/%d/%d" % (c.seed, n, i))
        k = Conns(r)
        ops = [op_new("M%d/%d" % (c.seed, i))]
        for j, o in enumerate(s):
            ops.append(concrete(o, k))
            if j == len(s) - 2 or (j < len(s) - 2 and r.random() < 0.15):
                ops.append(dict(op="gets", gets=everything(r, PEERS[:peers], True)))
        ops.append(dict(op="gets", gets=everything(r, PEERS[:peers])))
        out.append(dict(id="M%d%d-%d" % (n, peers, i), ops=ops))
    return out


def random_history(c, i, steps):
    r = random.Random("R/%d/%d" % (c.seed, i))
    v4 = PEERS + ["8.8.8.8", "0.0.0.0", "255.255.255.255"]
    peers = r.sample(v4, 4) + r.sample(["2001:db8::1", "::1", "fe80::1"], 1)
    k = Conns(r)
    # timestamps from the epoch to the far future, which the store may refuse or keep: answers have to be there anyhow
    far = [MAXT, MAXT - 1] + LATE if i % 2 else []
    ops = [op_new("R%d/%d" % (c.seed, i), bt=str(random_bt(r)), ts=str(r.randrange(2 ** 41)), gen=r.randrange(4))]
    ops.append(dict(op="gets", gets=everything(r, peers)))
    known, nxt = [0], 1
    for _ in range(steps):
        q = r.random()
        a = r.choice(peers)
        if q < 0.45:
            p = known[-1] if r.random() < 0.6 else r.choice(known)
            ts = r.choice(far) if far and r.random() < 0.1 else r.choice([r.randrange(2 ** 41), 0])
            ops.append(dict(op="put", b=nxt, p=p, bt=str(random_bt(r)), ts=str(ts), gen=r.randrange(4), a=a))
            if ts <= MAXT:
                known.append(nxt)
            nxt += 1
        elif q < 0.55 and len(known) > 1:
            ops.append(dict(op="micro", b=nxt, r=r.choice(known[1:]), a=a))
            known.append(nxt)
            nxt += 1
        elif q < 0.65:
            ops.append(dict(op="move", b=r.choice(known), a=a))
        elif q < 0.78:
            ops.append(k.register(a, r.choice([None, None, None, "foreign"])))
        elif q < 0.86:
            ops.append(k.unregister(a))
        elif q < 0.9:
            ops.append(dict(op="append", l=[[x, r.randrange(1, 65536)] for x in r.sample(v4, 2)]))
        elif q < 0.95:
            ops.append(dict(op="score", a=a, s=str(r.choice([0, 1, 2 ** 64, 10 ** 50]))))
        elif q < 0.97:
            ops.append(dict(op="hostile", a=a))
        else:
            ops.append(dict(op="reopen"))
            k.of = {}
        if r.random() < 0.3:
            g = everything(r, peers, True)
            ops.append(dict(op=r.choice(["gets", "burst"]), gets=g))
    ops.append(dict(op="gets", gets=everything(r, peers)))
    return dict(id="R-%d" % i, ops=ops)


def storm(c, i):
    """Requests all the while the stores change."""
    r = random.Random("W/%d/%d" % (c.seed, i))
    s = random_history(c, 10000 + 2 * i, 60)["ops"]
    body = [o for o in s[2:] if o["op"] not in ("gets", "burst", "reopen")]
    peers = sorted({o["a"] for o in body if o["op"] == "put"})[:4] or PEERS
    gets = [g for g in everything(r, peers) if not (g.get("bad") or g.get("badn") or g.get("lax"))]
    r.shuffle(gets)
    return dict(id="W-%d" % i, ops=[s[0], dict(op="storm", gets=gets, ops=body), dict(op="gets", gets=everything(r, peers))])


def tall(c, i, n):
    """Longer than the thousand blocks that generators of the longest fork are counted over."""
    r = random.Random("L/%d/%d" % (c.seed, i))
    k = Conns(r)
    a, b, z = PEERS
    ops = [op_new("L%d/%d" % (c.seed, i), bt="100")]
    fork = r.choice([2, n - 7, n - 6, n - 3])
    for x in range(1, n):
        ops.append(dict(op="put", b=x, p=x - 1, bt="100", ts=str(1000 + x), gen=x % 3 if x > n - 1000 else 5, a=a))
    for x in range(n, n + 5):
        ops.append(dict(op="put", b=x, p=fork if x == n else x - 1, bt="100", ts=str(1000 + x), gen=4, a=b))
    ops.append(dict(op="move", b=r.choice([0, 1, n // 2]), a=z))
    ops += [k.register(a), k.register(z)]
    g = views() + [dict(what=w, a=p, n=m) for p in (a, b, z) for w, m in (("fork", 0), ("gens", 0), ("gens", 7), ("gens", 999 + i))]
    g += [dict(what="forks"), dict(what="active"), dict(what="active", req=[b])]
    ops.append(dict(op="gets", gets=g))
    return dict(id="L-%d" % i, ops=ops)


def check_api(c):
    big = c.thorough
    consts = chains.TRACE_CFG % '"A01"'

    def go(scripts, what, timeout=900):
        if c.violation:
            return
        traces = c.run_driver("api", scripts, timeout=timeout)
        if traces:
            c.sample(dict(script=scripts[-1]["id"], events=traces[-1][:8]), limit=4)
        c.notes.setdefault("scripts", {})[what] = len(scripts)
        c.notes["requests"] = c.notes.get("requests", 0) + sum(1 for t in traces for e in t if e["op"] == "get")
        c.validate("ApiTrace", traces, consts, what=what, spec="ApiSpec", timeout=timeout)
    go([dict(id="E-%d" % i, ops=[op_new("E%d" % i), dict(op="gets", gets=everything(c.rng, PEERS)), dict(op="burst", gets=everything(c.rng, PEERS)),
                                 dict(op="reopen"), dict(op="gets", gets=everything(c.rng, PEERS))]) for i in range(3)], "empty stores")
    go(model_scripts(c, 2, 2, 3000 if big else 250), "transitions of the model, 2 blocks and 2 peers")
    go(model_scripts(c, 3, 1, 3000 if big else 150), "transitions of the model, 3 blocks and 1 peer")
    go([random_history(c, i, 40) for i in range(400 if big else 60)], "random histories", 2000)
    go([storm(c, i) for i in range(60 if big else 10)], "requests while the stores change")
    go([tall(c, i, 1004 + i) for i in range(8 if big else 2)], "more than a thousand blocks", 1500)


CHECKS = {"A01": check_api}
NOTES = {"A01": (
    "TLA+ specification of the API's answers as views of chain store and registry (Api.tla over Chains.tla), model-checked with TLC; histories "
    "generated by TLC are replayed on the real stores behind the real HTTP server and every recorded answer is validated by TLC (ApiTrace.tla)",
    "Answers are compared with the stores' own state as recorded between operations; requests running while the stores change are only required "
    "to be answered without server error.")}
