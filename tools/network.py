"""Check N01: the program itself in a network of simulated nodes."""
from vlib import *
import api, chains
from process import build_program

MC_CFG = """SPECIFICATION %s
INVARIANT MCInv
%s
CHECK_DEADLOCK FALSE
CONSTANTS N = %d MaxHeight = %d MaxTrouble = %d Emit = "%s"
"""
NETNS = ["unshare", "-Urn", "sh", "-c", 'ip link set lo up && ip addr add 10.0.0.1/8 dev lo && exec "$@"', "sh"]


class Tree:
    """Blocks of the network; names of version 5 blocks are even."""

    def __init__(self, r, old):
        self.r, self.old, self.t, self.n = r, old, {}, -1 if old else 0

    def name(self):
        self.n += 2
        return self.n

    def add(self, p):
        b = self.name()
        self.t[b] = dict(p=p, bt=str(self.r.choice([50, 60, 100, 1000])), ts=str(1600000000000 + self.r.randrange(10 ** 9)),
                         gen=self.r.randrange(4), v=self.r.choice([1, 2, 3, 4]) if self.old else 5, tx=self.r.choice([0, 0, 0, 1]))
        return b

    def extend(self, chain, k):
        c = list(chain)
        for _ in range(k):
            c.append(self.add(c[-1] if c else 0))
        return c

    def score(self, chain):
        return sum(2 ** 64 // int(self.t[b]["bt"]) for b in chain)


def reach(nodes, seeds):
    """Who is going to be connected: to know when to stop waiting. The specification decides."""
    known, up = set(seeds), set()
    while True:
        u = {n["a"] for n in nodes if n["kind"] in ("good", "quiet") and (n["call"] or (n["listen"] and n["a"] in known))}
        k = known | {x[0] for n in nodes if n["a"] in u for x in n["tells"]}
        if u == up and k == known:
            return sorted(u)
        known, up = k, u


def gets(r, addrs):
    q = api.views() + [dict(what="forks"), dict(what="active")]
    some = r.sample(addrs, min(3, len(addrs)))
    q += [dict(what=w, req=some) for w in ("forks", "active")]
    for a in some:
        q += [dict(what="fork", a=a), dict(what="gens", a=a, n=r.choice([0, 1, 5, 1000]))]
    return dict(op="gets", gets=q)


def life(c, k, shape, program, seed):
    """shape: nodes as the model has them (kind, listen, call, tells by number); the first is the seed."""
    r = random.Random(seed)
    old = r.random() < 0.2
    versions = "1.1" if old else r.choice(["1.5", "1.5,1.4"])
    declared = "10.%d.0.%d:6868" % (k, r.choice([1, 1, 2]))
    if not any(n["call"] for n in shape) and r.random() < 0.3:
        declared = ""
    port = 20000 + k
    net = "10.%d.0.1:%d" % (k, port)
    addr = ["10.%d.0.%d" % (k, 10 + i) for i in range(len(shape))]
    ports = [r.choice([6868, 6863, 1 + r.randrange(65535)]) for _ in shape]
    tree = Tree(r, old)
    trunk = tree.extend([], r.choice([1, 3, 8]))
    tall = r.random() < 0.15
    nodes = []
    for i, n in enumerate(shape):
        chain = []
        if n["kind"] == "good":
            cut = r.choice([len(trunk), len(trunk), r.randrange(1, len(trunk) + 1)])
            chain = tree.extend(trunk[:cut], r.choice([0, 0, 1, 2, 7]))
            if tall and i == 0:
                chain = tree.extend(chain, r.choice([99, 105, 160]))
        kind = n["kind"]
        if kind == "foreign" and r.random() < 0.4:
            kind = "other"
        ver = [1, 1, r.randrange(3)] if old else [1, 5 if versions == "1.5" else r.choice([4, 5]), r.randrange(8)]
        if kind == "other":
            ver = [1, 7 if old else 1, 0]
        nodes.append(dict(a=addr[i], port=ports[i] if n["listen"] else 0, listen=n["listen"], call=n["call"], kind=kind,
                          tells=[[addr[j - 1], ports[j - 1] if shape[j - 1]["listen"] else 0] for j in n["tells"]],
                          junk=r.choice([[], [], [["127.0.0.1", 6868]], [["10.%d.0.1" % k, 6868]] if declared[:-5] == "10.%d.0.1" % k else []]),
                          eager=n.get("eager", r.random() < 0.9), name=r.choice(api.NAMES[:7]) or "x", nonce=r.choice([0, i + 1, 2 ** 40 + i]),
                          ver=ver, chain=chain, lag=r.choice([0, 1, 3])))
    seeds = ["%s:%d" % (addr[0], nodes[0]["port"] or 6868)]
    want = reach(nodes, [addr[0]])
    good = [n for n in nodes if n["a"] in want and n["kind"] == "good"]
    lazy = not all(n["eager"] for n in nodes)
    settle = dict(op="settle", want=want, ms=(260 if lazy else 170) * 1000)
    ops = [dict(op="start")]
    if not want:
        ops.append(dict(op="wait", ms=12000))
    ops += [settle, gets(r, addr)]
    chain = {n["a"]: n["chain"] for n in nodes}
    for _ in range(0 if lazy else r.choice([0, 1, 2])):
        if not good:
            break
        for n in r.sample(good, r.randrange(1, len(good) + 1)):
            a, q = n["a"], r.random()
            if q < 0.25 and chain[a]:
                b = tree.name()
                tree.t[b] = dict(tree.t[chain[a][-1]])
                ops.append(dict(op="micro", a=a, chain=[b]))
                chain[a] = chain[a][:-1] + [b]
                continue
            if q < 0.5:     # another branch
                fork = r.randrange(max(0, len(chain[a]) - 99), len(chain[a]) + 1)   # nodes never go back further
                new = tree.extend(chain[a][:fork], 1)
                while tree.score(new) <= tree.score(chain[a]):
                    new = tree.extend(new, 1)
            elif q < 0.65 and len(good) > 1:    # somebody else's chain
                o = r.choice(good)["a"]
                near = not chain[a] or set(chain[a][-99:]) & set(chain[o])
                new = tree.extend(chain[a], 1) if not near else chain[o] if tree.score(chain[o]) > tree.score(chain[a]) else tree.extend(chain[o] if tree.score(chain[o]) == tree.score(chain[a]) else chain[a], 1)
            else:
                new = tree.extend(chain[a], r.choice([1, 1, 2, 5]))
            chain[a] = new
            ops.append(dict(op="grow", a=a, chain=new, k=r.choice(["push", "score"])))
        ops += [settle, gets(r, addr)]
    if r.random() < 0.3 and len(want) > 1 and not lazy:
        ops += [dict(op="lose", a=r.choice(want)), settle, gets(r, addr)]
    if r.random() < 0.4:
        ops += [dict(op="crowd")]
    if r.random() < 0.5 and not lazy:
        ops += [dict(op="kill"), dict(op="start"), settle, gets(r, addr)]
    ops += [dict(op="term")]
    return dict(id="N%d" % k, par=dict(salt=seed, program=program, bind=r.choice([net, net, "0.0.0.0:%d" % port]), net=net, api="10.%d.0.1:8080" % k,
                                       declared=declared, versions=versions, name=r.choice(["forkdetector", "det x"]), seeds=seeds, nodes=nodes,
                                       tree=tree.t, ranks=api.RANKS), ops=ops)


def random_shape(r, n):
    """A bigger network; most nodes are told of by others."""
    s = []
    for i in range(n):
        kind = r.choice(["good"] * 6 + ["quiet", "mute", "foreign"]) if i else "good"
        listen = i == 0 or kind == "mute" or r.random() < 0.8
        s.append(dict(kind=kind, listen=listen, call=kind != "mute" and (not listen or r.random() < 0.2), tells=[]))
    for i in range(n):
        if s[i]["kind"] in ("good", "quiet"):
            s[i]["tells"] = sorted(r.sample([j + 1 for j in range(n) if j != i], r.randrange(0, min(3, n))))
    return s


def far_shape(r):
    """Nodes that are known only to nodes that have to be discovered and asked first."""
    s = [dict(kind=r.choice(["good", "quiet"]), listen=True, call=False, tells=[i + 2], eager=False) for i in range(2)]
    return s + [dict(kind="good", listen=True, call=False, tells=[], eager=True)]


def n01(c):
    big = c.thorough
    c.model("Network_MC", MC_CFG % ("LiveSpec", "PROPERTY ReachStable Live", 2, 2, 2 if big else 1, "no"), what="2 nodes, losses, restarts; liveness", timeout=900)
    m = c.model("Network_MC", MC_CFG % ("MCSpec", "INVARIANT EmitNet", 3, 2 if big else 1, 1 if big else 0, "nets"), what="all networks of 3 nodes", timeout=1800)
    nets = sorted((o[0]["nodes"] for o in m.ops()), key=json.dumps)
    c.notes["networks of 3 nodes"] = len(nets)
    nets = [s for s in nets if sum(n["kind"] in ("good", "quiet") for n in s) > 1]
    program = build_program(c)
    rounds = 6 if big else 1
    for i in range(rounds):
        if c.violation:
            return
        shapes = [[dict(n) for n in s] for s in c.rng.sample(nets, 12)] + [random_shape(c.rng, c.rng.randrange(4, 9)) for _ in range(14)] \
            + [far_shape(c.rng) for _ in range(2)]
        scripts = [life(c, k + 1, s, program, "N/%d/%d/%d" % (c.seed, i, k)) for k, s in enumerate(shapes)]
        traces = c.run_driver("net", scripts, workers=len(scripts), hang_ms=600000, limit_ms=700000, timeout=800, wrap=NETNS)
        for t in traces[-3:]:
            c.sample(dict(script=t[0]["t"] if t else "", events=t[:10]), limit=3)
        cnt = c.notes.setdefault("events", {})
        for t in traces:
            for e in t:
                cnt[e["op"]] = cnt.get(e["op"], 0) + 1
        c.validate("NetTrace", traces, chains.TRACE_CFG % '"A01"', what="lives of the program", spec="NetSpec", timeout=600)


CHECKS = {"N01": n01}
NOTES = {"N01": (
    "TLA+ specification of the detector within a network of nodes (Network.tla), model-checked with TLC for all networks of three nodes, with liveness; "
    "networks enumerated by TLC and bigger random ones are simulated around the real program in a network namespace of its own, and every recorded "
    "event and API answer is validated by TLC against the network alone (NetTrace.tla over Network, Api and Chains)",
    "Real time: what is to come about is waited for up to minutes, and lives are sampled. Reconnection after a loss (10 minutes) is not waited for.")}
