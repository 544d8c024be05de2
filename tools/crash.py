"""Check C10: what survives when the process dies."""
from vlib import *
from chains import MC_CFG, TRACE_CFG, PEERS, PEERS6, new_op, random_bt, random_ts

CFG = TRACE_CFG.replace("VIEW View\n", "") % '"C10"'


def history(r, n, peers, known=None, first=1):
    """n operations; returns them and the blocks they make known if all are carried out."""
    known = known if known is not None else [0]
    ops, nxt = [], first
    for _ in range(n):
        a = r.choice(peers)
        k = r.random()
        if k < 0.12:
            ops.append(dict(op="move", b=0, a=a))     # any other may be lost by then
        elif k < 0.2:
            ops.append(dict(op="put", b=nxt, p=nxt + 5000, bt="100", ts="5", gen=1, a=a))
            nxt += 1
        elif k < 0.28 and len(known) > 1:
            ops.append(dict(op="put", b=r.choice(known[1:]), p=0, bt="100", ts="5", gen=1, a=a))
        elif k < 0.5 and len(known) > 1:
            ops.append(dict(op="micro", b=nxt, r=r.choice(known[1:][-4:]), a=a))
            known.append(nxt)
            nxt += 1
        else:
            ops.append(dict(op="put", b=nxt, p=r.choice(known[-3:]) if r.random() < .8 else r.choice(known),
                            bt=str(random_bt(r)), ts=str(random_ts(r)), gen=r.randrange(4), a=a))
            known.append(nxt)
            nxt += 1
    return ops, known, nxt


def crash_script(c, i, steps, stride):
    r = random.Random("C10/%d/%d" % (c.seed, i))
    peers = r.sample(PEERS + PEERS6[:1], 3)
    s = [new_op("K%d/%d" % (c.seed, i), bt=str(random_bt(r)), ts=str(random_ts(r)), gen=r.randrange(4))]
    known, nxt = [0], 1
    if i % 6 == 0:
        s.append(dict(op="crashall", n=0, stride=1))        # every byte of the initialisation
    for part in range(3):
        ops, known, nxt = history(r, r.randrange(2, steps), peers, known, nxt)
        s += ops
        s.append(dict(op="crashall", n=r.randrange(stride), stride=stride))
        s.append(dict(op="recover", frac=r.choice([-1, -1, 1, 0, r.random(), r.random(), r.random()])))
        # blocks lost in the crash stay in `known`: operations on them are refused or record them again
    ops, known, nxt = history(r, 4, peers, known, nxt)
    s += ops + [dict(op="recover", frac=-1), dict(op="crashall", n=0, stride=stride)]
    return dict(id="K-%d" % i, ops=s)


def kill_script(c, i, rounds, churn):
    r = random.Random("C10k/%d/%d" % (c.seed, i))
    peers = r.sample(PEERS, 2)
    s = [new_op("Z%d/%d" % (c.seed, i))]
    known, nxt = [0], 1
    for _ in range(rounds):
        n = r.randrange(2, 40)
        ops, known, nxt = history(r, n, peers, known, nxt)
        if churn and r.random() < 0.8:
            ops.insert(r.randrange(len(ops) + 1), dict(op="churn", a="10.9.9.9", n=churn, bs=[0]))
        s.append(dict(op="kill", child=ops, acks=r.randrange(len(ops) + 1), delay=r.choice([0, 0, 50, 200, 1000, 20000 if churn else 0])))
    return dict(id="Z-%d" % i, ops=s)


def check(c):
    big = c.thorough
    c.model("Chains_CrashMC", MC_CFG.replace("MCSpec", "CrashSpec") % dict(n=4 if big else 3, peers='"p0"', moves="TRUE", emit="no", long=2),
            what="crashes between the writes of a delivery")
    cfg = CFG + "\n"

    def go(mode, scripts, what, timeout=800):
        traces = c.run_driver(mode, scripts, timeout=timeout, hang_ms=120000)
        c.sample(dict(script=scripts[0]["id"], events=[e for e in traces[0] if e["op"] in ("crash", "recover")][:3]), limit=4)
        k = c.notes.setdefault("crash_points", {})
        k[what] = sum(1 for t in traces for e in t if e["op"] in ("crash", "recover"))
        c.validate("CrashTrace", traces, cfg, spec="CTSpec", what=what, timeout=timeout)
    n = 60 if big else 16
    go("crash", [crash_script(c, i, 24 if big else 12, 3 if i % 10 == 0 else 23 if big else 67) for i in range(n)],
       "log cut at every kind of place", timeout=2400)
    if c.violation:
        return
    go("kill", [kill_script(c, i, 12 if big else 6, 0) for i in range(60 if big else 16)], "process killed", timeout=1500)
    if c.violation:
        return
    go("kill", [kill_script(c, 1000 + i, 8 if big else 3, 60000) for i in range(24 if big else 8)], "process killed while tables are written", timeout=1500)


CHECKS = {"C10": check}
