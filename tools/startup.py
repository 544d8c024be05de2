"""Check N02: parameters of the program, several instances of it, and what they keep."""
from vlib import *
from network import NETNS
from process import build_program
import sys

MC_CFG = """SPECIFICATION MCSpec
INVARIANT MCInv
PROPERTY Kept
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS MaxOdd = %d MaxLen = %d Emit = "%s"
"""
CALLS = [(1, 5, 0), (1, 4, 9), (1, 6, 1), (1, 3, 0), (1, 2, 3), (1, 1, 0), (1, 7, 0), (2, 5, 0), (0, 5, 0)]
APPS = dict(mainnet="wavesW", testnet="wavesT", TestNet="wavesT", stagenet="wavesS")


def observe(r, ops, calls):
    out = []
    for op in ops:
        out += [op, dict(op="look")]
        if op["op"] == "launch":
            app = APPS.get(op["c"]["type"], "wavesT")
            for _ in range(calls):
                out.append(dict(op="call", ver=r.choice(CALLS[:3] * 2 + CALLS), app=app if r.random() < 0.85 else r.choice(["wavesW", "wavesT", "wavesS", "waves"])))
    return out


def launches(c, program, histories, calls, rounds=1):
    """At most 250 histories at a time: each has a network of its own."""
    for at in range(0, len(histories), 250):
        part = histories[at:at + 250]
        d = tempfile.mkdtemp(prefix="job-", dir=c.scratch)
        scripts = []
        for k, h in enumerate(part):
            ops = observe(c.rng, h, calls)
            if h[-1]["op"] == "launch":
                ops += [dict(op="stop", i=i, k=c.rng.choice(["term", "term", "kill"])) for i in ("i2", "i1")]
            scripts.append(dict(id="S%d" % (at + k), k=k + 1, ops=ops))
        json.dump(dict(program=program, scratch=d + "/db", workers=CPUS * 2, scripts=scripts, out=d + "/out"), open(d + "/job", "w"))
        try:
            p = subprocess.run([*NETNS, sys.executable, "-B", VERIF + "/tools/startup_driver.py", d + "/job"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=c.left(1500))
        except subprocess.TimeoutExpired as x:
            raise CheckError("launches timed out: " + str(x.output)[-2000:])
        if p.returncode != 0:
            raise CheckError("launches failed: " + p.stdout[-3000:])
        traces = json.load(open(d + "/out"))
        shutil.rmtree(d, ignore_errors=True)
        for t in traces[:2]:
            c.sample(t[:4], limit=3)
        for t in traces:
            for e in t:
                key = e["op"] + (" " + e["res"] if e["op"] == "launch" else "")
                c.notes[key] = c.notes.get(key, 0) + 1
                if e["op"] == "call" and e["listed"]:
                    c.notes["callers accepted"] = c.notes.get("callers accepted", 0) + 1
        c.validate("StartupTrace", traces, "", what="launches", timeout=600)
        if c.violation:
            return


def n02(c):
    big = c.thorough
    single = c.model("Startup_MC", MC_CFG % (1, 1, "launches"), what="launches with an unusual parameter").ops()
    pairs = c.model("Startup_MC", MC_CFG % (2, 1, "launches"), what="launches with two unusual parameters").ops()
    hist = c.model("Startup_MC", MC_CFG % (1, 6 if big else 5, "transitions"), what="histories of two instances").ops()
    uniq = lambda s: [json.loads(x) for x in sorted({json.dumps(h, sort_keys=True) for h in s})]
    single, pairs, hist = uniq(single), uniq(pairs), [h for h in uniq(hist) if len(h) > 1]
    c.notes["launches of the models"] = [len(single), len(pairs), len(hist)]
    program = build_program(c)
    launches(c, program, single + c.rng.sample(pairs, min(len(pairs), 1700 if big else 500)), 3 if big else 2)
    if not c.violation:
        launches(c, program, c.rng.sample(hist, min(len(hist), 2000 if big else 350)), 1)


CHECKS = {"N02": n02}
NOTES = {"N02": (
    "TLA+ specification of starting the program (Startup.tla): which parameters are adopted or refused, what instances do to each other and what they keep; "
    "TLC enumerates every launch with one unusual parameter, those with two, and histories of two instances; they are executed with the real program in a "
    "network namespace of its own, and its exit, files, API and handshakes are validated by TLC (StartupTrace.tla)",
    "Classes of parameters, not all strings; launches with two unusual parameters and histories are sampled in the quick tier.")}
