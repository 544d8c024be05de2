#!/usr/bin/env python3
"""seedtest.py [--check] [--props C01,C02] ID...: verify planted bugs in a scratch copy of /repo, and run the checks on them.
Not used by any registered check."""
import json, os, re, shutil, subprocess, sys
V = "/verif"; WT = "/tmp/wt-%d" % os.getpid()
sys.path.insert(0, V + "/tools")
import vlib
ENV = dict(os.environ); ENV.update(vlib.GOENV); ENV["PATH"] = vlib.GOENV["GOROOT"] + "/bin:" + ENV["PATH"]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.output)


def tests(cwd):
    rc, out = sh("go test -json -vet=off -count=1 ./...", cwd)
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return sorted(STABLE - ok)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    props = [a.split("=")[1].split(",") for a in flags if a.startswith("--props=")]
    ids = args or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        shutil.copytree("/repo", WT, symlinks=True)
        try:
            res = []
            if "--fast" not in flags:
                rc, out = sh("bash %s/demo.sh" % d, WT, timeout=300)
                res.append("demo-clean=%s" % ("ok" if rc == 0 else "FAILS\n" + out[-1500:]))
            rc, out = sh("git apply %s/patch.diff" % d, WT)
            if rc: print(i, "PATCH DOES NOT APPLY", out); continue
            if "--fast" not in flags:
                rc, out = sh("go build ./...", WT)
                res.append("build=%s" % ("ok" if rc == 0 else "FAILS " + out[-800:]))
                t = tests(WT)
                res.append("tests=%s" % ("ok" if not t else "FAIL %s" % t))
                rc, out = sh("bash %s/demo.sh" % d, WT, timeout=300)
                res.append("demo-bug=%s" % ("fails(good)" if rc else "PASSES(bad)"))
            if "--check" in flags:
                for p in (props[0] if props else [meta["property"]]):
                    e = dict(os.environ); e["VERIF_REPO"] = WT
                    rc, out = sh("python3 %s/run.py check %s" % (V, p), V, env=e)
                    line = [l for l in out.splitlines() if l.startswith(("VIOLATION", "mismatch"))]
                    res.append("check %s: rc=%d %s" % (p, rc, " | ".join(line)[:300] if rc == 1 else ("" if rc == 0 else out[-1500:])))
            print(i, "[%s]" % meta["property"], "; ".join(res), flush=True)
        finally:
            shutil.rmtree(WT, ignore_errors=True)


main()
