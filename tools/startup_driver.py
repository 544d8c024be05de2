"""Executes launches of the real program: startup_driver.py JOB. Runs within a network of its own (see startup.py)."""
import http.client, json, os, signal, socket, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
from process import handshake

NAMES = dict(plain="fork", spaces="a b", unicode="узел №1", longest="n" * 255, toolong="n" * 256, widest="\u00e9" * 127, wide="\u00e9" * 130)


class Script:
    def __init__(self, job, s):
        self.k, self.s, self.program = s["k"], s, job["program"]
        self.dir = "%s/%d" % (job["scratch"], self.k)
        os.makedirs(self.dir + "/f1")
        os.makedirs(self.dir + "/f2")
        open(self.dir + "/file", "w").close()
        self.ip = "10.%d.0." % self.k
        self.seed = "10.%d.1." % self.k
        self.apiport, self.netport = 8000 + self.k, 20000 + self.k
        self.procs, self.cfg, self.calls, self.ev = {}, {}, 0, []
        self.busy = []

    def emit(self, op, **kw):
        self.ev.append(dict(op=op, t=self.s["id"], **kw))

    def args(self, c):
        ip, sd = self.ip, self.seed
        s1, s2 = sd + "1:6868", sd + "2:6863"
        def endpoint(kind, port, v):
            return {"": "", "a1": ip + "1:%d" % port, "a2": ip + "2:%d" % port, "n1": ip + "1:%d" % port, "n2": ip + "2:%d" % port,
                    "anywhere": "0.0.0.0:%d" % port, "v6": "[::]:%d" % port, "mapped": "[::ffff:%s1]:%d" % (ip, port),
                    "host": "localhost:%d" % port, "noport": ip + "1", "bigport": ip + "1:7%d" % (70000 + port)}[v]
        db = {"": "", "missing": self.dir + "/none", "file": self.dir + "/file"}.get(c["db"], self.dir + "/" + c["db"])
        peers = dict(one=s1, two=s1 + "," + s2, blanks=" %s ,, %s," % (s1, s2), v6="[2001:db8::5]:6868," + s1, loop="127.0.0.5:6868," + s2,
                     self=ip + "9:6868", host="node.example:6868", noport=sd + "1", bigport=sd + "1:70000", semicolon=s1 + ";" + s2).get(c["peers"], "")
        declared = dict(own=ip + "9:6868", mapped="[::ffff:%s9]:6868" % ip, v6="[2001:db8::9]:6868", host="node.example:6868", noport=ip + "9",
                        bigport=ip + "9:66666").get(c["declared"], "")
        versions = {"": "", "one": "1.5", "two": "1.5,1.4", "three": "1.2,1.3,1.1.7", "twice": "1.5,1.5", "short": "1.5.0", "blank": "1.5,", "words": "new",
                    "four": "1.5.0.1", "negative": "1.-5"}[c["versions"]]
        typ = dict(other="waves").get(c["type"], c["type"])
        a = ["-db", db, "-blockchain-type", typ, "-peers", peers, "-api", endpoint("api", self.apiport, c["api"]), "-net",
             endpoint("net", self.netport, c["net"]), "-declared-address", declared, "-name", NAMES.get(c["name"], ""), "-versions", versions]
        if c["log"]:
            a += ["-log-level", "LOUD" if c["log"] == "other" else c["log"]]
        return a + dict(words=["or", "so"], flag=["-unknown"]).get(c["more"], [])

    def api(self, c):
        return self.ip + ("2" if c["api"] == "a2" else "1")

    def get(self, c, path):
        h = http.client.HTTPConnection(self.api(c), self.apiport, timeout=10)
        try:
            h.request("GET", path)
            r = h.getresponse()
            return r.status, r.read()
        finally:
            h.close()

    def files(self):
        return sorted(os.path.join(d, x) for d, ds, fs in os.walk(self.dir) for x in ds + fs if not x.startswith("log"))

    def launch(self, i, c):
        if i in self.procs:
            raise RuntimeError("already running")
        for b, kind, port in ((c["apibusy"], "api", self.apiport), (c["netbusy"], "net", self.netport)):
            if b:
                s = socket.socket()
                s.bind((self.ip + "1", port))
                s.listen(1)
                self.busy.append(s)
        before = self.files()
        log = self.dir + "/log-" + i
        with open(log, "wb") as f:
            p = subprocess.Popen([self.program, *self.args(c)], stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=self.dir)
        end = time.time() + 60
        res = "hang"
        # Whoever answers at the address may be somebody else: the process is the one that counts, after it has had time to fail.
        while time.time() < end:
            if p.poll() is not None:
                res = "refused"
                break
            if not c["apibusy"] and not any(self.api(self.cfg[j]) == self.api(c) or "anywhere" in (c["api"], self.cfg[j]["api"]) for j in self.procs):
                try:
                    if self.get(c, "/api/status")[0] == 200:
                        res = "up"
                        break
                except OSError:
                    pass
            elif time.time() > end - 25:     # somebody else's address, and it goes on: as good as adopted
                res = "up"
                break
            time.sleep(0.03)
        if res != "refused":
            self.procs[i], self.cfg[i] = p, c
            self.emit("launch", i=i, c=c, res=res)
            return
        for s in self.busy:
            s.close()
        self.busy = []
        out = open(log, "rb").read().decode("utf8", "replace")
        self.emit("launch", i=i, c=c, res=res, code=p.returncode, said=bool(out.strip()), panic="panic:" in out or "goroutine " in out,
                  wrote=self.files() != before, out=out[-300:])

    def look(self, i):
        c = self.cfg[i]
        try:
            status, body = self.get(c, "/api/peers/all")
            all_ = [x["address"] for x in json.loads(body)] if status == 200 else []
        except OSError:
            status, all_ = 0, []
        mine = [a for a in all_ if a.startswith(self.seed) or a.startswith(self.ip + "9:")]
        names = {self.seed + "1:6868": "s1", self.seed + "2:6863": "s2", self.ip + "9:6868": "self"}
        self.emit("book", i=i, status=status, l=[names.get(a, a) for a in mine], others=sorted(a for a in all_ if a not in mine and not a.startswith(self.ip)))

    def call(self, i, ver, app):
        c = self.cfg[i]
        self.calls += 1
        me = self.ip + "%d" % (10 + self.calls)
        e = dict(heard=False, listed=False, rapp="", rname="", rver=[0, 0, 0], rdeclared=False)
        hopeful = c["declared"] in ("own", "mapped")
        s = None
        for _ in range(100 if hopeful else 2):
            try:
                s = socket.socket()
                s.bind((me, 0))
                s.settimeout(8)
                s.connect((self.ip + ("2" if c["net"] == "n2" else "1"), self.netport))
                e["heard"] = True
                break
            except OSError:
                s.close()
                s = None
                time.sleep(0.05)
        if s is not None and not c["netbusy"]:
            try:
                s.sendall(handshake(b"caller", self.calls, app=app.encode(), version=tuple(ver)))
                b = b""
                def take(n):
                    nonlocal b
                    while len(b) < n:
                        x = s.recv(4096)
                        if not x:
                            raise OSError("end")
                        b += x
                    r, b = b[:n], b[n:]
                    return r
                e["rapp"] = take(take(1)[0]).decode()
                e["rver"] = [int.from_bytes(take(4), "big") for _ in range(3)]
                n = take(take(1)[0]).decode("utf8", "replace")
                e["rname"] = {v: k for k, v in NAMES.items()}.get(n, n)
                take(8)
                d = take(int.from_bytes(take(4), "big"))
                e["rdeclared"] = d == socket.inet_aton(self.ip + "9") + (6868).to_bytes(4, "big")
                take(8)
            except OSError:
                pass
            ok = lambda: me in [x["address"].split(":")[0] for x in json.loads(self.get(c, "/api/connections")[1]) or []]
            try:
                for _ in range(150):
                    if ok():
                        e["listed"] = True
                        break
                    s.settimeout(0.1)
                    try:
                        if s.recv(4096) == b"":
                            break
                    except socket.timeout:
                        pass
                    except OSError:
                        break
            except OSError:
                pass
        if s is not None:
            s.close()
        self.emit("call", i=i, ver=list(ver), app=app, **e)

    def stop(self, i, k):
        p = self.procs.pop(i)
        p.send_signal(signal.SIGKILL if k == "kill" else signal.SIGTERM)
        try:
            code = p.wait(60)
        except subprocess.TimeoutExpired:
            code = -99
            p.kill()
            p.wait()
        for s in self.busy:
            s.close()
        self.busy = []
        del self.cfg[i]
        self.emit("stop", i=i, k=k, code=code)

    def run(self):
        self.emit("new")
        try:
            for op in self.s["ops"]:
                if op["op"] == "launch":
                    if op["i"] not in self.procs:
                        self.launch(op["i"], op["c"])
                elif op["op"] == "stop":
                    if op["i"] in self.procs:
                        self.stop(op["i"], op["k"])
                elif op["op"] == "look":
                    for i in sorted(self.procs):
                        self.look(i)
                elif op["op"] == "call":
                    for i in sorted(self.procs):
                        self.call(i, op["ver"], op["app"])
        finally:
            for p in self.procs.values():
                p.kill()
                p.wait()
        return self.ev


if __name__ == "__main__":
    job = json.load(open(sys.argv[1]))
    with ThreadPoolExecutor(max_workers=job["workers"]) as ex:
        res = list(ex.map(lambda s: Script(job, s).run(), job["scripts"]))
    with open(job["out"], "w") as f:
        json.dump(res, f)
