"""The program itself, as a user runs it: real processes, real connections on the loopback network, signals."""
import fcntl, http.client, shutil, signal, socket, struct, subprocess, threading
from vlib import *


def build_program(c):
    out = c.scratch + "/forkdetector"
    env = dict(os.environ)
    env.update(GOENV)
    env["PATH"] = GOENV["GOROOT"] + "/bin:" + env["PATH"]
    p = subprocess.run(["go", "build", "-buildvcs=false", "-o", out, "."], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("the program does not build:\n" + p.stdout[-3000:])
    return out


_block, _port = [], [0]
_lock = threading.Lock()
PORTS, BLOCKS = 400, 20


def claim_ports():
    """A range of ports for this process alone."""
    for n in range(BLOCKS):
        f = open("/dev/shm/verif-ports-%d.lock" % n, "w")
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            _block.extend([f, 12000 + n * PORTS])
            return
        except OSError:
            f.close()
    raise CheckError("no free range of ports")


def free_port():
    with _lock:
        if not _block:
            claim_ports()
        for _ in range(5 * PORTS):
            _port[0] = (_port[0] + 1) % PORTS
            with socket.socket() as s:
                try:
                    s.bind(("127.0.0.1", _block[1] + _port[0]))
                    return _block[1] + _port[0]
                except OSError:
                    pass
    raise CheckError("no free port")


def handshake(name, nonce, app=b"wavesT", version=(1, 5, 0), declared=b""):
    return (bytes([len(app)]) + app + struct.pack(">III", *version) + bytes([len(name)]) + name + struct.pack(">Q", nonce)
            + struct.pack(">I", len(declared)) + declared + struct.pack(">Q", 1700000000))


def frame(kind, payload):
    if payload:
        return struct.pack(">IIBI", 13 + len(payload), 0x12345678, kind, len(payload)) + b"\0\0\0\0" + payload
    return struct.pack(">IIBI", 9, 0x12345678, kind, 0)


def ids_message(r, n):
    return frame(33, struct.pack(">I", n) + b"".join(bytes([32]) + r.randbytes(32) for _ in range(n)))


def sigs_message(r, n):
    return frame(0x15, struct.pack(">I", n) + b"".join(r.randbytes(64) for _ in range(n)))


class WirePeer(threading.Thread):
    """A peer that sends as much as it can until it is cut off."""

    def __init__(self, port, k, seed, pause):
        super().__init__(daemon=True)
        self.port, self.k, self.r, self.pause, self.sock, self.ok = port, k, random.Random(seed), pause, None, False

    def run(self):
        try:
            s = socket.socket()
            self.sock = s
            s.bind(("127.0.0.%d" % (20 + self.k), 0))
            s.settimeout(10)
            s.connect(("127.0.0.1", self.port))
            s.sendall(handshake(b"peer%d" % self.k, 100 + self.k))
            if not s.recv(1):
                return
            threading.Thread(target=self.drain, daemon=True).start()
            self.ok = True
            while True:
                k = self.r.random()
                m = (ids_message(self.r, self.r.randrange(1, 6)) if k < 0.5 else sigs_message(self.r, 2) if k < 0.8
                     else frame(0x18, self.r.randbytes(9)) if k < 0.9 else frame(0x01, b""))
                s.sendall(m)
                if self.pause:
                    time.sleep(self.pause)
        except OSError:
            pass

    def drain(self):
        try:
            while self.sock.recv(65536):
                pass
        except OSError:
            pass

    def cut(self):
        try:
            self.sock.close()
        except (OSError, AttributeError):
            pass


class Hole:
    """A node that is dialled and then says nothing."""

    def __init__(self):
        self.port = free_port()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", self.port))
        self.sock.listen(5)
        self.sock.settimeout(25)
        self.conn = None

    def advertise(self, net):
        """Somebody tells the program about the node."""
        s = socket.socket()
        s.bind(("127.0.0.19", 0))
        s.settimeout(10)
        s.connect(("127.0.0.1", net))
        s.sendall(handshake(b"herald", 99))
        if s.recv(1):
            s.sendall(frame(0x02, struct.pack(">I", 1) + bytes(4) + struct.pack(">I", self.port)))
        return s

    def dialled(self):
        try:
            self.conn = self.sock.accept()[0]
            self.conn.settimeout(5)
            return bool(self.conn.recv(1))
        except OSError:
            return False

    def close(self):
        self.sock.close()
        if self.conn:
            self.conn.close()


def api_get(port, path, timeout=3):
    h = http.client.HTTPConnection("127.0.0.1", port, timeout=timeout)
    try:
        h.request("GET", path)
        r = h.getresponse()
        return r.status, r.read()
    finally:
        h.close()


class Program:
    def __init__(self, binary, db, api, net, declared="127.0.0.9:6868", extra=()):
        self.api, self.net = api, net
        self.log = open(db + ".log", "ab")
        self.p = subprocess.Popen([binary, "-db", db, "-blockchain-type", "testnet", "-api", "127.0.0.1:%d" % api, "-net", "127.0.0.1:%d" % net,
                                   "-declared-address", declared, "-versions", "1.5,1.4", *extra], stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)

    def served(self):
        for _ in range(100):
            try:
                if api_get(self.api, "/api/status")[0] == 200:
                    return True
            except OSError:
                pass
            if self.p.poll() is not None:
                return False
            time.sleep(0.05)
        return False

    def term(self, sig=signal.SIGTERM):
        try:
            self.p.send_signal(sig)
        except OSError:
            pass

    def wait(self, timeout=20):
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            self.log.close()

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def one_life(binary, scratch, t, seed, hollow=False):
    """Start, feed, terminate, twice over the same stores; returns the events."""
    r = random.Random(seed)
    db = "%s/db-%s" % (scratch, t)
    os.makedirs(db)
    ev = []

    def emit(op, **kw):
        ev.append(dict(dict(t=t, op=op, k="", res="ok", probe="", ret="", taken=False), **kw))

    for life in range(2):
        api, net = free_port(), free_port()
        blocker, hole, herald = None, None, None
        if r.random() < 0.25 and not hollow:
            blocker = socket.socket()
            blocker.bind(("127.0.0.1", net))
            blocker.listen(50)
        emit("new", k="process")
        prog = Program(binary, db, api, net)
        emit("run")
        peers = []
        try:
            early = r.random() < 0.3 and life == 0 and not hollow
            if early:       # as soon as it must be waiting for signals
                while prog.p.poll() is None and not os.path.exists(db + "/blocks"):
                    time.sleep(0.01)
                emit("sleep")
            else:
                emit("served", probe="served" if prog.served() else "refused")
                if not blocker:
                    peers = [WirePeer(net, k, "%s/%d" % (seed, k), r.choice([0, 0, 0.001])) for k in range(r.randrange(0, 5))]
                    for p in peers:
                        p.start()
                    time.sleep(r.choice([0.05, 0.3, 1.0]))
                    emit("open", k="%d peers" % len(peers))
                if hollow and life == 0:
                    hole = Hole()
                    herald = hole.advertise(net)
                    emit("open", k="dialled" if hole.dialled() else "not dialled")
                    time.sleep(0.3)
            prog.term(r.choice([signal.SIGTERM, signal.SIGINT]))
            emit("cancel")
            rc = prog.wait()
            emit("stop", ret="ok" if rc == 0 else "hang" if rc is None else "exit code %s" % rc)
            try:
                api_get(api, "/api/status", 1)
                emit("gone", probe="served")
            except OSError:
                emit("gone", probe="refused")
        finally:
            for p in peers:
                p.cut()
            prog.kill()
            for x in (blocker, hole, herald):
                if x:
                    x.close()
    shutil.rmtree(db, ignore_errors=True)
    return ev


def lives(c, n):
    binary = build_program(c)
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda i: one_life(binary, c.scratch, "SP-%d" % i, "SP/%d/%d" % (c.seed, i), i < n // 5), range(n)))
