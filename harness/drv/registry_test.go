package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// The peer registry as a sequential object, in virtual time.

func init() {
	modes["registry"] = func(t *testing.T, s *session) {
		synctest.Test(t, func(*testing.T) { runRegistry(s) })
	}
}

// fakePeer stands for an established connection.
type fakePeer struct {
	c      int
	addr   netip.AddrPort
	hs     proto.Handshake
	mu     sync.Mutex
	closed int
	sent   []proto.Message
	onSend func(p *fakePeer, m proto.Message)
}

type fakeID string

func (i fakeID) String() string { return string(i) }

func (p *fakePeer) Direction() peer.Direction { return peer.Incoming }
func (p *fakePeer) Close() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.closed++
	return nil
}
func (p *fakePeer) SendMessage(m proto.Message) {
	p.mu.Lock()
	p.sent = append(p.sent, m)
	f := p.onSend
	p.mu.Unlock()
	if f != nil {
		f(p, m)
	}
}
func (p *fakePeer) ID() peer.ID                 { return fakeID(fmt.Sprintf("%s-%d", p.addr.Addr(), p.hs.NodeNonce)) }
func (p *fakePeer) Connection() conn.Connection { return nil }
func (p *fakePeer) Handshake() proto.Handshake  { return p.hs }
func (p *fakePeer) RemoteAddr() proto.TCPAddr {
	return proto.TCPAddr(*net.TCPAddrFromAddrPort(p.addr))
}
func (p *fakePeer) Equal(o peer.Peer) bool { return o != nil && p.ID() == o.ID() }

func (p *fakePeer) take() []proto.Message {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.sent
	p.sent = nil
	return r
}

// sourceOf is where connection c from host a comes from: the port may be the one the host listens on.
func sourceOf(a string, c int) netip.AddrPort {
	return netip.AddrPortFrom(mustAddr(a), []uint16{6868, 40000, 6868, 50001}[c&3])
}

type hsPar struct {
	Ver   []uint32 `json:"ver"`
	App   string   `json:"app"`
	Name  string   `json:"name"`
	NameX string   `json:"namex"` // hex, for names that are not text
	Nonce string   `json:"nonce"`
	DAddr string   `json:"daddr"`
	DPort int      `json:"dport"`
}

func (h *hsPar) handshake() proto.Handshake {
	name := h.Name
	if h.NameX != "" {
		b, err := hex.DecodeString(h.NameX)
		if err != nil {
			panic(err)
		}
		name = string(b)
	}
	n, err := strconv.ParseUint(h.Nonce, 10, 64)
	if err != nil {
		panic(err)
	}
	r := proto.Handshake{AppName: h.App, Version: proto.NewVersion(h.Ver[0], h.Ver[1], h.Ver[2]), NodeName: name, NodeNonce: n,
		Timestamp: uint64(time.Now().Unix())}
	if h.DAddr != "" {
		r.DeclaredAddr = proto.NewHandshakeTCPAddr(net.ParseIP(h.DAddr), h.DPort)
	}
	return r
}

type regOp struct {
	Op       string          `json:"op"`
	A        string          `json:"a"`
	C        int             `json:"c"`
	S        json.RawMessage `json:"s"`
	L        [][]any         `json:"l"`
	Declared string          `json:"declared"`
	Versions [][]uint32      `json:"versions"`
	HS       *hsPar          `json:"hs"`
	Stride   int             `json:"stride"`
	Frac     float64         `json:"frac"`
}

type regDrv struct {
	s     *session
	r     *peers.Registry
	t0    time.Time
	conns map[int]*fakePeer
	names map[peer.Peer]int
	sizes []int64
	ops   []rec
	crash bool
	cfg   regOp // configuration in force
}

func (d *regDrv) now() int { return int(time.Since(d.t0)/time.Second) + 1000 }

func (d *regDrv) at(t time.Time) int {
	if t.IsZero() {
		return 0
	}
	return int(t.Sub(d.t0)/time.Second) + 1000
}

func scoreText(s *big.Int) string {
	if s == nil {
		return ""
	}
	return s.String()
}

func verTriple(v proto.Version) []int {
	return []int{int(int32(v.Major())), int(int32(v.Minor())), int(int32(v.Patch()))} // the checker's numbers have 32 bits
}

var stateNames = map[peers.State]string{peers.PeerUnknown: "unknown", peers.PeerConnected: "connected", peers.PeerHostile: "hostile"}

func (d *regDrv) record(p peers.Peer) rec {
	st, ok := stateNames[p.State]
	if !ok {
		st = fmt.Sprintf("state %d", p.State)
	}
	return rec{"a": p.AddressPort.Addr().String(), "port": int(p.AddressPort.Port()), "nonce": strconv.FormatUint(p.Nonce, 10),
		"name": p.Name, "ver": verTriple(p.Version), "state": st, "next": d.at(p.NextAttempt), "score": scoreText(p.Score)}
}

func versionsOf(vs [][]uint32) []proto.Version {
	r := make([]proto.Version, len(vs))
	for i, v := range vs {
		r[i] = proto.NewVersion(v[0], v[1], v[2])
	}
	return r
}

func (d *regDrv) open(o regOp) error {
	da := proto.TCPAddr{}
	if o.Declared != "" {
		da = proto.NewTCPAddrFromString(o.Declared + ":6868")
	}
	r, err := peers.NewRegistry(scheme, da, versionsOf(o.Versions), d.s.dir)
	if err != nil {
		return err
	}
	d.r, d.cfg = r, o
	d.conns, d.names = map[int]*fakePeer{}, map[peer.Peer]int{}
	return nil
}

func (d *regDrv) close2() { // in real time
	if d.r != nil {
		d.r.Close()
		d.r = nil
	}
}

func (d *regDrv) close() {
	if d.r != nil {
		d.r.Close()
		time.Sleep(time.Minute) // leveldb's background goroutines end within some seconds
	}
}

// look reads everything the registry shows.
func look(d *regDrv, r *peers.Registry, e rec) {
	book := []rec{}
	ps, err := r.Peers()
	bres := "ok"
	if err != nil {
		bres = "error"
	}
	for _, p := range ps {
		book = append(book, d.record(p))
		q, pErr := r.Peer(p.AddressPort.Addr())
		if pErr != nil || fmt.Sprint(d.record(q)) != fmt.Sprint(d.record(p)) {
			bres = fmt.Sprintf("peer %s differs: %v", p.AddressPort, pErr)
		}
	}
	friends := []string{}
	fs, err := r.FriendlyPeers()
	if err != nil {
		bres = "error"
	}
	for _, p := range fs {
		friends = append(friends, p.AddressPort.Addr().String())
	}
	as, err := r.Addresses()
	if err != nil {
		bres = "error"
	}
	pub := []string{}
	for _, a := range as {
		pub = append(pub, a.String())
	}
	pubWant := []string{}
	for _, p := range fs {
		pubWant = append(pubWant, fmt.Sprintf("%s:%d", p.AddressPort.Addr(), p.AddressPort.Port()))
	}
	if fmt.Sprint(pub) != fmt.Sprint(pubWant) {
		bres = "addresses differ from friendly peers"
	}
	cres := "ok"
	cs, err := r.Connections()
	if err != nil {
		cres = "error"
	}
	conns := []rec{}
	for _, p := range cs {
		conns = append(conns, d.record(p))
	}
	closed := []int{}
	for c, p := range d.conns {
		p.mu.Lock()
		if p.closed > 0 {
			closed = append(closed, c)
		}
		p.mu.Unlock()
	}
	sort.Ints(closed)
	e["book"], e["bres"], e["friendly"], e["conns"], e["cres"], e["closed"] = book, bres, friends, conns, cres, closed
	// Which connection is behind each connected address.
	ends := [][]any{}
	probe := &proto.GetPeersMessage{}
	r.Broadcast(probe)
	for c, p := range d.conns {
		n := 0
		for _, m := range p.take() {
			if m == proto.Message(probe) {
				n++
			} else {
				n += 1000
			}
		}
		if n > 0 {
			ends = append(ends, []any{p.addr.Addr().String(), c, n})
		}
	}
	e["ends"] = ends
}

func (d *regDrv) step(o regOp) {
	e := rec{"op": o.Op}
	d.s.enter(e)
	e["now"] = d.now()
	arg := rec{}
	switch o.Op {
	case "new":
		e["declared"], e["versions"] = o.Declared, o.Versions
		e["res"], _ = try(func() string {
			if err := d.open(o); err != nil {
				return "error"
			}
			return "ok"
		})
		d.journalReset()
	case "reopen":
		e["declared"], e["versions"] = o.Declared, o.Versions
		d.close()
		e["res"], _ = try(func() string {
			if err := d.open(o); err != nil {
				return "error"
			}
			return "ok"
		})
		e["now"] = d.now()
		d.journalReset()
	case "take":
		got := [][]any{}
		e["res"], _ = try(func() string {
			r, err := d.r.TakeAvailableAddresses()
			if err != nil {
				return "error"
			}
			for _, ap := range r {
				got = append(got, []any{ap.Addr().String(), int(ap.Port())})
			}
			return "ok"
		})
		e["got"] = got
	case "register":
		p := &fakePeer{c: o.C, addr: sourceOf(o.A, o.C), hs: o.HS.handshake()}
		d.conns[o.C] = p
		arg["a"], arg["c"], arg["hs"] = o.A, o.C, rec{"ver": o.HS.Ver}
		e["res"], e["err"] = try(func() string {
			if err := d.r.RegisterPeer(mustAddr(o.A), p, p.hs); err != nil {
				return "error"
			}
			return "ok"
		})
		e["hs"] = rec{"ver": verTriple(o.HS.handshake().Version), "app": o.HS.App, "name": o.HS.Name,
			"text": o.HS.NameX == "", "nonce": o.HS.Nonce, "daddr": o.HS.DAddr, "dport": o.HS.DPort,
			"net": len(o.HS.App) > 0 && o.HS.App[len(o.HS.App)-1] == scheme}
	case "unregister":
		e["res"], e["err"] = try(func() string {
			if err := unregister(d.r, mustAddr(o.A), d.conns[o.C]); err != nil {
				return "error"
			}
			return "ok"
		})
	case "score":
		var n string
		_ = json.Unmarshal(o.S, &n)
		e["s"] = n
		e["res"], e["err"] = try(func() string {
			if err := d.r.UpdatePeerScore(mustAddr(o.A), mustBig(n)); err != nil {
				return "error"
			}
			return "ok"
		})
	case "hostile":
		e["res"], e["err"] = try(func() string {
			if err := d.r.MarkAsHostile(&net.IPAddr{IP: net.ParseIP(o.A)}); err != nil {
				return "error"
			}
			return "ok"
		})
	case "append":
		as := []*net.TCPAddr{}
		for _, x := range o.L {
			as = append(as, &net.TCPAddr{IP: net.ParseIP(x[0].(string)), Port: int(x[1].(float64))})
		}
		e["l"] = o.L
		if o.L == nil {
			e["l"] = [][]any{}
		}
		e["cnt"] = -1
		e["res"], e["err"] = try(func() string {
			e["cnt"] = d.r.AppendAddresses(as)
			return "ok"
		})
	case "suggest":
		e["ver"] = []int{}
		e["res"], e["err"] = try(func() string {
			v, err := d.r.SuggestVersion(mustAddr(o.A))
			if err != nil {
				return "error"
			}
			e["ver"] = verTriple(v)
			return "ok"
		})
	case "offer": // the version as the peer gets to see it when it is connected to
		e["op"], e["ver"] = "suggest", []int{}
		e["res"], e["err"] = try(func() string { return d.offer(o.A, e) })
	case "sleep":
		var n int
		_ = json.Unmarshal(o.S, &n)
		time.Sleep(time.Duration(n) * time.Second)
		e["now"] = d.now()
		e["res"] = "ok"
	case "crashall":
		d.crashAll(o)
		return
	case "recover":
		d.recover(o)
		return
	default:
		panic("unknown op " + o.Op)
	}
	e["a"], e["c"] = o.A, o.C
	if e["err"] == "" {
		delete(e, "err")
	}
	if d.crash && o.Op != "new" && o.Op != "reopen" {
		_, n := journalOf(d.s.dir, "peers")
		d.sizes, d.ops = append(d.sizes, n), append(d.ops, opArgs(e))
	}
	if d.r != nil {
		res, det := try(func() string { look(d, d.r, e); return "ok" })
		if res != "ok" {
			e["bres"], e["err"] = "panic", det
			for _, k := range []string{"book", "friendly", "conns", "closed", "ends"} {
				if _, ok := e[k]; !ok {
					e[k] = []any{}
				}
			}
			e["cres"] = "panic"
		}
	}
	d.s.emit(e)
}

// opArgs are the arguments of an operation in progress when the process dies.
func opArgs(e rec) rec {
	r := rec{"op": e["op"], "a": e["a"], "now": e["now"]}
	for _, k := range []string{"l"} {
		if v, ok := e[k]; ok {
			r[k] = v
		} else {
			r[k] = [][]any{}
		}
	}
	return r
}

func (d *regDrv) journalReset() {
	_, n := journalOf(d.s.dir, "peers")
	d.sizes, d.ops = []int64{n}, nil
}

func (d *regDrv) cutAt(cut int64) (int, rec) {
	i := 0
	for i+1 < len(d.sizes) && d.sizes[i+1] <= cut {
		i++
	}
	if i < len(d.ops) {
		return i, d.ops[i]
	}
	return i, rec{"op": "none", "a": "", "l": [][]any{}, "now": 0}
}

func (d *regDrv) readBack(dir string, e rec) *peers.Registry {
	for _, k := range []string{"book", "friendly", "conns", "closed", "ends"} {
		e[k] = []any{}
	}
	e["bres"], e["cres"] = "none", "none"
	e["now"] = d.now()
	var r *peers.Registry
	keep := d.conns
	d.conns = map[int]*fakePeer{}
	defer func() { d.conns = keep }()
	res, det := try(func() string {
		da := proto.TCPAddr{}
		if d.cfg.Declared != "" {
			da = proto.NewTCPAddrFromString(d.cfg.Declared + ":6868")
		}
		x, err := peers.NewRegistry(scheme, da, versionsOf(d.cfg.Versions), dir)
		if err != nil {
			det := err.Error()
			e["err"] = det
			return "error"
		}
		r = x
		look(d, x, e)
		return "ok"
	})
	e["res"] = res
	if det != "" {
		e["err"] = det
	}
	return r
}

func (d *regDrv) crashAll(o regOp) {
	jr, size := journalOf(d.s.dir, "peers")
	cuts := map[int64]bool{0: true, 1: true, size: true}
	for _, s := range d.sizes {
		for _, x := range []int64{-8, -7, -1, 0, 1, 6, 7, 8, 20} {
			cuts[s+x] = true
		}
	}
	for x := int64(o.C); x < size; x += int64(o.Stride) {
		cuts[x] = true
	}
	for cut := range cuts {
		if cut < 0 || cut > size {
			continue
		}
		dir := d.s.dir + "-copy"
		copyStoreOf(d.s.dir, dir, "peers", jr, cut)
		done, next := d.cutAt(cut)
		e := rec{"op": "crash", "how": "cut", "done": done, "next": next, "cut": int(cut), "a": "", "c": 0}
		if r := d.readBack(dir, e); r != nil {
			r.Close()
		}
		d.s.emit(e)
		os.RemoveAll(dir)
	}
}

func (d *regDrv) recover(o regOp) {
	jr, size := journalOf(d.s.dir, "peers")
	e := rec{"op": "recover", "how": "clean", "done": len(d.ops), "next": rec{"op": "none", "a": "", "l": [][]any{}, "now": 0}, "a": "", "c": 0}
	if o.Frac < 0 {
		d.close()
	} else {
		cut := int64(float64(size) * o.Frac)
		dir := d.s.dir + "-cut"
		copyStoreOf(d.s.dir, dir, "peers", jr, cut)
		d.close()
		done, next := d.cutAt(cut)
		e["how"], e["done"], e["next"], e["cut"] = "cut", done, next, int(cut)
		os.RemoveAll(d.s.dir)
		if err := os.Rename(dir, d.s.dir); err != nil {
			panic(err)
		}
	}
	d.conns, d.names = map[int]*fakePeer{}, map[peer.Peer]int{}
	d.r = d.readBack(d.s.dir, e)
	d.s.emit(e)
	if d.r == nil {
		d.s.dead = true
		return
	}
	d.journalReset()
}

func runRegistry(s *session) {
	d := &regDrv{s: s, t0: time.Now(), crash: len(s.sc.Par) > 0}
	defer func() {
		d.close()
		time.Sleep(time.Minute)
	}()
	for _, raw := range s.sc.Ops {
		if s.dead {
			return
		}
		var o regOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		d.step(o)
	}
}

func journalOf(dir, sub string) (string, int64) {
	best, size := "", int64(0)
	m, _ := filepath.Glob(filepath.Join(dir, sub, "*.log"))
	for _, f := range m {
		if f > best {
			if st, err := os.Stat(f); err == nil {
				best, size = f, st.Size()
			}
		}
	}
	return best, size
}

// offer has the connection manager connect to a peer at a loopback address and reads the handshake it sends.
func (d *regDrv) offer(a string, e rec) string {
	l, err := net.Listen("tcp", net.JoinHostPort(a, "0"))
	if err != nil {
		panic(err)
	}
	defer func() { _ = l.Close() }()
	cm := NewConnectionManager(scheme, "the name", 4242, proto.NewTCPAddr(net.IPv4(10, 99, 1, 1), 6868), d.r, peer.NewParent(true))
	seen := make(chan proto.Handshake, 1)
	go func() {
		defer close(seen)
		c, err := l.Accept()
		if err != nil {
			return
		}
		h := proto.Handshake{}
		if _, err = h.ReadFrom(c); err == nil {
			seen <- h
		}
		_ = c.Close()
	}()
	cErr := cm.Connect(context.Background(), proto.NewTCPAddr(net.ParseIP(a), l.Addr().(*net.TCPAddr).Port))
	_ = l.Close()
	h, ok := <-seen
	if !ok {
		return "error"
	}
	if cErr == nil {
		return "connected without a handshake"
	}
	da := ""
	if !h.DeclaredAddr.Empty() {
		da = h.DeclaredAddr.String()
	}
	e["as"] = []any{h.AppName, h.NodeName, fmt.Sprint(h.NodeNonce), da}
	e["ver"] = verTriple(h.Version)
	return "ok"
}
