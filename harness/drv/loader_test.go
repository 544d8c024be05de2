package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/netip"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// The history loader with the real stores, against simulated peers, in virtual time.

func init() {
	modes["loader"] = func(t *testing.T, s *session) {
		synctest.Test(t, func(*testing.T) { runLoader(s) })
	}
}

type blockPar struct {
	P   int    `json:"p"`
	BT  string `json:"bt"`
	TS  string `json:"ts"`
	Gen int    `json:"gen"`
}

// peerPar tells how a simulated peer behaves.
type peerPar struct {
	A       string  `json:"a"`
	Ver     uint32  `json:"ver"`     // minor version
	Chain   []int   `json:"chain"`   // its chain, from genesis up
	Page    int     `json:"page"`    // ids in an answer
	Mute    float64 `json:"mute"`    // probability not to answer a request for ids
	Lie     float64 `json:"lie"`     // probability to answer with something else
	Drop    float64 `json:"drop"`    // probability not to answer a request for a block
	Dup     float64 `json:"dup"`     // probability to send a block twice
	Wrong   float64 `json:"wrong"`   // probability to send another block as well
	Delay   int     `json:"delay"`   // answers come after at most so many ms
	Shuffle bool    `json:"shuffle"` // blocks arrive in any order
	Quiet   float64 `json:"quiet"`   // probability that a block reaches the loader only
}

type loaderPar struct {
	Salt  string              `json:"salt"`
	Seed  int64               `json:"seed"`
	Tree  map[string]blockPar `json:"tree"`
	Peers []peerPar           `json:"peers"`
	Odd   []int               `json:"odd"` // blocks used to lie with
	Via   string              `json:"via"` // "loader": channels driven directly, "node": through the distributor
}

type loaderOp struct {
	Op string `json:"op"`
	A  string `json:"a"`
	B  int    `json:"b"`
	L  []int  `json:"l"`
	S  string `json:"s"`
	MS int    `json:"ms"`
}

type loaderDrv struct {
	s      *session
	par    loaderPar
	cd     *chainsDrv
	r      *peers.Registry
	ids    chan loading.IDsPackage
	blks   chan loading.BlockPackage
	ld     *loading.Loader
	cancel context.CancelFunc
	rng    *rand.Rand
	t0     time.Time
	mu     sync.Mutex
	sends  []rec
	reqs   []request // requests simulated peers have not looked at yet
	agenda []action
	conns  map[string]*fakePeer
	nconn  int
	known  map[int]bool
	leash  map[string]int
	stuck  bool
	asked  int // requests for ids so far
	last   int
	seq    int
}

type request struct {
	c   int
	a   string
	msg proto.Message
}

type action struct {
	at time.Time
	n  int
	op loaderOp
}

func (d *loaderDrv) now() int { return int(time.Since(d.t0) / time.Millisecond) }

func (d *loaderDrv) block(b int) *proto.Block {
	p, ok := d.par.Tree[fmt.Sprint(b)]
	if !ok {
		panic(fmt.Sprintf("no block %d", b))
	}
	return d.cd.mkBlock(chainOp{Op: "put", B: b, P: p.P, BT: p.BT, TS: p.TS, Gen: p.Gen})
}

// blockRec are the contents of block b as delivered.
func (d *loaderDrv) blockRec(b int) rec {
	p := d.par.Tree[fmt.Sprint(b)]
	return rec{"b": b, "p": p.P, "bt": limbs(mustBig(p.BT)), "ts": p.TS, "tsl": limbs(mustBig(p.TS)), "gen": p.Gen}
}

func (d *loaderDrv) peerPar(a string) *peerPar {
	for i := range d.par.Peers {
		if d.par.Peers[i].A == a {
			return &d.par.Peers[i]
		}
	}
	return nil
}

// onSend sees every message the detector sends to a peer.
func (d *loaderDrv) onSend(p *fakePeer, m proto.Message) {
	d.mu.Lock()
	defer d.mu.Unlock()
	a := p.addr.Addr().String()
	e := rec{"c": p.c, "kind": fmt.Sprintf("%T", m), "ids": []int{}}
	switch v := m.(type) {
	case *proto.GetBlockIdsMessage:
		ids := []int{}
		for _, id := range v.Blocks {
			ids = append(ids, d.cd.nm.of(id))
		}
		e["kind"], e["ids"] = "ids", ids
		d.asked++
	case *proto.GetSignaturesMessage:
		ids := []int{}
		for _, sg := range v.Signatures {
			n := d.cd.nm.of(proto.NewBlockIDFromSignature(sg))
			if n == -9 { // a digest has no signature
				n = -1
			}
			ids = append(ids, n)
		}
		e["kind"], e["ids"] = "sigs", ids
		d.asked++
	case *proto.GetBlockMessage:
		e["kind"], e["ids"] = "block", []int{d.cd.nm.of(v.BlockID)}
	case *proto.GetPeersMessage:
		return
	}
	d.sends = append(d.sends, e)
	d.reqs = append(d.reqs, request{c: p.c, a: a, msg: m})
}

func (d *loaderDrv) later(ms int, op loaderOp) {
	d.seq++
	d.agenda = append(d.agenda, action{at: time.Now().Add(time.Duration(ms) * time.Millisecond), n: d.seq, op: op})
	sort.SliceStable(d.agenda, func(i, j int) bool {
		if d.agenda[i].at.Equal(d.agenda[j].at) {
			return d.agenda[i].n < d.agenda[j].n
		}
		return d.agenda[i].at.Before(d.agenda[j].at)
	})
}

func (d *loaderDrv) oddBlock() int {
	if len(d.par.Odd) == 0 {
		return 0
	}
	return d.par.Odd[d.rng.Intn(len(d.par.Odd))]
}

// think lets the simulated peers react to the requests they received.
func (d *loaderDrv) think() {
	d.mu.Lock()
	reqs := d.reqs
	d.reqs = nil
	d.mu.Unlock()
	slot := 0
	for _, q := range reqs {
		pp := d.peerPar(q.a)
		live := d.conns[q.a] != nil && d.conns[q.a].c == q.c
		if pp == nil || !live {
			continue
		}
		delay := 0
		if pp.Delay > 0 {
			delay = d.rng.Intn(pp.Delay)
		}
		var asked []int
		switch v := q.msg.(type) {
		case *proto.GetBlockIdsMessage:
			for _, id := range v.Blocks {
				asked = append(asked, d.cd.nm.of(id))
			}
		case *proto.GetSignaturesMessage:
			for _, sg := range v.Signatures {
				asked = append(asked, d.cd.nm.of(proto.NewBlockIDFromSignature(sg)))
			}
		case *proto.GetBlockMessage:
			b := d.cd.nm.of(v.BlockID)
			if _, ok := d.par.Tree[fmt.Sprint(b)]; !ok || d.rng.Float64() < pp.Drop {
				continue
			}
			if !pp.Shuffle {
				slot++
				delay = slot * 7 * (1 + pp.Delay/1000)
			}
			op := "live"
			if d.rng.Float64() < pp.Quiet {
				op = "blk"
			}
			d.later(delay, loaderOp{Op: op, A: q.a, B: b})
			if d.rng.Float64() < pp.Dup {
				d.later(delay+d.rng.Intn(3000), loaderOp{Op: op, A: q.a, B: b})
			}
			if d.rng.Float64() < pp.Wrong {
				d.later(d.rng.Intn(delay+1000), loaderOp{Op: "live", A: q.a, B: d.oddBlock()})
			}
			continue
		default:
			continue
		}
		if d.rng.Float64() < pp.Mute {
			continue
		}
		if d.rng.Float64() < pp.Lie {
			d.later(delay, loaderOp{Op: "ids", A: q.a, L: d.lie(pp)})
			if d.rng.Intn(2) == 0 {
				continue
			}
		}
		top := -1
		for i, b := range pp.Chain {
			for _, x := range asked {
				if x == b || (x < 0 && i == 0) {
					top = i
				}
			}
		}
		if top < 0 {
			continue
		}
		from := top + 1
		if d.rng.Intn(3) == 0 {
			from = top // some nodes repeat the common block
		}
		list := pp.Chain[from:min(len(pp.Chain), from+pp.Page)]
		if len(list) == 0 && d.rng.Intn(2) == 0 {
			continue
		}
		d.later(delay, loaderOp{Op: "ids", A: q.a, L: append([]int{}, list...)})
	}
}

func (d *loaderDrv) lie(pp *peerPar) []int {
	l := []int{}
	switch d.rng.Intn(5) {
	case 0:
	case 1:
		l = append(l, d.oddBlock(), d.oddBlock())
	case 2:
		for i := len(pp.Chain) - 1; i >= 0 && len(l) < 4; i-- {
			l = append(l, pp.Chain[i])
		}
	case 3:
		l = append(l, pp.Chain[len(pp.Chain)/2:]...)
		l = append(l, d.oddBlock())
	case 4:
		l = append(l, pp.Chain[d.rng.Intn(len(pp.Chain))])
	}
	// without repetitions
	seen := map[int]bool{}
	r := []int{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

// observe adds what the event changed and sent.
func (d *loaderDrv) observe(e rec, thorough bool) bool {
	synctest.Wait()
	d.mu.Lock()
	sends := d.sends
	d.sends = nil
	d.mu.Unlock()
	if sends == nil {
		sends = []rec{}
	}
	e["sends"] = sends
	news, moved := []rec{}, [][]any{}
	ls, err := d.cd.l.Leashes()
	if err != nil {
		panic(err)
	}
	for _, x := range ls {
		b := d.cd.nm.of(x.BlockID)
		if old, ok := d.leash[x.Addr.String()]; !ok || old != b {
			d.leash[x.Addr.String()] = b
			moved = append(moved, []any{x.Addr.String(), b})
		}
	}
	if thorough || len(sends) > 0 || len(moved) > 0 {
		for _, n := range d.cd.nm.used {
			if d.known[n] {
				continue
			}
			if has, b := d.cd.look(n); has {
				d.known[n] = true
				b["id"] = n
				news = append(news, b)
			}
		}
	}
	e["new"], e["moved"], e["now"] = news, moved, d.now()
	return len(sends) > 0 || len(news) > 0 || len(moved) > 0
}

// done records that time passed until now.
func (d *loaderDrv) pass(force bool) {
	e := rec{"op": "time", "res": "ok"}
	if d.observe(e, force) || (force && d.now() > d.last) {
		d.emit(e)
	}
}

func (d *loaderDrv) emit(e rec) {
	d.last = d.now()
	d.s.emit(e)
}

const pollEvery = 500 * time.Millisecond

// runaway tells that there are far more requests than rounds there is time for.
func (d *loaderDrv) runaway() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.asked > 300+d.now()/1000
}

// sleep lets virtual time pass, with the simulated peers acting.
func (d *loaderDrv) sleep(ms int) {
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	for {
		d.think()
		if d.stuck || d.s.dead || d.runaway() {
			return
		}
		if len(d.agenda) > 0 && !d.agenda[0].at.After(time.Now()) {
			a := d.agenda[0]
			d.agenda = d.agenda[1:]
			if d.conns[a.op.A] != nil {
				d.step(a.op)
			}
			continue
		}
		if !time.Now().Before(end) {
			return
		}
		next := time.Now().Add(pollEvery)
		if len(d.agenda) > 0 && d.agenda[0].at.Before(next) {
			next = d.agenda[0].at
		}
		if end.Before(next) {
			next = end
		}
		time.Sleep(time.Until(next))
		d.s.beat.Add(1)
		d.pass(false)
	}
}

func (d *loaderDrv) toIDs(l []int) []proto.BlockID {
	r := make([]proto.BlockID, len(l))
	for i, x := range l {
		r[i] = d.cd.nm.id(x)
	}
	return r
}

// give hands something to the loader, as the distributor does.
func (d *loaderDrv) give(f func(timeout <-chan time.Time) bool) string {
	if f(time.After(2 * time.Minute)) {
		return "ok"
	}
	d.stuck = true
	return "blocked"
}

func (d *loaderDrv) step(o loaderOp) {
	if o.Op == "sleep" {
		d.sleep(o.MS)
		d.pass(true)
		return
	}
	if o.Op == "voice" { // the peer answers from now on
		for i := range d.par.Peers {
			if pp := &d.par.Peers[i]; pp.A == o.A {
				pp.Mute, pp.Lie, pp.Drop, pp.Wrong = 0, 0, 0, 0
			}
		}
		return
	}
	if o.Op == "live" {
		d.step(loaderOp{Op: "put", A: o.A, B: o.B})
		o.Op = "blk"
	}
	d.pass(true) // time up to here
	e := rec{"op": o.Op, "a": o.A}
	d.s.enter(rec{"op": o.Op, "a": o.A, "now": d.now(), "sends": []rec{}, "new": []rec{}, "moved": [][]any{}})
	res, det := "ok", ""
	switch o.Op {
	case "connect":
		pp := d.peerPar(o.A)
		addr := mustAddr(o.A)
		d.nconn++
		h := hsPar{Ver: []uint32{1, pp.Ver, 0}, App: "wavesT", Name: o.A, Nonce: fmt.Sprint(d.nconn), DAddr: o.A, DPort: 6868}
		p := &fakePeer{c: d.nconn, addr: netip.AddrPortFrom(addr, 6868), hs: h.handshake(), onSend: d.onSend}
		d.conns[o.A] = p
		if _, err := d.r.SuggestVersion(addr); err != nil {
			panic(err)
		}
		if err := d.r.RegisterPeer(addr, p, p.hs); err != nil {
			panic(err)
		}
		e["c"], e["sigs"] = d.nconn, pp.Ver < 2
	case "disconnect":
		if err := unregister(d.r, mustAddr(o.A), d.conns[o.A]); err != nil {
			panic(err)
		}
		delete(d.conns, o.A)
	case "score":
		if err := d.r.UpdatePeerScore(mustAddr(o.A), mustBig(o.S)); err != nil {
			panic(err)
		}
		e["s"] = limbs(mustBig(o.S))
	case "put":
		b := d.block(o.B)
		e["x"] = d.blockRec(o.B)
		res, det = try(func() string { return mapErr(d.cd.l.PutBlock(b, mustAddr(o.A))) })
	case "blk":
		b := d.block(o.B)
		e["x"] = d.blockRec(o.B)
		res = d.give(func(timeout <-chan time.Time) bool {
			select {
			case d.blks <- loading.BlockPackage{Peer: mustAddr(o.A), Block: b}:
				return true
			case <-timeout:
				return false
			}
		})
	case "ids":
		l := o.L
		if l == nil {
			l = []int{}
		}
		e["l"] = l
		ids := d.toIDs(l)
		res = d.give(func(timeout <-chan time.Time) bool {
			select {
			case d.ids <- loading.IDsPackage{Peer: mustAddr(o.A), IDs: ids}:
				return true
			case <-timeout:
				return false
			}
		})
	case "settled":
		// the chains of the responsive peers, for the final judgement
		ch := [][]any{}
		for a := range d.conns {
			pp := d.peerPar(a)
			if pp.Mute == 0 && pp.Lie == 0 && pp.Drop == 0 && pp.Wrong == 0 {
				ch = append(ch, []any{a, pp.Chain[len(pp.Chain)-1]})
			}
		}
		e["heads"] = ch
	case "shutdown":
		d.cancel()
		done := make(chan struct{})
		go func() { d.ld.Shutdown(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * time.Minute):
			res = "blocked"
		}
	default:
		panic("unknown op " + o.Op)
	}
	e["res"] = res
	if det != "" {
		e["err"] = det
	}
	d.observe(e, true)
	d.emit(e)
}

func runLoader(s *session) {
	d := &loaderDrv{s: s, t0: time.Now(), conns: map[string]*fakePeer{}, known: map[int]bool{0: true}, leash: map[string]int{},
		ids: make(chan loading.IDsPackage), blks: make(chan loading.BlockPackage)}
	if err := json.Unmarshal(s.sc.Par, &d.par); err != nil {
		panic(err)
	}
	d.rng = rand.New(rand.NewSource(d.par.Seed))
	d.cd = &chainsDrv{s: s, nm: newNames(d.par.Salt)}
	g := d.par.Tree["0"]
	d.cd.genesis = *d.cd.mkBlock(chainOp{Op: "new", BT: g.BT, TS: g.TS, Gen: g.Gen})
	var err error
	if d.cd.l, err = chains.NewLinkage(s.dir, scheme, d.cd.genesis); err != nil {
		panic(err)
	}
	if d.r, err = peers.NewRegistry(scheme, proto.TCPAddr{}, []proto.Version{proto.NewVersion(1, 2, 0)}, s.dir); err != nil {
		panic(err)
	}
	for n := range d.par.Tree { // all names are known from the start
		var x int
		fmt.Sscan(n, &x)
		d.cd.nm.id(x)
	}
	sort.Ints(d.cd.nm.used)
	ctx, cancel := context.WithCancel(context.Background())
	d.cancel = cancel
	d.ld = loading.NewLoader(d.r, d.cd.l, d.ids, d.blks)
	d.ld.Run(ctx)
	bt := d.par.Tree["0"]
	s.emit(rec{"op": "new", "bt": limbs(mustBig(bt.BT)), "ts": bt.TS, "gen": bt.Gen, "now": 0, "res": "ok",
		"sends": []rec{}, "new": []rec{}, "moved": [][]any{}})
	down := false
	for _, raw := range s.sc.Ops {
		if s.dead || d.stuck {
			break
		}
		if d.runaway() {
			d.step(loaderOp{Op: "settled"})
			break
		}
		var o loaderOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		down = down || o.Op == "shutdown"
		d.step(o)
	}
	cancel()
	if !down && !d.stuck {
		d.ld.Shutdown()
	}
	d.r.Close()
	d.cd.l.Close()
	time.Sleep(time.Minute)
}
