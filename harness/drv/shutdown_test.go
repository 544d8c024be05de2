package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"net/netip"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
)

// Termination of the components with the real stores, in virtual time. What the distributor hands over is taken by the
// driver when it is told to, or by the real loader.

func init() {
	modes["shutdown"] = func(t *testing.T, s *session) {
		synctest.Test(t, func(*testing.T) { runShutdown(s) })
	}
}

type stopOp struct {
	Op    string `json:"op"`
	K     string `json:"k"`
	A     string `json:"a"`
	IDs   []int  `json:"ids"`
	B     int    `json:"b"`
	P     int    `json:"p"`
	MS    int    `json:"ms"`
	Comp  string `json:"comp"`
	Quiet bool   `json:"quiet"` // the next operation follows at once, without looking
}

type stopPar struct {
	Loader  bool     `json:"loader"`
	Respawn bool     `json:"respawn"`
	Peers   []string `json:"peers"`
	Book    []string `json:"book"`
}

type stopDrv struct {
	regDrv
	par    stopPar
	ch     *chainsDrv
	parent peer.Parent
	dist   *Distributor
	ld     *loading.Loader
	resp   *Respawn
	cancel context.CancelFunc
	mu     sync.Mutex
	n      int
	sent   map[string]int // what is on its way -> number
	got    []int
	closed bool
	ret    []string
	stand  bool
	ids    <-chan loading.IDsPackage
	blocks <-chan loading.BlockPackage
	ended  bool
}

func (d *stopDrv) block(b, p int) *proto.Block {
	return d.ch.mkBlock(chainOp{Op: "put", B: b, P: p, BT: "100", TS: fmt.Sprint(1000 + b), Gen: 1})
}

func (d *stopDrv) took(key string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	n, ok := d.sent[key]
	if !ok {
		n = -1
	}
	d.got = append(d.got, n)
}

// receive takes what is offered, and waits for it if told to; it tells whether there will be more.
func (d *stopDrv) receive(wait bool) bool {
	for {
		if d.ids == nil && d.blocks == nil {
			d.mu.Lock()
			d.closed = true
			d.mu.Unlock()
			return false
		}
		var no chan struct{}
		if !wait {
			no = make(chan struct{})
			close(no)
		}
		ids := func(p loading.IDsPackage, ok bool) bool {
			if !ok {
				d.ids = nil
				return false
			}
			d.took(fmt.Sprintf("i %s %v", p.Peer, p.IDs))
			return true
		}
		blk := func(p loading.BlockPackage, ok bool) bool {
			if !ok {
				d.blocks = nil
				return false
			}
			d.took(fmt.Sprintf("b %s %s", p.Peer, p.Block.BlockID()))
			return true
		}
		if wait {
			select {
			case p, ok := <-d.ids:
				if ids(p, ok) {
					return true
				}
			case p, ok := <-d.blocks:
				if blk(p, ok) {
					return true
				}
			}
			continue
		}
		select {
		case p, ok := <-d.ids:
			if ids(p, ok) {
				return true
			}
			continue
		case p, ok := <-d.blocks:
			if blk(p, ok) {
				return true
			}
			continue
		default:
			return true
		}
	}
}

func (d *stopDrv) await(key string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.sent == nil {
		d.sent = map[string]int{}
	}
	d.sent[key] = d.n
}

func (d *stopDrv) peerOf(a string) *fakePeer {
	p := &fakePeer{c: 1, addr: netip.AddrPortFrom(mustAddr(a), 40000)}
	h := hsPar{Ver: []uint32{1, 5, 0}, App: "wavesT", Name: a, Nonce: "1", DAddr: a, DPort: 6868}
	p.hs = h.handshake()
	return p
}

func (d *stopDrv) message(o stopOp) {
	a := o.A
	if a == "" {
		a = "10.0.0.1"
	}
	p := d.peerOf(a)
	var m proto.Message
	switch o.K {
	case "ids", "sigs", "none":
		l := o.IDs
		if l == nil {
			l = []int{2 * d.n, 2*d.n + 2}
			if o.K == "sigs" {
				l = []int{2*d.n + 1}
			}
		}
		ids := []proto.BlockID{}
		for _, x := range l {
			ids = append(ids, d.ch.nm.id(x))
		}
		switch o.K {
		case "sigs":
			sm := &proto.SignaturesMessage{}
			for _, id := range ids {
				sm.Signatures = append(sm.Signatures, id.Signature())
			}
			m = sm
		case "none":
			m = &proto.BlockIdsMessage{}
		default:
			m = &proto.BlockIdsMessage{Blocks: ids}
		}
		d.await(fmt.Sprintf("i %s %v", a, ids))
	case "block", "orphan":
		b := o.B
		if b == 0 { // a new block
			b = 1000 + 2*d.n + 1
		}
		par := o.P
		if o.K == "orphan" {
			par = 900001
		}
		blk := d.block(b, par)
		blk.Version = 3
		blk.BlockSignature = d.ch.nm.id(b).Signature()
		blk.GenSignature = make([]byte, 32)
		blk.GenSignature[0] = byte(d.n)
		blk.ConsensusBlockLength = 40
		blk.TransactionBlockLength = 4
		blk.Features = []int16{}
		data, err := blk.MarshalBinary(scheme)
		if err != nil {
			panic(err)
		}
		m = &proto.BlockMessage{BlockBytes: data}
		d.await(fmt.Sprintf("b %s %s", a, blk.BlockID()))
	case "score":
		m = &proto.ScoreMessage{Score: big.NewInt(1 << 50).Bytes()}
	case "ask":
		m = &proto.GetPeersMessage{}
	case "info":
		select {
		case d.parent.InfoCh <- peer.InfoMessage{Peer: p, Value: &peer.Connected{Peer: p}}:
		default:
		}
		return
	case "error":
		select {
		case d.parent.InfoCh <- peer.InfoMessage{Peer: p, Value: &peer.InternalErr{Err: errAttempt}}:
		default:
		}
		return
	default:
		panic("unknown message " + o.K)
	}
	select {
	case d.parent.MessageCh <- peer.ProtoMessage{ID: p, Message: m}:
	default:
		panic("too many messages")
	}
}

func (d *stopDrv) shut(comp string) {
	go func() {
		switch comp {
		case "dist":
			d.dist.Shutdown()
		case "loader":
			d.ld.Shutdown()
		case "respawn":
			d.resp.Shutdown()
		default:
			panic("unknown component " + comp)
		}
		d.mu.Lock()
		defer d.mu.Unlock()
		d.ret = append(d.ret, comp)
	}()
}

func (d *stopDrv) look(e rec) {
	synctest.Wait()
	d.mu.Lock()
	defer d.mu.Unlock()
	e["got"], e["closed"], e["ret"] = append([]int{}, d.got...), d.closed, append([]string{}, d.ret...)
	d.got = nil
}

func (d *stopDrv) step(o stopOp) {
	e := rec{"op": o.Op, "k": o.K, "a": o.A, "comp": o.Comp, "quiet": o.Quiet, "res": "ok", "watch": !d.par.Loader,
		"got": []int{}, "closed": false, "ret": []string{}}
	hang := rec{}
	for k, v := range e {
		hang[k] = v
	}
	d.s.enter(hang)
	switch o.Op {
	case "msg":
		d.n++
		e["n"] = d.n
		d.message(o)
	case "take":
		synctest.Wait()
		if !d.stand {
			d.receive(false)
		}
	case "stand":
		if !d.stand {
			d.stand = true
			go func() {
				for d.receive(true) {
				}
			}()
		}
	case "cancel":
		d.cancel()
	case "stop":
		d.shut(o.Comp)
	case "sleep":
		time.Sleep(time.Duration(o.MS) * time.Millisecond)
	case "connect":
		p := d.peerOf(o.A)
		d.conns[len(d.conns)+1] = p
		if _, err := d.r.SuggestVersion(mustAddr(o.A)); err == nil {
			_ = d.r.RegisterPeer(mustAddr(o.A), p, p.hs)
		}
	case "score":
		_ = d.r.UpdatePeerScore(mustAddr(o.A), mustBig("1000000000000000000000"))
	case "end":
		time.Sleep(time.Minute)
		d.ended = true
	default:
		panic("unknown op " + o.Op)
	}
	if !o.Quiet {
		time.Sleep(2 * time.Second)
		d.look(e)
	}
	d.s.emit(e)
}

func runShutdown(s *session) {
	d := &stopDrv{regDrv: regDrv{s: s, t0: time.Now()}}
	if err := json.Unmarshal(s.sc.Par, &d.par); err != nil {
		panic(err)
	}
	d.ch = &chainsDrv{s: s, nm: newNames(s.sc.ID)}
	d.ch.nm.bind(0, d.ch.nm.id(9999991))
	d.ch.genesis = *d.ch.mkBlock(chainOp{Op: "new", BT: "100", TS: "1000", Gen: 1})
	if err := d.open(regOp{Versions: [][]uint32{{1, 5, 0}}}); err != nil {
		panic(err)
	}
	var err error
	if d.ch.l, err = chains.NewLinkage(s.dir, scheme, d.ch.genesis); err != nil {
		panic(err)
	}
	d.parent = peer.NewParent(true)
	d.dist = NewDistributor(scheme, d.ch.l, d.r, d.parent)
	ctx, cancel := context.WithCancel(context.Background())
	d.cancel = cancel
	comps := []string{}
	if d.par.Respawn {
		comps = append(comps, "respawn")
		d.resp = NewRespawn(d.r, NewConnectionManager(scheme, "d", 1, proto.TCPAddr{}, d.r, d.parent))
		d.resp.Run(ctx)
	}
	d.dist.Run(ctx)
	d.ids, d.blocks = d.dist.IDsCh(), d.dist.BlockCh()
	if d.par.Loader {
		comps = append(comps, "loader")
		d.ld = loading.NewLoader(d.r, d.ch.l, d.dist.IDsCh(), d.dist.BlockCh())
		d.ld.Run(ctx)
	}
	e := rec{"op": "new", "quiet": false, "res": "ok", "loader": d.par.Loader, "comps": comps, "watch": !d.par.Loader}
	d.look(e)
	s.emit(e)
	for _, raw := range s.sc.Ops {
		if s.dead {
			break
		}
		var o stopOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		d.step(o)
	}
	cancel()
	// whoever still tries to hand something over is relieved
	for range 50 {
		time.Sleep(time.Second)
		synctest.Wait()
		if !d.stand {
			select {
			case <-d.dist.IDsCh():
			case <-d.dist.BlockCh():
			default:
			}
		}
	}
	d.close()
	d.ch.l.Close()
	time.Sleep(time.Minute)
}
