package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	g "github.com/wavesplatform/gowaves/pkg/grpc/generated/waves"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"
	protobuf "google.golang.org/protobuf/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
)

// The detector as its peers see it, in virtual time: the real stores, distributor and connection manager. Messages are
// either given to the distributor as gowaves would ("direct"), or sent as bytes over a connection ("wire").

func init() {
	modes["detector"] = func(t *testing.T, s *session) {
		synctest.Test(t, func(*testing.T) { runDetector(s) })
	}
}

type treeBlock struct {
	P   int    `json:"p"`
	BT  string `json:"bt"`
	TS  string `json:"ts"`
	Gen int    `json:"gen"`
	V   int    `json:"v"`
	TX  int    `json:"tx"`
}

type detOp struct {
	Op    string  `json:"op"`
	A     string  `json:"a"`
	C     int     `json:"c"`
	B     int     `json:"b"`
	R     int     `json:"r"`
	K     string  `json:"k"`
	N     int     `json:"n"`
	S     string  `json:"s"`
	IDs   []int   `json:"ids"`
	Addrs [][]any `json:"addrs"`
	HS    *hsPar  `json:"hs"`
	Seed  int64   `json:"seed"`
	Quiet bool    `json:"quiet"` // the next operation follows at once, without looking
	Split int     `json:"split"` // bytes per write, 0: all at once
}

type detPar struct {
	Wire     bool              `json:"wire"`
	Salt     string            `json:"salt"`
	Tree     map[int]treeBlock `json:"tree"`
	Declared string            `json:"declared"`
	Versions [][]uint32        `json:"versions"`
	Known    []int             `json:"known"` // blocks recorded from the beginning
	Book     [][]any           `json:"book"`  // addresses known from the beginning
}

// wireEnd is the remote end of a connection.
type wireEnd struct {
	c      int
	a      string
	conn   net.Conn
	mu     sync.Mutex
	buf    []byte
	closed bool
	shaken bool
}

type addrConn struct {
	net.Conn
	remote net.Addr
}

func (c addrConn) RemoteAddr() net.Addr { return c.remote }

func (w *wireEnd) read() {
	b := make([]byte, 65536)
	for {
		n, err := w.conn.Read(b)
		w.mu.Lock()
		w.buf = append(w.buf, b[:n]...)
		if err != nil {
			w.closed = true
			w.mu.Unlock()
			return
		}
		w.mu.Unlock()
	}
}

type handedOn struct {
	k, a string
	ids  []proto.BlockID
}

type detDrv struct {
	regDrv
	par    detPar
	ch     *chainsDrv
	parent peer.Parent
	dist   *Distributor
	cm     *ConnectionManager
	cancel context.CancelFunc
	ctx    context.Context
	born   time.Time
	wires  map[int]*wireEnd
	mu     sync.Mutex
	fwd    []handedOn
	fed    sync.WaitGroup
	over   chan struct{}
	gone   map[int]bool // connections this side closed
}

// ---- blocks ----

func (d *detDrv) id(name int) proto.BlockID {
	if id, ok := d.ch.nm.has(name); ok {
		return id
	}
	if t, ok := d.par.Tree[name]; ok && t.V == 5 {
		d.block(name)
		return d.ch.nm.id(name)
	}
	return d.ch.nm.id(name)
}

func (d *detDrv) block(name int) *proto.Block {
	t := d.par.Tree[name]
	b := &proto.Block{}
	b.Version = proto.BlockVersion(t.V)
	b.Parent = d.id(t.P)
	b.Timestamp = mustBig(t.TS).Uint64()
	b.BaseTarget = mustBig(t.BT).Uint64()
	b.GenSignature = make([]byte, 32)
	b.GenSignature[0] = byte(name)
	b.GenSignature[1] = byte(name >> 8)
	b.ConsensusBlockLength = 40
	b.GeneratorPublicKey = genKey(t.Gen)
	b.Features = []int16{}
	b.RewardVote = -1
	if t.V < 5 {
		b.BlockSignature = d.ch.nm.id(name).Signature()
		b.TransactionBlockLength = 4
		if t.V < 3 {
			b.TransactionBlockLength = 1
		}
	} else {
		b.GenSignature = append(b.GenSignature, make([]byte, 64)...)
		b.TransactionsRoot = make([]byte, 32)
	}
	for i := 0; i < t.TX; i++ {
		if i >= 8 { // the same again
			b.Transactions = append(b.Transactions, b.Transactions[i-8])
			b.TransactionCount++
			continue
		}
		tx := proto.NewUnsignedTransferWithSig(genKey(t.Gen), proto.NewOptionalAssetWaves(), proto.NewOptionalAssetWaves(),
			1, uint64(i)+1, 100000, proto.NewRecipientFromAddress(mustWaves(t.Gen)), nil)
		sk, _, err := crypto.GenerateKeyPair([]byte("x"))
		if err != nil {
			panic(err)
		}
		if err = tx.Sign(scheme, sk); err != nil {
			panic(err)
		}
		b.Transactions = append(b.Transactions, tx)
		b.TransactionCount++
	}
	if t.V < 5 && t.TX > 0 {
		b.TransactionBlockLength += uint32(b.Transactions.BinarySize())
	}
	if t.V >= 3 && t.V < 5 {
		b.Features = []int16{1, 2, 3}[:name%4%3]
		b.FeaturesCount = len(b.Features)
	}
	if err := b.GenerateBlockID(scheme); err != nil {
		panic(err)
	}
	if _, ok := d.ch.nm.has(name); !ok {
		d.ch.nm.bind(name, b.BlockID())
	}
	return b
}

func mustWaves(gen int) proto.WavesAddress {
	a, err := proto.NewAddressFromPublicKey(scheme, genKey(gen))
	if err != nil {
		panic(err)
	}
	return a
}

// blockBytes are the contents of a block message; how says what is wrong with them.
func (d *detDrv) blockBytes(name int, how string) (bool, []byte) {
	b := d.block(name)
	if b.Version < 5 {
		data, err := b.MarshalBinary(scheme)
		if err != nil {
			panic(err)
		}
		switch how {
		case "count": // more transactions than bytes
			if b.Version >= 3 {
				binary.BigEndian.PutUint32(data[121:125], 0xffffffff)
			} else {
				data[121] = 255
			}
		case "features":
			if b.Version >= 3 {
				binary.BigEndian.PutUint32(data[121+b.TransactionBlockLength:], 0x7fffffff)
			}
		case "length":
			binary.BigEndian.PutUint32(data[117:121], 0xfffffff0)
		}
		return false, data
	}
	pb, err := b.ToProtobuf(scheme)
	if err != nil {
		panic(err)
	}
	switch how {
	case "count": // a transaction of no kind
		pb.Transactions = append(pb.Transactions, &g.SignedTransaction{})
	case "empty":
		pb.Transactions = append(pb.Transactions, &g.SignedTransaction{Transaction: &g.SignedTransaction_WavesTransaction{
			WavesTransaction: &g.Transaction{ChainId: int32(scheme)}}})
	case "features": // a call of a function with less arguments than it says
		call := []byte{9, 1, 0, 0, 0, 1, 'f', 0xff, 0xff, 0xff, 0xff}
		pb.Transactions = append(pb.Transactions, invoke(call))
	case "length": // lists in lists
		call := []byte{9, 1, 0, 0, 0, 1, 'f', 0, 0, 0, 1}
		for range 2000 {
			call = append(call, 11, 0, 0, 0, 1)
		}
		pb.Transactions = append(pb.Transactions, invoke(call))
	}
	data, err := protobuf.MarshalOptions{Deterministic: true}.Marshal(pb)
	if err != nil {
		panic(err)
	}
	return true, data
}

func invoke(call []byte) *g.SignedTransaction {
	a := mustWaves(1)
	return &g.SignedTransaction{Transaction: &g.SignedTransaction_WavesTransaction{WavesTransaction: &g.Transaction{
		ChainId: int32(scheme), SenderPublicKey: make([]byte, 32), Fee: &g.Amount{Amount: 1}, Version: 2, Timestamp: 1,
		Data: &g.Transaction_InvokeScript{InvokeScript: &g.InvokeScriptTransactionData{
			DApp:         &g.Recipient{Recipient: &g.Recipient_PublicKeyHash{PublicKeyHash: a.Bytes()[2:22]}},
			FunctionCall: call}}}}, Proofs: [][]byte{make([]byte, 64)}}
}

// ---- messages ----

func frame(id byte, payload []byte) []byte {
	var b bytes.Buffer
	n := 13
	if len(payload) > 0 {
		n = 17
	}
	h := make([]byte, n)
	binary.BigEndian.PutUint32(h[0:], uint32(n-4+len(payload)))
	binary.BigEndian.PutUint32(h[4:], 0x12345678)
	h[8] = id
	binary.BigEndian.PutUint32(h[9:], uint32(len(payload)))
	if n == 17 {
		s := crypto.MustFastHash(payload)
		copy(h[13:], s[:4])
	}
	b.Write(h)
	b.Write(payload)
	return b.Bytes()
}

var dropped = []byte{0x14, 0x16, 0x19, 0x64, 27, 28, 30, 31, 32, 34, 35, 36, 37}

func droppedMessage(n int) proto.Message {
	ms := []proto.Message{&proto.GetSignaturesMessage{}, &proto.GetBlockMessage{}, &proto.TransactionMessage{Transaction: []byte{1, 2}},
		&proto.CheckPointMessage{}, &proto.MicroBlockRequestMessage{}, &proto.MicroBlockMessage{}, &proto.PBMicroBlockMessage{},
		&proto.PBTransactionMessage{}, &proto.GetBlockIdsMessage{}}
	return ms[n%len(ms)]
}

// message makes the message of an operation: for the distributor, and as bytes.
func (d *detDrv) message(o detOp, e rec) (proto.Message, []byte) {
	r := mrand.New(mrand.NewSource(o.Seed))
	switch o.Op {
	case "block":
		t := d.par.Tree[o.B]
		e["b"], e["p"], e["bt"], e["ts"], e["gen"] = o.B, t.P, limbs(mustBig(t.BT)), limbs(mustBig(t.TS)), t.Gen
		e["odd"] = o.K != ""
		pb, data := d.blockBytes(o.B, o.K)
		if pb {
			return &proto.PBBlockMessage{PBBlockBytes: data}, frame(29, data)
		}
		return &proto.BlockMessage{BlockBytes: data}, frame(0x17, data)
	case "micro":
		e["b"], e["r"] = o.B, o.R
		inv := &proto.MicroBlockInv{PublicKey: genKey(9), TotalBlockID: d.id(o.B), Reference: d.id(o.R)}
		data, err := inv.MarshalBinary()
		if err != nil {
			panic(err)
		}
		return &proto.MicroBlockInvMessage{Body: data}, frame(0x1A, data)
	case "score":
		var data []byte
		if o.N > 0 {
			data = make([]byte, o.N)
			data[0] = 1
			e["s"], e["size"] = "huge", o.N
			if o.N <= 64 {
				e["s"] = new(big.Int).SetBytes(data).String()
			}
		} else {
			data = mustBig(o.S).Bytes()
			if len(data) == 0 {
				data = []byte{0}
			}
			e["s"], e["size"] = o.S, len(data)
		}
		if o.K == "padded" {
			data = append(make([]byte, 4), data...)
			e["size"] = len(data)
		}
		return &proto.ScoreMessage{Score: data}, frame(0x18, data)
	case "peers":
		m := &proto.PeersMessage{}
		l := [][]any{}
		for _, x := range o.Addrs {
			m.Peers = append(m.Peers, proto.PeerInfo{Addr: net.ParseIP(x[0].(string)), Port: uint16(x[1].(float64))})
			l = append(l, []any{x[0], int(x[1].(float64))})
		}
		e["l"] = l
		var p []byte
		p = binary.BigEndian.AppendUint32(p, uint32(len(m.Peers)))
		for _, x := range m.Peers {
			b := make([]byte, 8)
			copy(b, x.Addr.To4())
			binary.BigEndian.PutUint32(b[4:], uint32(x.Port))
			p = append(p, b...)
		}
		return m, frame(2, p)
	case "list":
		l := []int{}
		l = append(l, o.IDs...)
		e["l"], e["k"] = l, o.K
		var p []byte
		p = binary.BigEndian.AppendUint32(p, uint32(len(l)))
		if o.K == "sigs" {
			m := &proto.SignaturesMessage{}
			for _, n := range l {
				m.Signatures = append(m.Signatures, d.id(n).Signature())
				p = append(p, d.id(n).Bytes()...)
			}
			return m, frame(0x15, p)
		}
		m := &proto.BlockIdsMessage{}
		for _, n := range l {
			m.Blocks = append(m.Blocks, d.id(n))
			p = append(p, byte(len(d.id(n).Bytes())))
			p = append(p, d.id(n).Bytes()...)
		}
		return m, frame(33, p)
	case "ask":
		return &proto.GetPeersMessage{}, frame(1, nil)
	case "other":
		p := make([]byte, []int{0, 1, 7, 300, 70000}[r.Intn(5)])
		r.Read(p)
		return droppedMessage(o.N), frame(dropped[o.N%len(dropped)], p)
	case "fuzz":
		return d.fuzz(o, r)
	}
	panic("unknown op " + o.Op)
}

// fuzz makes a message without meaning. Blocks, references and totals in it are unknown ones.
func (d *detDrv) fuzz(o detOp, r *mrand.Rand) (proto.Message, []byte) {
	junk := func(n int) []byte {
		p := make([]byte, n)
		r.Read(p)
		return p
	}
	mutate := func(data []byte, keep ...int) []byte {
		data = append([]byte{}, data...)
		switch r.Intn(6) {
		case 0:
			data = data[:r.Intn(len(data)+1)]
		case 1:
			data = append(data, junk(1+r.Intn(20))...)
		}
		for range r.Intn(6) {
			if len(data) == 0 {
				break
			}
			i := r.Intn(len(data))
			switch r.Intn(4) {
			case 0:
				data[i] = byte(r.Intn(256))
			case 1:
				data[i] ^= 1 << r.Intn(8)
			case 2:
				for j := i; j < min(i+4, len(data)); j++ {
					data[j] = []byte{0xff, 0, 0x7f, 0x80}[r.Intn(4)]
				}
			case 3:
				copy(data[i:], junk(r.Intn(9)))
			}
		}
		return data
	}
	switch o.K {
	case "old", "pb":
		// a child of an unknown block
		n := 100000 + int(o.Seed%50000)*2
		v := 5
		if o.K == "old" {
			n++
			v = 1 + r.Intn(4)
		}
		d.par.Tree[n] = treeBlock{P: 200001 + 2*r.Intn(3000), BT: fmt.Sprint(r.Intn(1000)), TS: fmt.Sprint(r.Intn(1000000)), Gen: r.Intn(4), V: v, TX: r.Intn(3)}
		how := []string{"", "", "", "count", "features", "length", "empty"}[r.Intn(7)]
		pb, data := d.blockBytes(n, how)
		data = mutate(data)
		if pb {
			return &proto.PBBlockMessage{PBBlockBytes: data}, frame(29, data)
		}
		return &proto.BlockMessage{BlockBytes: data}, frame(0x17, data)
	case "inv":
		data := mutate(junk([]int{0, 1, 31, 159, 160, 161, 223, 224, 225, 1000}[r.Intn(10)]))
		return &proto.MicroBlockInvMessage{Body: data}, frame(0x1A, data)
	case "ids":
		p := binary.BigEndian.AppendUint32(nil, uint32(r.Intn(4)))
		for range r.Intn(4) {
			n := []int{0, 1, 31, 32, 33, 64, 65, 255}[r.Intn(8)]
			p = append(append(p, byte(n)), junk(n)...)
		}
		return &proto.BlockIdsMessage{}, frame(33, mutate(p))
	case "sigs":
		p := binary.BigEndian.AppendUint32(nil, uint32(r.Intn(4)))
		p = append(p, junk(64*r.Intn(4))...)
		return &proto.SignaturesMessage{Signatures: []crypto.Signature{{1}}}, frame(0x15, mutate(p))
	case "none": // no payload at all
		id := []byte{2, 0x15, 0x17, 0x1A, 29, 33}[r.Intn(6)]
		return []proto.Message{&proto.PeersMessage{}, &proto.SignaturesMessage{}, &proto.BlockMessage{}, &proto.MicroBlockInvMessage{},
			&proto.PBBlockMessage{}, &proto.BlockIdsMessage{}}[r.Intn(6)], frame(id, nil)
	case "kind": // of no known kind
		return nil, frame([]byte{0, 3, 0x13, 0x1b + 40, 99, 0xff}[r.Intn(6)], junk(r.Intn(50)))
	case "head": // a broken header
		f := frame(dropped[r.Intn(len(dropped))], junk(r.Intn(40)))
		switch r.Intn(4) {
		case 0:
			f[4+r.Intn(4)] ^= 0x10
		case 1:
			binary.BigEndian.PutUint32(f[9:], 200<<20)
		case 2:
			binary.BigEndian.PutUint32(f[0:], r.Uint32())
		case 3:
			f = append(f[:4], junk(9)...)
			f[8] = 0xEE
		}
		return nil, f
	case "peers":
		p := binary.BigEndian.AppendUint32(nil, 1000000+uint32(r.Intn(1<<30)))
		return &proto.PeersMessage{}, frame(2, append(p, junk(r.Intn(60))...))
	}
	panic("unknown kind " + o.K)
}

// ---- running ----

func (d *detDrv) start() string {
	res, det := try(func() string {
		if err := d.regDrv.open(regOp{Declared: d.par.Declared, Versions: d.par.Versions}); err != nil {
			return "error: " + err.Error()
		}
		l, err := chains.NewLinkage(d.s.dir, scheme, d.ch.genesis)
		if err != nil {
			return "error: " + err.Error()
		}
		d.ch.l = l
		return "ok"
	})
	if res != "ok" {
		return res + det
	}
	d.parent = peer.NewParent(true)
	d.ctx, d.cancel = context.WithCancel(context.Background())
	da := proto.TCPAddr{}
	if d.par.Declared != "" {
		da = proto.NewTCPAddrFromString(d.par.Declared + ":6868")
	}
	d.cm = NewConnectionManager(scheme, "detector", 4711, da, d.r, d.parent)
	d.dist = NewDistributor(scheme, d.ch.l, d.r, d.parent)
	d.dist.Run(d.ctx)
	d.born = time.Now()
	d.wires = map[int]*wireEnd{}
	d.gone = map[int]bool{}
	over := make(chan struct{})
	d.over = over
	d.fed.Add(1)
	go func() {
		defer d.fed.Done()
		ids, blocks := d.dist.IDsCh(), d.dist.BlockCh()
		for ids != nil || blocks != nil {
			var h handedOn
			select {
			case p, ok := <-ids:
				if !ok {
					ids = nil
					continue
				}
				h = handedOn{"ids", p.Peer.String(), append([]proto.BlockID{}, p.IDs...)}
			case p, ok := <-blocks:
				if !ok {
					blocks = nil
					continue
				}
				h = handedOn{"block", p.Peer.String(), []proto.BlockID{p.Block.BlockID()}}
			case <-over:
				return
			}
			d.mu.Lock()
			d.fwd = append(d.fwd, h)
			d.mu.Unlock()
		}
	}()
	return "ok"
}

func (d *detDrv) stop() {
	if d.cancel == nil {
		return
	}
	d.cancel()
	d.dist.Shutdown()
	close(d.over)
	d.fed.Wait()
	for _, w := range d.wires {
		w.conn.Close()
	}
	synctest.Wait()
	d.cancel = nil
	d.ch.l.Close()
	d.regDrv.close()
}

// settle drops what was sent to the connections since, and says what it was.
func (d *detDrv) collect() map[string]rec {
	out := map[string]rec{}
	add := func(r rec) {
		b, _ := json.Marshal(r)
		if x, ok := out[string(b)]; ok {
			x["n"] = x["n"].(int) + 1
			return
		}
		r["n"] = 1
		out[string(b)] = r
	}
	msg := func(c int, m proto.Message) {
		r := rec{"c": c, "l": [][]any{}, "v": []int{0, 0, 0}}
		switch v := m.(type) {
		case *proto.GetPeersMessage:
			r["k"] = "getpeers"
		case *proto.PeersMessage:
			r["k"] = "peers"
			l := [][]any{}
			for _, p := range v.Peers {
				l = append(l, []any{p.Addr.String(), int(p.Port)})
			}
			sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
			r["l"] = l
		default:
			r["k"] = fmt.Sprintf("%T", m)
		}
		add(r)
	}
	for c, p := range d.conns {
		for _, m := range p.take() {
			msg(c, m)
		}
	}
	for c, w := range d.wires {
		w.mu.Lock()
		buf := w.buf
		w.buf = nil
		w.mu.Unlock()
		if len(buf) > 0 && !w.shaken {
			h := proto.Handshake{}
			rd := bytes.NewReader(buf)
			r := rec{"c": c, "k": "handshake", "l": [][]any{}, "v": []int{0, 0, 0}}
			if _, err := h.ReadFrom(rd); err != nil {
				r["k"] = "garbage: " + err.Error()
			} else {
				w.shaken = true
				r["v"] = verTriple(h.Version)
				want := d.par.Declared
				if want != "" {
					want += ":6868"
				}
				got := ""
				if !h.DeclaredAddr.Empty() {
					got = h.DeclaredAddr.String()
				}
				if h.AppName != "waves"+string(scheme) || h.NodeName != "detector" || h.NodeNonce != 4711 || got != want {
					r["k"] = fmt.Sprintf("handshake of %s %s %d %s", h.AppName, h.NodeName, h.NodeNonce, got)
				}
			}
			add(r)
			buf = buf[len(buf)-rd.Len():]
		}
		for len(buf) > 0 {
			h := proto.Header{}
			if err := h.UnmarshalBinary(buf); err != nil || len(buf) < int(h.HeaderLength()+h.PayloadLength) {
				add(rec{"c": c, "k": "garbage", "l": [][]any{}, "v": []int{0, 0, 0}})
				break
			}
			n := int(h.HeaderLength() + h.PayloadLength)
			m, err := proto.UnmarshalMessage(buf[:n])
			if err != nil {
				add(rec{"c": c, "k": "garbage: " + err.Error(), "l": [][]any{}, "v": []int{0, 0, 0}})
			} else {
				msg(c, m)
			}
			buf = buf[n:]
		}
	}
	return out
}

func outList(m map[string]rec) []rec {
	r := []rec{}
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

func (d *detDrv) closedNow() []int {
	closed := []int{}
	for c, p := range d.conns {
		p.mu.Lock()
		if p.closed > 0 {
			closed = append(closed, c)
		}
		p.mu.Unlock()
	}
	for c, w := range d.wires {
		w.mu.Lock()
		if w.closed || d.gone[c] {
			closed = append(closed, c)
		}
		w.mu.Unlock()
	}
	sort.Ints(closed)
	return closed
}

// observe looks at everything.
func (d *detDrv) observe(e rec) {
	d.mu.Lock()
	fwd := []rec{}
	for _, f := range d.fwd {
		l := []int{}
		for _, id := range f.ids {
			l = append(l, d.ch.nm.of(id))
		}
		fwd = append(fwd, rec{"k": f.k, "a": f.a, "l": l})
	}
	d.fwd = nil
	d.mu.Unlock()
	e["fwd"] = fwd
	e["out"] = outList(d.collect())
	e["alive"] = len(d.parent.MessageCh) == 0 && len(d.parent.InfoCh) == 0
	e["closed"] = d.closedNow()
	bad := []string{}
	ask := func(what string, f func() error) {
		res, det := try(func() string {
			if err := f(); err != nil {
				return err.Error()
			}
			return "ok"
		})
		if res != "ok" {
			bad = append(bad, what+": "+res+det)
		}
	}
	book := []rec{}
	ask("peers", func() error {
		ps, err := d.r.Peers()
		for _, p := range ps {
			book = append(book, d.record(p))
		}
		return err
	})
	e["book"] = book
	friends := []string{}
	ask("friendly", func() error {
		ps, err := d.r.FriendlyPeers()
		for _, p := range ps {
			friends = append(friends, p.AddressPort.Addr().String())
		}
		return err
	})
	e["friendly"] = friends
	ask("addresses", func() error { _, err := d.r.Addresses(); return err })
	conns := []string{}
	ask("connections", func() error {
		ps, err := d.r.Connections()
		for _, p := range ps {
			conns = append(conns, p.AddressPort.Addr().String())
		}
		return err
	})
	e["conns"] = conns
	bs := []rec{}
	ask("blocks", func() error {
		for _, n := range d.ch.nm.used {
			if has, b := d.ch.look(n); has {
				b["id"] = n
				delete(b, "score")
				if x, ok := new(big.Int).SetString(fmt.Sprint(b["ts"]), 10); ok {
					b["ts"] = limbs(x)
				} else {
					bad = append(bad, fmt.Sprint("block ", n, ": ", b["ts"]))
					b["ts"] = []int{}
				}
				bs = append(bs, b)
			}
		}
		return nil
	})
	e["blocks"] = bs
	heads := []int{}
	ask("heads", func() error {
		hs, err := d.ch.l.Heads()
		for _, h := range hs {
			heads = append(heads, d.ch.nm.of(h.BlockID))
		}
		return err
	})
	e["heads"] = heads
	ask("active heads", func() error { _, err := d.ch.l.ActiveHeads(); return err })
	ls := [][]any{}
	ask("leashes", func() error {
		xs, err := d.ch.l.Leashes()
		for _, x := range xs {
			ls = append(ls, []any{x.Addr.String(), d.ch.nm.of(x.BlockID)})
			a := x.Addr
			ask("fork of "+a.String(), func() error { _, err := d.ch.l.Fork(a); return err })
			ask("lcb of "+a.String(), func() error { _, err := d.ch.l.LCB(a); return err })
			ask("leash score of "+a.String(), func() error { _, err := d.ch.l.LeashScore(a); return err })
			ask("ids of "+a.String(), func() error { _, err := d.ch.l.LastIDs(x.BlockID, 100); return err })
			ask("generators of "+a.String(), func() error { _, err := d.ch.l.ForkGenerators(x.BlockID, 100); return err })
		}
		return err
	})
	e["leashes"] = ls
	ask("forks", func() error { _, err := d.ch.l.Forks(nil); return err })
	ask("stats", func() error { _, err := d.ch.l.Stats(); return err })
	e["bad"] = bad
	// Which connection is behind each connected address.
	ends := [][]any{}
	d.r.Broadcast(&proto.GetPeersMessage{})
	synctest.Wait()
	for _, m := range d.collect() {
		ends = append(ends, []any{d.addrOf(m["c"].(int)), m["c"], m["n"]})
	}
	e["ends"] = ends
}

func (d *detDrv) addrOf(c int) string {
	if p, ok := d.conns[c]; ok {
		return p.addr.Addr().String()
	}
	if w, ok := d.wires[c]; ok {
		return w.a
	}
	return ""
}

func (d *detDrv) minutes() int { return int(time.Since(d.born) / pingInterval) }

func (d *detDrv) write(w *wireEnd, data []byte, split int) {
	if split <= 0 {
		split = len(data)
	}
	for len(data) > 0 {
		n := min(split, len(data))
		if _, err := w.conn.Write(data[:n]); err != nil {
			return
		}
		data = data[n:]
	}
}

func (d *detDrv) step(o detOp) {
	e := rec{"op": o.Op, "c": o.C, "cut": false}
	d.s.enter(rec{"op": o.Op, "c": o.C, "quiet": false})
	e["quiet"] = o.Quiet
	e["res"] = "ok"
	e["now"] = d.now()
	switch o.Op {
	case "accept":
		e["a"] = o.A
		if !d.par.Wire {
			p := &fakePeer{c: o.C, addr: sourceOf(o.A, o.C)}
			d.conns[o.C] = p
			_, det := try(func() string {
				if _, err := d.r.SuggestVersion(mustAddr(o.A)); err != nil {
					_ = p.Close()
				}
				return ""
			})
			if det != "" {
				e["res"] = "panic: " + det
			}
			break
		}
		cl, srv := net.Pipe()
		w := &wireEnd{c: o.C, a: o.A, conn: cl}
		d.wires[o.C] = w
		go w.read()
		go func() { _ = d.cm.Accept(d.ctx, addrConn{srv, net.TCPAddrFromAddrPort(sourceOf(o.A, o.C))}) }()
	case "shake":
		e["hs"] = rec{"ver": verTriple(o.HS.handshake().Version), "daddr": o.HS.DAddr, "dport": o.HS.DPort,
			"net": len(o.HS.App) > 0 && o.HS.App[len(o.HS.App)-1] == scheme}
		if !d.par.Wire {
			p := d.conns[o.C]
			p.hs = o.HS.handshake()
			d.parent.InfoCh <- peer.InfoMessage{Peer: p, Value: &peer.Connected{Peer: p}}
			break
		}
		h := o.HS.handshake()
		var b bytes.Buffer
		if _, err := h.WriteTo(&b); err != nil {
			panic(err)
		}
		d.write(d.wires[o.C], b.Bytes(), o.Split)
	case "leave": // without a handshake, or with a broken one
		if d.par.Wire {
			w := d.wires[o.C]
			b := make([]byte, o.N)
			_, _ = rand.Read(b)
			h := proto.Handshake{}
			if _, err := h.ReadFrom(bytes.NewReader(b)); err != nil {
				d.write(w, b, o.Split)
			}
			d.gone[o.C] = true
			w.conn.Close()
		}
	case "end":
		if d.par.Wire {
			d.gone[o.C] = true
			d.wires[o.C].conn.Close()
			break
		}
		p := d.conns[o.C]
		d.parent.InfoCh <- peer.InfoMessage{Peer: p, Value: &peer.InternalErr{Err: fmt.Errorf("gone")}}
	case "sleep":
		n := d.minutes()
		if d.par.Wire { // keep the connections busy
			for c, w := range d.wires {
				if !d.gone[c] && w.shaken {
					d.write(w, frame(0x14, nil), 0)
				}
			}
		}
		time.Sleep(time.Duration(o.N) * time.Second)
		synctest.Wait()
		e["pings"] = d.minutes() - n
	case "reopen":
		d.stop()
		e["res"] = d.start()
		e["now"] = d.now()
		if e["res"] != "ok" {
			d.s.emit(e)
			d.s.dead = true
			return
		}
	default:
		m, data := d.message(o, e)
		if !d.par.Wire {
			if m != nil {
				d.parent.MessageCh <- peer.ProtoMessage{ID: d.conns[o.C], Message: m}
			}
			break
		}
		d.write(d.wires[o.C], data, o.Split)
		if o.Op == "fuzz" && o.K == "head" { // what follows on this connection would have no meaning
			synctest.Wait()
			if !d.wires[o.C].isClosed() {
				d.gone[o.C] = true
				d.wires[o.C].conn.Close()
			}
			e["cut"] = true
		}
	}
	if !o.Quiet {
		synctest.Wait()
		d.observe(e)
	}
	d.s.emit(e)
}

func runDetector(s *session) {
	d := &detDrv{}
	d.s, d.t0 = s, time.Now()
	if err := json.Unmarshal(s.sc.Par, &d.par); err != nil {
		panic(err)
	}
	if d.par.Tree == nil {
		d.par.Tree = map[int]treeBlock{}
	}
	d.ch = &chainsDrv{s: s, nm: newNames(d.par.Salt)}
	gs := d.ch.nm.id(9999991).Signature()
	d.ch.nm = newNames(d.par.Salt)
	d.ch.nm.bind(0, proto.NewBlockIDFromSignature(gs))
	gb := proto.Block{}
	gb.Version, gb.BlockSignature, gb.BaseTarget, gb.Timestamp, gb.GeneratorPublicKey = 1, gs, 153722867, 1460678400000, genKey(0)
	gb.ID = proto.NewBlockIDFromSignature(gs)
	d.ch.genesis = gb
	e := rec{"op": "new", "c": 0, "quiet": false, "declared": d.par.Declared, "versions": d.par.Versions, "now": d.now(),
		"bt": limbs(big.NewInt(153722867)), "ts": limbs(big.NewInt(1460678400000)), "gen": 0}
	s.enter(rec{"op": "new", "c": 0, "quiet": false})
	e["res"] = d.start()
	if e["res"] != "ok" {
		panic(e["res"])
	}
	d.observe(e)
	s.emit(e)
	defer func() {
		_ = try2(d.stop)
		time.Sleep(time.Minute)
	}()
	for _, raw := range s.sc.Ops {
		if s.dead {
			return
		}
		var o detOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		if d.par.Wire && o.C > 0 && o.Op != "accept" {
			if w, ok := d.wires[o.C]; !ok || w.isClosed() || d.gone[o.C] {
				continue // the connection is no more
			}
		} else if !d.par.Wire && o.C > 0 && o.Op != "accept" {
			p, ok := d.conns[o.C]
			if !ok || p.closed > 0 {
				continue
			}
		}
		d.step(o)
	}
}

func (w *wireEnd) isClosed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.closed
}

func try2(f func()) string {
	r, _ := try(func() string { f(); return "ok" })
	return r
}

var _ = strings.Contains
