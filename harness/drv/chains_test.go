package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/netip"
	"testing"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

func init() { modes["chains"] = runChains }

type chainOp struct {
	Op    string   `json:"op"`
	B     int      `json:"b"`
	P     int      `json:"p"`
	R     int      `json:"r"`
	N     int      `json:"n"`
	BT    string   `json:"bt"`
	TS    string   `json:"ts"`
	Gen   int      `json:"gen"`
	A     string   `json:"a"`
	Peers []string `json:"peers"`
	Salt  string   `json:"salt"`
}

type chainsDrv struct {
	s       *session
	nm      *names
	l       *chains.Linkage
	genesis proto.Block
	nolook  bool // do not read blocks back after putting them
}

func (d *chainsDrv) mkBlock(o chainOp) *proto.Block {
	b := &proto.Block{}
	b.Version = proto.ProtobufBlockVersion
	b.ID = d.nm.id(o.B)
	if o.P >= -100 && o.Op == "put" {
		b.Parent = d.nm.id(o.P)
	}
	b.BaseTarget = mustBig(o.BT).Uint64()
	b.Timestamp = mustBig(o.TS).Uint64()
	b.GeneratorPublicKey = genKey(o.Gen)
	return b
}

func noBlk() rec { return rec{"id": -9, "par": -9, "h": 0, "score": []int{}, "ts": "", "gen": -9} }

func (d *chainsDrv) blkRec(b chains.Block) rec {
	return rec{"id": d.nm.of(b.ID), "par": d.nm.of(b.Parent), "h": int(b.Height), "score": limbs(b.Score),
		"ts": fmt.Sprint(b.Timestamp), "gen": genOf(b.Generator)}
}

// look reads one block back.
func (d *chainsDrv) look(name int) (bool, rec) {
	has := false
	blk := noBlk()
	id := d.nm.id(name)
	res, det := try(func() string {
		h, err := d.l.HasBlock(id)
		if err != nil {
			return "error"
		}
		has = h
		if !h {
			return "ok"
		}
		b, err := d.l.Block(id)
		if err != nil {
			blk["ts"] = "error: " + err.Error()
			return "error"
		}
		blk = d.blkRec(b)
		if blk["id"] != name {
			blk["ts"] = fmt.Sprintf("id mismatch: %v", blk["id"])
		}
		return "ok"
	})
	if res == "panic" {
		blk["ts"] = "panic: " + det
	}
	return has, blk
}

func mapErr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, chains.ErrParentNotFound):
		return "noparent"
	case errors.Is(err, chains.ErrRefNotFound):
		return "noref"
	default:
		return "error"
	}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func runChains(_ *testing.T, s *session) {
	d := &chainsDrv{s: s}
	defer func() {
		if d.l != nil {
			d.l.Close()
		}
	}()
	for _, raw := range s.sc.Ops {
		var o chainOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		if s.dead {
			return
		}
		d.step(o)
	}
}

// args are the arguments of an operation as recorded in the trace.
func (d *chainsDrv) args(o chainOp) rec {
	e := rec{"op": o.Op}
	switch o.Op {
	case "new":
		e["bt"], e["ts"], e["gen"], e["has"], e["blk"] = limbs(mustBig(o.BT)), o.TS, o.Gen, false, noBlk()
	case "put":
		e["b"], e["p"], e["bt"], e["ts"], e["gen"], e["a"] = o.B, o.P, limbs(mustBig(o.BT)), o.TS, o.Gen, o.A
		e["tsl"] = limbs(mustBig(o.TS))
		e["has"], e["blk"] = false, noBlk()
	case "micro":
		e["b"], e["r"], e["a"], e["has"], e["blk"] = o.B, o.R, o.A, false, noBlk()
	case "move":
		e["b"], e["a"] = o.B, o.A
	case "has", "block":
		e["b"] = o.B
	case "lcb", "fork", "leash", "lscore", "hasleash":
		e["a"] = o.A
	case "lastids", "gens":
		e["b"], e["n"] = o.B, max(min(o.N, 1000000000), -1000000000) // TLC's integers have 32 bits
	case "forks", "obs":
		ps := o.Peers
		if ps == nil {
			ps = []string{}
		}
		e["peers"] = ps
	}
	return e
}

func (d *chainsDrv) step(o chainOp) {
	e := d.args(o)
	d.s.enter(d.args(o))
	var det string
	var err error
	res := ""
	switch o.Op {
	case "new":
		d.nm = newNames(o.Salt)
		o.B = 0
		d.genesis = *d.mkBlock(o)
		res, det = try(func() string {
			d.l, err = chains.NewLinkage(d.s.dir, scheme, d.genesis)
			return mapErr(err)
		})
		if d.l == nil {
			panic("cannot open store: " + det + errText(err))
		}
		e["has"], e["blk"] = d.look(0)
	case "put":
		b := d.mkBlock(o)
		res, det = try(func() string {
			err = d.l.PutBlock(b, mustAddr(o.A))
			return mapErr(err)
		})
		if d.nolook {
			break
		}
		e["has"], e["blk"] = d.look(o.B)
	case "micro":
		inv := &proto.MicroBlockInv{PublicKey: genKey(9), TotalBlockID: d.nm.id(o.B), Reference: d.nm.id(o.R)}
		res, det = try(func() string {
			err = d.l.PutMicroBlock(inv, mustAddr(o.A))
			return mapErr(err)
		})
		if d.nolook {
			break
		}
		e["has"], e["blk"] = d.look(o.B)
	case "move":
		res, det = try(func() string {
			err = d.l.MoveLeash(d.nm.id(o.B), mustAddr(o.A))
			return mapErr(err)
		})
	case "obs":
		d.observe(o, e)
		res = "ok"
	case "lcb":
		e["id"] = -9
		res, det = try(func() string {
			id, er := d.l.LCB(mustAddr(o.A))
			if err = er; er == nil {
				e["id"] = d.nm.of(id)
			}
			return mapErr(er)
		})
	case "lastids":
		ids := []int{}
		res, det = try(func() string {
			r, er := d.l.LastIDs(d.nm.id(o.B), o.N)
			for _, id := range r {
				ids = append(ids, d.nm.of(id))
			}
			err = er
			return mapErr(er)
		})
		e["ids"] = ids
	case "forks":
		fs := []rec{}
		res, det = try(func() string {
			var lp chains.LookupPeers
			if o.Peers != nil {
				lp = chains.LookupPeers{}
				for _, p := range o.Peers {
					lp[mustAddr(p)] = struct{}{}
				}
			}
			r, er := d.l.Forks(lp)
			for _, f := range r {
				fs = append(fs, d.forkRec(f))
			}
			err = er
			return mapErr(er)
		})
		e["forks"] = fs
	case "fork":
		e["fork"] = rec{"peers": []string{}}
		res, det = try(func() string {
			f, er := d.l.Fork(mustAddr(o.A))
			if er == nil {
				e["fork"] = d.forkRec(f)
			}
			err = er
			return mapErr(er)
		})
	case "stats":
		e["long"], e["short"] = -1, -1
		res, det = try(func() string {
			st, er := d.l.Stats()
			e["long"], e["short"] = st.Long, st.Short
			err = er
			return mapErr(er)
		})
	case "gens":
		gs := [][]int{}
		res, det = try(func() string {
			r, er := d.l.ForkGenerators(d.nm.id(o.B), o.N)
			for _, g := range r {
				gs = append(gs, []int{genOf(g.Generator), g.Blocks})
			}
			err = er
			return mapErr(er)
		})
		e["gens"] = gs
	case "heads":
		res, e["heads"] = d.headRecs(d.l.Heads)
	case "active":
		res, e["heads"] = d.headRecs(d.l.ActiveHeads)
	case "leashes":
		ls := [][]any{}
		res, det = try(func() string {
			r, er := d.l.Leashes()
			for _, x := range r {
				ls = append(ls, []any{x.Addr.String(), d.nm.of(x.BlockID)})
			}
			err = er
			return mapErr(er)
		})
		e["leashes"] = ls
	case "leash":
		e["leash"] = -9
		res, det = try(func() string {
			id, er := d.l.Leash(mustAddr(o.A))
			e["leash"] = d.nm.of(id)
			err = er
			return mapErr(er)
		})
	case "lscore":
		e["score"] = []int{}
		res, det = try(func() string {
			sc, er := d.l.LeashScore(mustAddr(o.A))
			e["score"] = limbs(sc)
			err = er
			return mapErr(er)
		})
	case "hasleash":
		e["has"] = false
		res, det = try(func() string {
			h, er := d.l.HasLeash(mustAddr(o.A))
			e["has"] = h
			err = er
			return mapErr(er)
		})
	case "has":
		e["has"] = false
		res, det = try(func() string {
			h, er := d.l.HasBlock(d.nm.id(o.B))
			e["has"] = h
			err = er
			return mapErr(er)
		})
	case "block":
		e["blk"] = noBlk()
		res, det = try(func() string {
			b, er := d.l.Block(d.nm.id(o.B))
			if er == nil {
				e["blk"] = d.blkRec(b)
			}
			err = er
			return mapErr(er)
		})
	case "reopen":
		res, det = try(func() string {
			d.l.Close()
			d.l, err = chains.NewLinkage(d.s.dir, scheme, d.genesis)
			return mapErr(err)
		})
		if d.l == nil {
			e["res"], e["err"] = "error", det+errText(err)
			d.s.emit(e)
			d.s.mu.Lock()
			d.s.dead = true
			d.s.mu.Unlock()
			return
		}
	default:
		panic("unknown operation " + o.Op)
	}
	e["res"] = res
	if x := det + errText(err); x != "" {
		e["err"] = x
	}
	d.s.emit(e)
}

func (d *chainsDrv) reopen() error {
	l, err := chains.NewLinkage(d.s.dir, scheme, d.genesis)
	if err == nil {
		d.l = l
	}
	return err
}

func (d *chainsDrv) forkRec(f chains.Fork) rec {
	ps := []string{}
	for _, p := range f.Peers {
		ps = append(ps, p.String())
	}
	return rec{"longest": f.Longest, "head": d.nm.of(f.HeadBlock), "ts": fmt.Sprint(f.HeadTimestamp.UnixMilli()),
		"gen": genOf(f.HeadGenerator), "h": int(f.HeadHeight), "score": limbs(f.Score), "cnt": f.PeersCount,
		"peers": ps, "lcb": d.nm.of(f.LastCommonBlock), "len": f.Length}
}

func (d *chainsDrv) headRecs(f func() ([]chains.Head, error)) (string, [][]int) {
	hs := [][]int{}
	res, _ := try(func() string {
		r, err := f()
		for _, h := range r {
			hs = append(hs, []int{int(h.ID), d.nm.of(h.BlockID)})
		}
		return mapErr(err)
	})
	return res, hs
}

// observe reads the whole store back.
func (d *chainsDrv) observe(o chainOp, e rec) {
	bs := []rec{}
	for _, n := range d.nm.used {
		if has, b := d.look(n); has {
			b["id"] = n
			bs = append(bs, b)
		}
	}
	e["blocks"] = bs
	e["hres"], e["heads"] = d.headRecs(d.l.Heads)
	e["ares"], e["active"] = d.headRecs(d.l.ActiveHeads)
	ls := [][]any{}
	e["lres"], _ = try(func() string {
		r, err := d.l.Leashes()
		for _, x := range r {
			ls = append(ls, []any{x.Addr.String(), d.nm.of(x.BlockID)})
		}
		return mapErr(err)
	})
	e["leashes"] = ls
	ps := []rec{}
	for _, p := range o.Peers {
		ps = append(ps, d.peerObs(mustAddr(p)))
	}
	e["peers"] = ps
}

func (d *chainsDrv) peerObs(a netip.Addr) rec {
	r := rec{"a": a.String(), "has": false, "leash": -9, "score": []int{}}
	r["hres"], _ = try(func() string {
		h, err := d.l.HasLeash(a)
		r["has"] = h
		return mapErr(err)
	})
	r["lres"], _ = try(func() string {
		id, err := d.l.Leash(a)
		r["leash"] = d.nm.of(id)
		return mapErr(err)
	})
	r["sres"], _ = try(func() string {
		sc, err := d.l.LeashScore(a)
		if sc == nil {
			sc = big.NewInt(-1)
		}
		r["score"] = limbs(sc)
		return mapErr(err)
	})
	return r
}

var _ = time.Now
