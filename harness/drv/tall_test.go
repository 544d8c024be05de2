package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net/netip"
	"testing"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// Tall trees: blocks are named by branch and height.

func init() { modes["tall"] = runTall }

type bh [2]int

type tallOp struct {
	Op   string   `json:"op"`
	K    int      `json:"k"`
	X    bh       `json:"x"`
	N    int      `json:"n"`
	W    int      `json:"w"`
	G    int      `json:"g"`
	Mic  bool     `json:"mic"`
	Pos  []bh     `json:"pos"`
	Want []string `json:"want"`
	Salt string   `json:"salt"`
}

type tallBranch struct {
	par, base, tip, w, g int
}

type tallDrv struct {
	s    *session
	l    *chains.Linkage
	br   []tallBranch // index 0 unused
	back map[proto.BlockID]bh
	salt string
}

const tallGens = 5

func (d *tallDrv) id(x bh) proto.BlockID {
	dg := crypto.MustFastHash([]byte(fmt.Sprintf("%s/%d/%d", d.salt, x[0], x[1])))
	var id proto.BlockID
	if x[1]%3 == 0 {
		var sig crypto.Signature
		copy(sig[:], dg[:])
		copy(sig[32:], dg[:])
		id = proto.NewBlockIDFromSignature(sig)
	} else {
		id = proto.NewBlockIDFromDigest(dg)
	}
	d.back[id] = x
	return id
}

func (d *tallDrv) of(id proto.BlockID) bh {
	if x, ok := d.back[id]; ok {
		return x
	}
	return bh{-9, -9}
}

func (d *tallDrv) at(k, h int) bh {
	for h <= d.br[k].base {
		k = d.br[k].par
	}
	return bh{k, h}
}

// weight w: floor(2^64 / bt) = w
func weightBT(w int) uint64 {
	x := new(big.Int).Lsh(big.NewInt(1), 64)
	return min(x.Div(x, big.NewInt(int64(w))).Uint64(), math.MaxInt64)
}

func (d *tallDrv) block(x bh, parent proto.BlockID, w, g int) *proto.Block {
	b := &proto.Block{}
	b.Version = proto.ProtobufBlockVersion
	b.ID = d.id(x)
	b.Parent = parent
	b.Timestamp = uint64(1000 + x[1])
	b.BaseTarget = weightBT(w)
	b.GeneratorPublicKey = genKey((x[1] + g) % tallGens)
	return b
}

func tallPeer(i int) netip.Addr { return netip.AddrFrom4([4]byte{10, 1, 0, byte(i)}) }


func runTall(_ *testing.T, s *session) {
	d := &tallDrv{s: s, back: map[proto.BlockID]bh{}}
	defer func() {
		if d.l != nil {
			d.l.Close()
		}
	}()
	for _, raw := range s.sc.Ops {
		var o tallOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		if s.dead {
			return
		}
		e := rec{"op": o.Op}
		switch o.Op {
		case "new":
			d.salt = o.Salt
			d.br = []tallBranch{{}, {0, 0, 1, 2, 0}}
			var err error
			d.l, err = chains.NewLinkage(s.dir, scheme, *d.block(bh{1, 1}, proto.BlockID{}, 2, 0))
			if err != nil {
				panic(err)
			}
			e["res"] = "ok"
		case "grow":
			e["k"], e["x"], e["n"], e["w"], e["g"], e["mic"] = o.K, o.X, o.N, o.W, o.G, o.Mic
			s.enter(rec{"op": o.Op, "k": o.K, "x": o.X, "n": o.N, "w": o.W, "g": o.G, "mic": o.Mic})
			var det string
			e["res"], det = try(func() string { return d.grow(o) })
			if det != "" {
				e["err"] = det
			}
		case "views":
			e["pos"] = o.Pos
			s.enter(rec{"op": o.Op, "pos": o.Pos})
			_, det := try(func() string { d.views(o, e); return "" })
			if det != "" {
				e["err"] = det
			}
		case "last":
			e["x"], e["n"] = o.X, o.N
			s.enter(rec{"op": o.Op, "x": o.X, "n": o.N, "runs": [][]int{}})
			runs := [][]int{}
			e["res"], _ = try(func() string {
				ids, err := d.l.LastIDs(d.id(o.X), o.N)
				for _, id := range ids {
					x := d.of(id)
					if n := len(runs); n > 0 && runs[n-1][0] == x[0] && runs[n-1][2] == x[1]+1 {
						runs[n-1][2] = x[1]
					} else {
						runs = append(runs, []int{x[0], x[1], x[1]})
					}
				}
				return mapErr(err)
			})
			e["runs"] = runs
		case "gens":
			e["x"], e["n"] = o.X, o.N
			s.enter(rec{"op": o.Op, "x": o.X, "n": o.N, "gens": [][]int{}})
			gs := [][]int{}
			e["res"], _ = try(func() string {
				r, err := d.l.ForkGenerators(d.id(o.X), o.N)
				for _, g := range r {
					gs = append(gs, []int{genOf(g.Generator), g.Blocks})
				}
				return mapErr(err)
			})
			e["gens"] = gs
		default:
			panic("unknown operation " + o.Op)
		}
		s.emit(e)
	}
}

func (d *tallDrv) grow(o tallOp) string {
	if o.K >= len(d.br) {
		b := tallBranch{o.X[0], o.X[1], o.X[1], o.W, o.G}
		if o.Mic {
			p := d.br[o.X[0]]
			b = tallBranch{o.X[0], o.X[1] - 1, o.X[1] - 1, p.w, p.g}
			if p.base == o.X[1]-1 {
				b.par = p.par
			}
		}
		d.br = append(d.br, b)
	}
	for i := 0; i < o.N; i++ {
		b := &d.br[o.K]
		x := bh{o.K, b.tip + 1}
		var err error
		if o.Mic && i == 0 {
			err = d.l.PutMicroBlock(&proto.MicroBlockInv{TotalBlockID: d.id(x), Reference: d.id(o.X)}, tallPeer(1))
		} else {
			err = d.l.PutBlock(d.block(x, d.id(d.at(o.K, b.tip)), b.w, b.g), tallPeer(1))
		}
		if err != nil {
			return mapErr(err)
		}
		b.tip++
	}
	return "ok"
}

func (d *tallDrv) entry(f chains.Fork) rec {
	ps := []int{}
	for _, p := range f.Peers {
		ps = append(ps, int(p.As4()[3]))
	}
	return rec{"head": d.of(f.HeadBlock), "score": int(f.Score.Int64()), "gen": genOf(f.HeadGenerator), "peers": ps,
		"longest": f.Longest, "lcb": d.of(f.LastCommonBlock), "len": f.Length}
}

func noEntry() rec {
	return rec{"head": bh{-9, -9}, "score": -1, "gen": -1, "peers": []int{}, "longest": false, "lcb": bh{-9, -9}, "len": -1}
}

func (d *tallDrv) views(o tallOp, e rec) {
	want := map[string]bool{}
	for _, w := range o.Want {
		want[w] = true
	}
	lcb := []bh{}
	forks := []rec{}
	fork := []rec{}
	stats := []int{-1, -1}
	defer func() { e["lcb"], e["forks"], e["fork"], e["stats"] = lcb, forks, fork, stats }()
	for i, x := range o.Pos {
		if err := d.l.MoveLeash(d.id(x), tallPeer(i+1)); err != nil {
			panic(err)
		}
	}
	for i := range o.Pos {
		if want["lcb"] {
			x := bh{-9, -9}
			try(func() string {
				id, err := d.l.LCB(tallPeer(i + 1))
				if err == nil {
					x = d.of(id)
				}
				return ""
			})
			lcb = append(lcb, x)
		}
		if want["fork"] {
			en := noEntry()
			try(func() string {
				f, err := d.l.Fork(tallPeer(i + 1))
				if err == nil {
					en = d.entry(f)
				}
				return ""
			})
			fork = append(fork, en)
		}
	}
	if want["forks"] {
		try(func() string {
			fs, err := d.l.Forks(nil)
			if err != nil {
				forks = append(forks, noEntry())
			}
			for _, f := range fs {
				forks = append(forks, d.entry(f))
			}
			return ""
		})
	}
	if want["fork"] {
		try(func() string {
			st, err := d.l.Stats()
			if err == nil {
				stats = []int{st.Long, st.Short}
			}
			return ""
		})
	}
}
