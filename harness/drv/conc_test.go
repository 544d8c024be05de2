package main

import (
	"encoding/json"
	"sync"
	"sync/atomic"
	"testing"
)

// Concurrent histories of the chain store: several goroutines work on it at once; for each call the order of its
// invocation and return among all others is recorded.

func init() { modes["conc"] = runConc }

type concPar struct {
	New     chainOp     `json:"new"`
	Setup   []chainOp   `json:"setup"`
	Threads [][]chainOp `json:"threads"`
	Names   int         `json:"names"`
}

func runConc(_ *testing.T, s *session) {
	var p concPar
	if err := json.Unmarshal(s.sc.Par, &p); err != nil {
		panic(err)
	}
	d := &chainsDrv{s: &session{dir: s.dir, sc: s.sc}, nolook: true}
	d.step(p.New)
	defer func() { d.l.Close() }()
	for i := 0; i <= p.Names; i++ {
		d.nm.id(i)
	}
	var seq atomic.Int64
	calls := func(ops []chainOp) []rec {
		t := &chainsDrv{s: &session{dir: s.dir, sc: s.sc}, nolook: true, nm: d.nm, l: d.l, genesis: d.genesis}
		r := []rec{}
		for _, o := range ops {
			inv := seq.Add(1)
			t.step(o)
			ret := seq.Add(1)
			e := t.s.events[len(t.s.events)-1]
			e["inv"], e["ret"] = int(inv), int(ret)
			delete(e, "blk0")
			r = append(r, e)
		}
		return r
	}
	ops := calls(p.Setup)
	var wg sync.WaitGroup
	start := make(chan struct{})
	res := make([][]rec, len(p.Threads))
	s.enter(rec{"op": "hist", "new": d.args(p.New), "ops": []rec{}})
	for i, t := range p.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res[i] = calls(t)
		}()
	}
	close(start)
	wg.Wait()
	for _, r := range res {
		ops = append(ops, r...)
	}
	s.emit(rec{"op": "hist", "new": d.args(p.New), "ops": ops, "res": "ok"})
}
