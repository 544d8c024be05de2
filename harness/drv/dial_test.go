package main

import (
	"context"
	"encoding/json"
	"errors"
	"net"
	"net/netip"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// The dialling loop with the real registry, in virtual time. Attempts are seen when they ask for a version.

func init() {
	modes["dial"] = func(t *testing.T, s *session) {
		synctest.Test(t, func(*testing.T) { runDial(s) })
	}
}

type dialOp struct {
	Op       string     `json:"op"`
	A        string     `json:"a"`
	P        int        `json:"p"`
	C        int        `json:"c"`
	S        float64    `json:"s"`
	Declared string     `json:"declared"`
	Versions [][]uint32 `json:"versions"`
	HS       *hsPar     `json:"hs"`
}

type dialDrv struct {
	regDrv
	mu      sync.Mutex
	pending map[string][]chan error
	down    bool
	cancel  context.CancelFunc
	resp    *Respawn
}

var errAttempt = errors.New("attempt failed")

func (d *dialDrv) ms() int { return int(time.Since(d.t0) / time.Millisecond) }

// SuggestVersion is asked by every attempt before anything is sent.
func (d *dialDrv) SuggestVersion(addr netip.Addr) (proto.Version, error) {
	a := addr.String()
	d.s.emit(rec{"op": "dial", "a": a, "now": d.ms()})
	v, err := d.r.SuggestVersion(addr)
	if err != nil || a == "0.0.0.0" { // dialled for real: nobody listens there
		return v, err
	}
	ch := make(chan error, 1)
	d.mu.Lock()
	if d.down {
		d.mu.Unlock()
		return v, errAttempt
	}
	d.pending[a] = append(d.pending[a], ch)
	d.mu.Unlock()
	return v, <-ch
}

func (d *dialDrv) next(a string) chan error {
	d.mu.Lock()
	defer d.mu.Unlock()
	q := d.pending[a]
	if len(q) == 0 {
		return nil
	}
	d.pending[a] = q[1:]
	return q[0]
}

// databaseOf finds the database behind the registry, whatever the fields are called.
func databaseOf(v reflect.Value, depth int) *leveldb.DB {
	if depth > 6 || !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if v.Type() == reflect.TypeOf((*leveldb.DB)(nil)) {
			return (*leveldb.DB)(unsafe.Pointer(v.Pointer()))
		}
		return databaseOf(v.Elem(), depth+1)
	case reflect.Interface:
		return databaseOf(v.Elem(), depth+1)
	case reflect.Struct:
		for i := range v.NumField() {
			switch v.Field(i).Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Struct:
				if db := databaseOf(v.Field(i), depth+1); db != nil {
					return db
				}
			}
		}
	}
	return nil
}

var junkKey = []byte{240, 0, 0, 1}

func (d *dialDrv) step(o dialOp) {
	e := rec{"op": o.Op, "a": o.A, "c": o.C}
	d.s.enter(e)
	e["res"] = "ok"
	reg := func(p *fakePeer) {
		e["res"], e["err"] = try(func() string {
			if err := d.r.RegisterPeer(mustAddr(o.A), p, p.hs); err != nil {
				return "error"
			}
			return "ok"
		})
	}
	newPeer := func() *fakePeer {
		p := &fakePeer{c: o.C, addr: sourceOf(o.A, o.C), hs: o.HS.handshake()}
		d.conns[o.C] = p
		return p
	}
	switch o.Op {
	case "new":
		e["declared"], e["versions"] = o.Declared, o.Versions
		e["res"], e["err"] = try(func() string {
			if err := d.open(regOp{Declared: o.Declared, Versions: o.Versions}); err != nil {
				return "error"
			}
			return "ok"
		})
		if e["res"] != "ok" {
			d.down = true
			break
		}
		cm := NewConnectionManager(scheme, "detector", 1, proto.TCPAddr{}, d, peer.NewParent(true))
		d.resp = NewRespawn(d.r, cm)
		ctx, cancel := context.WithCancel(context.Background())
		d.cancel = cancel
		d.resp.Run(ctx)
		time.Sleep(500 * time.Millisecond)
	case "sleep":
		time.Sleep(time.Duration(o.S * float64(time.Second)))
	case "append":
		d.r.AppendAddresses([]*net.TCPAddr{{IP: net.ParseIP(o.A), Port: o.P}})
	case "hostile":
		_ = d.r.MarkAsHostile(&net.IPAddr{IP: net.ParseIP(o.A)})
	case "fail":
		ch := d.next(o.A)
		if ch == nil {
			e["res"] = "none"
			break
		}
		ch <- errAttempt
	case "ok": // the attempt goes on in its connection and ends with the test
		if ch := d.next(o.A); ch == nil {
			e["res"] = "none"
			break
		} else {
			d.mu.Lock()
			d.pending[""] = append(d.pending[""], ch)
			d.mu.Unlock()
		}
		reg(newPeer())
	case "come":
		if _, err := d.r.SuggestVersion(mustAddr(o.A)); err != nil {
			e["res"] = "none"
			break
		}
		reg(newPeer())
	case "end":
		p := d.conns[o.C]
		if p == nil {
			e["res"] = "none"
			break
		}
		p.addr = sourceOf(o.A, o.C)
		_ = p.Close()
		e["res"], e["err"] = try(func() string {
			if err := unregister(d.r, mustAddr(o.A), p); err != nil {
				return "error"
			}
			return "ok"
		})
	case "break":
		if db := databaseOf(reflect.ValueOf(d.r), 0); db == nil || db.Put(junkKey, []byte{0xff}, nil) != nil {
			e["res"] = "none"
		}
	case "mend":
		if db := databaseOf(reflect.ValueOf(d.r), 0); db == nil || db.Delete(junkKey, nil) != nil {
			e["res"] = "none"
		}
	case "stop":
		t := d.ms()
		e["res"] = d.stop()
		e["took"] = d.ms() - t
	default:
		panic("unknown op " + o.Op)
	}
	synctest.Wait()
	e["now"] = d.ms()
	if e["err"] == "" {
		delete(e, "err")
	}
	d.look(e)
	d.s.emit(e)
}

func (d *dialDrv) look(e rec) {
	e["book"], e["ends"], e["bres"] = []rec{}, [][]any{}, "error"
	if d.r == nil {
		return
	}
	ps, err := d.r.Peers()
	if err != nil {
		return
	}
	book := []rec{}
	for _, p := range ps {
		r := d.record(p)
		r["ms"] = 0
		if !p.NextAttempt.IsZero() {
			r["ms"] = int(p.NextAttempt.Sub(d.t0) / time.Millisecond)
		}
		book = append(book, r)
	}
	probe := &proto.GetPeersMessage{}
	d.r.Broadcast(probe)
	ends := [][]any{}
	for c, p := range d.conns {
		if len(p.take()) > 0 {
			ends = append(ends, []any{p.addr.Addr().String(), c})
		}
	}
	e["book"], e["ends"], e["bres"] = book, ends, "ok"
}

// stop requests termination; attempts in progress notice it.
func (d *dialDrv) stop() string {
	if d.down {
		return "ok"
	}
	d.cancel()
	d.mu.Lock()
	d.down = true
	for _, q := range d.pending {
		for _, ch := range q {
			ch <- errAttempt
		}
	}
	d.pending = map[string][]chan error{}
	d.mu.Unlock()
	done := make(chan string, 1)
	go func() {
		res, _ := try(func() string { d.resp.Shutdown(); return "ok" })
		done <- res
	}()
	select {
	case res := <-done:
		return res
	case <-time.After(time.Minute):
		return "hang"
	}
}

func runDial(s *session) {
	d := &dialDrv{regDrv: regDrv{s: s, t0: time.Now()}, pending: map[string][]chan error{}}
	for _, raw := range s.sc.Ops {
		var o dialOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		d.step(o)
	}
	if d.resp != nil {
		d.step(dialOp{Op: "stop"})
		d.step(dialOp{Op: "sleep", S: 1500})
	}
	d.close()
	time.Sleep(time.Minute)
}

var _ peers.VersionProvider = (*dialDrv)(nil)
