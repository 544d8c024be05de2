package main

import (
	"encoding/json"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// Concurrent histories of the peer registry.

func init() { modes["regconc"] = runRegConc }

type regConcPar struct {
	Declared string     `json:"declared"`
	Versions [][]uint32 `json:"versions"`
	Setup    []regOp    `json:"setup"`
	Threads  [][]regOp  `json:"threads"`
}

func brief(p peers.Peer) []any {
	return []any{p.AddressPort.Addr().String(), int(p.AddressPort.Port()), strconv.FormatUint(p.Nonce, 10), p.Name, verTriple(p.Version),
		stateNames[p.State], scoreText(p.Score), p.NextAttempt.After(time.Now().Add(5 * time.Second))}
}

func briefs(ps []peers.Peer) [][]any {
	r := [][]any{}
	for _, p := range ps {
		r = append(r, brief(p))
	}
	return r
}

func runRegConc(_ *testing.T, s *session) {
	var p regConcPar
	if err := json.Unmarshal(s.sc.Par, &p); err != nil {
		panic(err)
	}
	r, err := peers.NewRegistry(scheme, proto.NewTCPAddrFromString(p.Declared+":6868"), versionsOf(p.Versions), s.dir)
	if err != nil {
		panic(err)
	}
	defer r.Close()
	conns := map[int]*fakePeer{}
	for _, t := range append(p.Threads, p.Setup) {
		for _, o := range t {
			if o.Op == "register" {
				conns[o.C] = &fakePeer{c: o.C, addr: sourceOf(o.A, o.C), hs: o.HS.handshake()}
			}
		}
	}
	var seq atomic.Int64
	calls := func(ops []regOp) []rec {
		out := []rec{}
		for _, o := range ops {
			e := rec{"op": o.Op, "a": o.A, "c": o.C}
			ok := func(err error) string {
				if err != nil {
					return "error"
				}
				return "ok"
			}
			a := mustAddr("0.0.0.0")
			if o.A != "" {
				a = mustAddr(o.A)
			}
			var f func() error
			switch o.Op {
			case "take":
				f = func() error {
					x, err := r.TakeAvailableAddresses()
					g := [][]any{}
					for _, ap := range x {
						g = append(g, []any{ap.Addr().String(), int(ap.Port())})
					}
					e["got"] = g
					return err
				}
			case "suggest":
				f = func() error {
					v, err := r.SuggestVersion(a)
					e["ver"] = verTriple(v)
					return err
				}
			case "append":
				as := []*net.TCPAddr{}
				for _, x := range o.L {
					as = append(as, &net.TCPAddr{IP: net.ParseIP(x[0].(string)), Port: int(x[1].(float64))})
				}
				e["l"] = o.L
				f = func() error { e["cnt"] = r.AppendAddresses(as); return nil }
			case "register":
				pr := conns[o.C]
				e["hs"] = rec{"ver": verTriple(o.HS.handshake().Version), "app": o.HS.App, "name": o.HS.Name,
					"nonce": o.HS.Nonce, "daddr": o.HS.DAddr, "dport": o.HS.DPort, "net": o.HS.App[len(o.HS.App)-1] == scheme}
				f = func() error { return r.RegisterPeer(a, pr, pr.hs) }
			case "unregister":
				f = func() error { return unregister(r, a, conns[o.C]) }
			case "score":
				var n string
				_ = json.Unmarshal(o.S, &n)
				e["s"] = n
				f = func() error { return r.UpdatePeerScore(a, mustBig(n)) }
			case "hostile":
				f = func() error { return r.MarkAsHostile(&net.IPAddr{IP: net.ParseIP(o.A)}) }
			case "peers":
				f = func() error { x, err := r.Peers(); e["peers"] = briefs(x); return err }
			case "friendly":
				f = func() error { x, err := r.FriendlyPeers(); e["peers"] = briefs(x); return err }
			case "connections":
				f = func() error { x, err := r.Connections(); e["peers"] = briefs(x); return err }
			case "broadcast":
				f = func() error { r.Broadcast(&proto.GetPeersMessage{}); return nil }
			default:
				panic(o.Op)
			}
			e["inv"] = int(seq.Add(1))
			e["res"], _ = try(func() string { return ok(f()) })
			e["ret"] = int(seq.Add(1))
			out = append(out, e)
		}
		return out
	}
	ops := calls(p.Setup)
	var wg sync.WaitGroup
	start := make(chan struct{})
	res := make([][]rec, len(p.Threads))
	s.enter(rec{"op": "hist", "declared": p.Declared, "versions": p.Versions, "ops": []rec{}})
	for i, t := range p.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res[i] = calls(t)
		}()
	}
	close(start)
	wg.Wait()
	for _, x := range res {
		ops = append(ops, x...)
	}
	s.emit(rec{"op": "hist", "declared": p.Declared, "versions": p.Versions, "ops": ops, "res": "ok"})
}
