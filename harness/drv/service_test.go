package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/api"
	"github.com/alexeykiselev/waves-fork-detector/chains"
)

// The services with sockets of their own, listener and API, on the loopback network in real time.

func init() { modes["service"] = runService }

type serveOp struct {
	Op string `json:"op"`
	K  string `json:"k"`
	MS int    `json:"ms"`
}

type servePar struct {
	Kind  string `json:"kind"` // "listener", "api"
	Taken bool   `json:"taken"`
}

type serveDrv struct {
	regDrv
	par    servePar
	addr   string
	svc    Service
	cancel context.CancelFunc
	conns2 []net.Conn
	mu     sync.Mutex
	ret    string
	done   chan struct{}
}

func handshakeBytes() []byte {
	h := proto.Handshake{AppName: "wavesT", Version: proto.NewVersion(1, 5, 0), NodeName: "x", NodeNonce: 77, Timestamp: 1,
		DeclaredAddr: proto.HandshakeTCPAddr{}}
	var b bytes.Buffer
	if _, err := h.WriteTo(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// probe tells whether somebody serves at the address.
func (d *serveDrv) probe() string {
	c, err := net.DialTimeout("tcp", d.addr, 2*time.Second)
	if err != nil {
		return "refused"
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(2 * time.Second))
	if d.par.Kind == "api" {
		fmt.Fprintf(c, "GET /api/peers/all HTTP/1.0\r\n\r\n")
	} else if _, err = c.Write(handshakeBytes()); err != nil {
		return "silent"
	}
	b := make([]byte, 4)
	if _, err = io.ReadFull(c, b); err != nil {
		return "silent"
	}
	return "served"
}

func (d *serveDrv) step(o serveOp) {
	e := rec{"op": o.Op, "k": o.K, "res": "ok", "probe": "", "ret": ""}
	d.s.enter(e)
	switch o.Op {
	case "run":
		ctx, cancel := context.WithCancel(context.Background())
		d.cancel = cancel
		d.svc.Run(ctx)
	case "served": // wait for the service
		for range 100 {
			if e["probe"] = d.probe(); e["probe"] == "served" {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
	case "gone": // wait for its end
		for range 100 {
			if e["probe"] = d.probe(); e["probe"] == "refused" {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
	case "open":
		c, err := net.DialTimeout("tcp", d.addr, 2*time.Second)
		if err != nil {
			e["probe"] = "refused"
			break
		}
		d.conns2 = append(d.conns2, c)
		switch o.K {
		case "half":
			_, _ = c.Write(handshakeBytes()[:5])
		case "shaken":
			_, _ = c.Write(handshakeBytes())
		case "garbage":
			_, _ = c.Write(bytes.Repeat([]byte{0xff}, 300))
		case "http":
			fmt.Fprintf(c, "GET /api/status HTTP/1.1\r\nHost: x\r\n\r\n")
		case "halfhttp":
			fmt.Fprintf(c, "GET /api/status HTTP/1.1\r\nHo")
		}
	case "sleep":
		time.Sleep(time.Duration(o.MS) * time.Millisecond)
	case "cancel":
		d.cancel()
	case "stop":
		go func() {
			res, det := try(func() string { d.svc.Shutdown(); return "ok" })
			d.mu.Lock()
			d.ret = res + det
			d.mu.Unlock()
			close(d.done)
		}()
		select {
		case <-d.done:
		case <-time.After(15 * time.Second):
			e["ret"] = "hang"
		}
	}
	d.mu.Lock()
	if d.ret != "" {
		e["ret"] = d.ret
	}
	d.mu.Unlock()
	d.s.emit(e)
}

var (
	portMu   sync.Mutex
	nextPort = 21000 + os.Getpid()%7000 // below those the system gives to outgoing connections
)

func freePort() (net.Listener, int) {
	portMu.Lock()
	defer portMu.Unlock()
	for range 3000 {
		if nextPort++; nextPort >= 30000 {
			nextPort = 21000
		}
		if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", nextPort)); err == nil {
			return l, nextPort
		}
	}
	panic("no free port")
}

func runService(_ *testing.T, s *session) {
	d := &serveDrv{done: make(chan struct{})}
	d.s, d.t0 = s, time.Now()
	if err := json.Unmarshal(s.sc.Par, &d.par); err != nil {
		panic(err)
	}
	if err := d.open(regOp{Declared: "127.0.0.9", Versions: [][]uint32{{1, 5, 0}}}); err != nil {
		panic(err)
	}
	defer d.r.Close()
	l, port := freePort()
	d.addr = netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), uint16(port)).String()
	if !d.par.Taken {
		l.Close()
	} else {
		defer l.Close()
	}
	if d.par.Kind == "api" {
		ch := &chainsDrv{s: s, nm: newNames(s.sc.ID)}
		ch.genesis = *ch.mkBlock(chainOp{Op: "new", BT: "100", TS: "1000", Gen: 1})
		lk, err := chains.NewLinkage(s.dir, scheme, ch.genesis)
		if err != nil {
			panic(err)
		}
		defer lk.Close()
		a, err := api.NewAPI(d.r, lk, d.addr)
		if err != nil {
			panic(err)
		}
		d.svc = a
	} else {
		parent := peer.NewParent(true)
		cm := NewConnectionManager(scheme, "d", 1, proto.NewTCPAddrFromString("127.0.0.9:1"), d.r, parent)
		d.svc = NewListener(proto.NewTCPAddrFromString(d.addr), proto.NewTCPAddrFromString("127.0.0.9:1"), cm)
	}
	s.emit(rec{"op": "new", "k": d.par.Kind, "taken": d.par.Taken, "res": "ok", "probe": "", "ret": ""})
	for _, raw := range s.sc.Ops {
		var o serveOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		d.step(o)
	}
	for _, c := range d.conns2 {
		c.Close()
	}
	if d.cancel != nil {
		d.cancel()
	}
}
