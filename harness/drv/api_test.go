package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/api"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// The HTTP API over real stores, on the loopback network in real time.

func init() { modes["api"] = runAPI }

type getOp struct {
	What string   `json:"what"`
	A    string   `json:"a"`   // the address in its usual form
	Raw  string   `json:"raw"` // as it is written in the request
	N    int      `json:"n"`
	RawN string   `json:"rawn"`
	Req  []string `json:"req"`
	RawQ string   `json:"rawq"`
	Bad  bool     `json:"bad"`  // not an address
	BadN bool     `json:"badn"` // not a count
	Lax  bool     `json:"lax"`
	Gzip bool     `json:"gzip"`
}

type apiOp struct {
	Op    string            `json:"op"`
	Gets  []getOp           `json:"gets"`
	Ops   []json.RawMessage `json:"ops"`
	Ranks [][]any           `json:"ranks"`
}

type apiDrv struct {
	s    *session
	ch   *chainsDrv
	rg   *regDrv
	base string
	cl   *http.Client
	stop func()
}

func (d *apiDrv) serve() {
	var a *api.API
	var addr string
	for range 20 {
		l, port := freePort()
		l.Close()
		addr = netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), uint16(port)).String()
		var err error
		if a, err = api.NewAPI(d.rg.r, d.ch.l, addr); err != nil {
			panic(err)
		}
		break
	}
	ctx, cancel := context.WithCancel(context.Background())
	a.Run(ctx)
	for range 200 {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	d.base = "http://" + addr + "/api"
	tr := &http.Transport{MaxIdleConnsPerHost: 16}
	d.cl = &http.Client{Transport: tr, Timeout: 20 * time.Second}
	d.stop = func() { tr.CloseIdleConnections(); a.Shutdown(); cancel() }
}

func (o getOp) path() string {
	raw := o.Raw
	if raw == "" {
		raw = url.PathEscape(o.A)
	}
	n := o.RawN
	if n == "" {
		n = strconv.Itoa(o.N)
	}
	switch o.What {
	case "all", "friendly":
		return "/peers/" + o.What
	case "connections", "heads", "leashes", "status":
		return "/" + o.What
	case "forks", "active":
		p := map[string]string{"forks": "/forks", "active": "/active-forks"}[o.What]
		if o.RawQ != "" {
			return p + o.RawQ
		}
		if len(o.Req) > 0 {
			p += "?peers=" + url.QueryEscape(strings.Join(o.Req, ","))
		}
		return p
	case "fork":
		return "/fork/" + raw
	case "gens":
		return "/fork/" + raw + "/generators/" + n
	}
	return o.Raw
}

// fields of an answer

func fStr(m map[string]any, k string) string {
	if s, ok := m[k].(string); ok {
		return s
	}
	return fmt.Sprintf("?%v", m[k])
}

func fInt(m map[string]any, k string) int {
	if n, ok := m[k].(json.Number); ok {
		if x, err := strconv.Atoi(n.String()); err == nil && x > -2147483647 && x < 2147483647 {
			return x
		}
	}
	return -99
}

func fBool(m map[string]any, k string) any {
	if b, ok := m[k].(bool); ok {
		return b
	}
	return "?"
}

func fBig(m map[string]any, k string) []int {
	if n, ok := m[k].(json.Number); ok {
		if x, ok2 := new(big.Int).SetString(n.String(), 10); ok2 {
			return limbs(x)
		}
	}
	return []int{-1}
}

func fTime(m map[string]any, k string) (time.Time, bool) {
	t, err := time.Parse(time.RFC3339Nano, fStr(m, k))
	return t, err == nil
}

func fTS(m map[string]any, k string) string {
	if t, ok := fTime(m, k); ok {
		return fmt.Sprint(t.UnixMilli())
	}
	return "?" + fStr(m, k)
}

func fPeers(m map[string]any, k string) []string {
	r := []string{}
	l, ok := m[k].([]any)
	if !ok {
		return []string{"?"}
	}
	for _, x := range l {
		r = append(r, fmt.Sprint(x))
	}
	return r
}

func (d *apiDrv) fID(m map[string]any, k string) int {
	id, err := proto.NewBlockIDFromBase58(fStr(m, k))
	if err != nil {
		return -9
	}
	return d.ch.nm.of(id)
}

func fGen(m map[string]any, k string) int {
	a, err := proto.NewAddressFromString(fStr(m, k))
	if err != nil {
		return -9
	}
	return genOf(a)
}

func (d *apiDrv) peerRec(m map[string]any) rec {
	r := rec{"a": "?", "port": -9, "nonce": "?", "name": fStr(m, "name"), "ver": []int{}, "state": "?", "next": -9, "score": "?"}
	if ap, err := netip.ParseAddrPort(fStr(m, "address")); err == nil {
		r["a"], r["port"] = ap.Addr().String(), int(ap.Port())
	}
	if n, ok := m["nonce"].(json.Number); ok {
		r["nonce"] = n.String()
	}
	if v, err := proto.NewVersionFromString(fStr(m, "version")); err == nil {
		r["ver"] = verTriple(v)
	}
	if st := fInt(m, "state"); st >= 0 && st <= 2 {
		r["state"] = []string{"unknown", "connected", "hostile"}[st]
	} else {
		r["state"] = strings.ToLower(fStr(m, "state"))
	}
	if t, ok := fTime(m, "next_attempt"); ok {
		r["next"] = d.rg.at(t)
	}
	switch x := m["score"].(type) {
	case nil:
		r["score"] = ""
	case json.Number:
		r["score"] = x.String()
	}
	return r
}

func (d *apiDrv) forkRec(m map[string]any) rec {
	return rec{"longest": fBool(m, "longest"), "head": d.fID(m, "head_block"), "ts": fTS(m, "head_timestamp"),
		"gen": fGen(m, "head_generator"), "h": fInt(m, "head_height"), "score": fBig(m, "score"), "cnt": fInt(m, "peers_count"),
		"peers": fPeers(m, "peers"), "lcb": d.fID(m, "last_common_block"), "len": fInt(m, "length")}
}

// get issues one request and translates the answer.
func (d *apiDrv) get(o getOp) rec {
	req := o.Req
	if req == nil {
		req = []string{}
	}
	e := rec{"op": "get", "what": o.What, "a": o.A, "n": max(min(o.N, 1000000000), -1000000000), "req": req, "bad": o.Bad, "badn": o.BadN,
		"lax": o.Lax, "status": 0, "json": "no", "body": []rec{}, "gens": [][]int{}, "path": o.path()}
	rq, err := http.NewRequest(http.MethodGet, d.base+o.path(), nil)
	if err != nil {
		panic(err)
	}
	rs, err := d.cl.Do(rq)
	if err != nil {
		e["err"] = err.Error()
		return e
	}
	defer rs.Body.Close()
	data, err := io.ReadAll(rs.Body)
	if err != nil {
		e["err"] = err.Error()
		return e
	}
	e["status"] = rs.StatusCode
	if rs.StatusCode != http.StatusOK {
		e["err"] = string(data)
		return e
	}
	dec := json.NewDecoder(strings.NewReader(string(data)))
	dec.UseNumber()
	var v any
	if err = dec.Decode(&v); err != nil || dec.More() {
		e["err"] = fmt.Sprintf("not JSON (%v): %.200s", err, data)
		return e
	}
	list, ok := v.([]any)
	if !ok {
		list = []any{v}
	}
	e["json"] = map[bool]string{true: "list", false: "object"}[ok]
	if v == nil {
		e["json"] = "null"
		return e
	}
	body := []rec{}
	gens := [][]int{}
	for _, x := range list {
		m, isObj := x.(map[string]any)
		if !isObj {
			e["json"] = "odd"
			return e
		}
		switch o.What {
		case "all", "friendly", "connections":
			body = append(body, d.peerRec(m))
		case "heads":
			body = append(body, rec{"n": fInt(m, "number"), "id": d.fID(m, "id"), "h": fInt(m, "height"), "score": fBig(m, "score"),
				"ts": fTS(m, "timestamp")})
		case "leashes":
			body = append(body, rec{"id": d.fID(m, "block_id"), "h": fInt(m, "height"), "score": fBig(m, "score"), "ts": fTS(m, "timestamp"),
				"gen": fGen(m, "generator"), "cnt": fInt(m, "peers_count"), "peers": fPeers(m, "peers")})
		case "status":
			body = append(body, rec{"short": fInt(m, "short_forks_count"), "long": fInt(m, "long_forks_count"), "all": fInt(m, "all_peers_count"),
				"friendly": fInt(m, "friendly_peers_count"), "connected": fInt(m, "connected_peers_count"),
				"version": fStr(m, "version"), "goroutines": fInt(m, "goroutines_count")})
		case "forks", "active", "fork":
			body = append(body, d.forkRec(m))
		case "gens":
			gens = append(gens, []int{fGen(m, "generator"), fInt(m, "blocks")})
		}
	}
	e["body"], e["gens"] = body, gens
	return e
}

func (d *apiDrv) chain(raw json.RawMessage) bool {
	var o chainOp
	if err := json.Unmarshal(raw, &o); err != nil {
		panic(err)
	}
	switch o.Op {
	case "put", "micro", "move", "obs":
		d.ch.step(o)
		return true
	}
	return false
}

func (d *apiDrv) step(raw json.RawMessage) {
	if d.chain(raw) {
		return
	}
	var o apiOp
	if err := json.Unmarshal(raw, &o); err != nil {
		panic(err)
	}
	switch o.Op {
	case "new":
		var c chainOp
		_ = json.Unmarshal(raw, &c)
		if err := d.rg.open(regOp{Declared: "10.77.0.1", Versions: [][]uint32{{1, 5, 0}, {1, 4, 0}}}); err != nil {
			panic(err)
		}
		d.ch.step(c)
		d.s.events[len(d.s.events)-1]["ranks"] = o.Ranks
		d.serve()
	case "reopen":
		d.stop()
		d.rg.close2()
		d.ch.l.Close()
		e := rec{"op": "reopen", "res": "ok"}
		d.s.enter(e)
		e["res"], e["err"] = try(func() string {
			if err := d.ch.reopen(); err != nil {
				return "error"
			}
			if err := d.rg.open(d.rg.cfg); err != nil {
				return "error"
			}
			return "ok"
		})
		if e["res"] == "ok" {
			look(d.rg, d.rg.r, e)
			d.serve()
		}
		d.s.emit(e)
		if e["res"] != "ok" {
			d.s.mu.Lock()
			d.s.dead = true
			d.s.mu.Unlock()
		}
	case "gets":
		d.s.enter(rec{"op": "get", "what": "hang"})
		for _, g := range o.Gets {
			d.s.emit(d.get(g))
		}
	case "burst": // the same requests all at once
		d.s.enter(rec{"op": "get", "what": "hang"})
		out := make([]rec, len(o.Gets))
		var wg sync.WaitGroup
		for i, g := range o.Gets {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out[i] = d.get(g)
			}()
		}
		wg.Wait()
		for _, e := range out {
			d.s.emit(e)
		}
	case "storm": // requests while the stores change
		e := rec{"op": "storm", "res": "ok"}
		d.s.enter(e)
		done := make(chan struct{})
		var mu sync.Mutex
		statuses := map[int]string{}
		var wg sync.WaitGroup
		for w := range 4 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := w; ; i++ {
					select {
					case <-done:
						return
					default:
					}
					r := d.get(o.Gets[i%len(o.Gets)])
					mu.Lock()
					statuses[r["status"].(int)] = fmt.Sprint(r["path"], " ", r["err"])
					mu.Unlock()
				}
			}()
		}
		for _, x := range o.Ops {
			d.step(x)
		}
		close(done)
		wg.Wait()
		ss := []int{}
		for k, v := range statuses {
			ss = append(ss, k)
			if k != 200 && k != 404 && k != 400 {
				e["err"] = v
			}
		}
		e["statuses"] = ss
		d.s.emit(e)
	default:
		var r regOp
		if err := json.Unmarshal(raw, &r); err != nil {
			panic(err)
		}
		if r.Op == "register" { // negotiated before
			d.rg.step(regOp{Op: "suggest", A: r.A})
			if p, err := d.rg.r.Peer(mustAddr(r.A)); err == nil && r.HS.App == "wavesT" {
				r.HS.Ver = []uint32{p.Version.Major(), p.Version.Minor(), r.HS.Ver[2]}
			}
		}
		d.rg.step(r)
	}
}

func runAPI(_ *testing.T, s *session) {
	d := &apiDrv{s: s, ch: &chainsDrv{s: s}, rg: &regDrv{s: s, t0: time.Now()}}
	defer func() {
		if d.stop != nil {
			d.stop()
		}
		if d.rg.r != nil {
			d.rg.close2()
		}
		if d.ch.l != nil {
			d.ch.l.Close()
		}
	}()
	for _, raw := range s.sc.Ops {
		if s.dead {
			return
		}
		d.step(raw)
	}
}
