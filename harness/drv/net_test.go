package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"
)

// The program itself within a network of simulated nodes, in real time, in a network namespace of its own.

func init() { modes["net"] = runNet }

type netPar struct {
	Salt     string            `json:"salt"`
	Program  string            `json:"program"`
	Bind     string            `json:"bind"`
	Net      string            `json:"net"` // where it can be reached
	API      string            `json:"api"`
	Declared string            `json:"declared"`
	Versions string            `json:"versions"`
	Name     string            `json:"name"`
	Seeds    []string          `json:"seeds"`
	Tree     map[int]treeBlock `json:"tree"`
	Nodes    []simPar          `json:"nodes"`
	Ranks    [][]any           `json:"ranks"`
}

type simPar struct {
	A      string   `json:"a"`
	Port   int      `json:"port"`
	Listen bool     `json:"listen"` // can be dialled
	Call   bool     `json:"call"`   // dials
	Kind   string   `json:"kind"`   // "good", "quiet": has no history, "mute": says nothing at all, "foreign", "other": of another version
	Tells  [][]any  `json:"tells"`  // addresses it knows
	Junk   [][]any  `json:"junk"`   // and those nobody can use
	Eager  bool     `json:"eager"`  // tells them without being asked
	Name   string   `json:"name"`
	Nonce  uint64   `json:"nonce"`
	Ver    []uint32 `json:"ver"`
	Chain  []int    `json:"chain"` // without the genesis block
	Lag    int      `json:"lag"`   // ms before an answer
}

type netOp struct {
	Op    string   `json:"op"`
	A     string   `json:"a"`
	Chain []int    `json:"chain"`
	K     string   `json:"k"`
	Want  []string `json:"want"`
	MS    int      `json:"ms"`
	Gets  []getOp  `json:"gets"`
}

// simNode is a node of the simulated network.
type simNode struct {
	simPar
	d     *netDrv
	mu    sync.Mutex
	conns map[net.Conn]bool // with the handshake done
	all   map[net.Conn]bool
	ln    net.Listener
	gone  bool
}

type netDrv struct {
	detDrv
	np    netPar
	api   *apiDrv
	mu    sync.Mutex
	data  map[proto.BlockID][]byte // framed
	nodes []*simNode
	cmd   *exec.Cmd
	over  chan struct{}
	log   *os.File
	wg    sync.WaitGroup
	dead  bool // the program ended by itself
	lost  bool // it did not come to what was expected
}

func (d *netDrv) emit(e rec) { d.s.emit(e) }

// mint makes the blocks of a chain known to the network.
func (d *netDrv) mint(chain []int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, b := range chain {
		if _, ok := d.data[d.ch.nm.id2(b)]; ok {
			continue
		}
		blk := d.block(b)
		_, data := d.blockBytes(b, "")
		kind := byte(29)
		if blk.Version < 5 {
			kind = 0x17
		}
		t := d.par.Tree[b]
		d.data[blk.BlockID()] = frame(kind, data)
		d.emit(rec{"op": "mint", "b": b, "p": t.P, "bt": limbs(mustBig(t.BT)), "ts": t.TS, "tsl": limbs(mustBig(t.TS)), "gen": t.Gen})
	}
}

func (n *names) id2(name int) proto.BlockID {
	id, _ := n.has(name)
	return id
}

// score of the chain, as Waves nodes count it.
func (d *netDrv) score(chain []int) *big.Int {
	one := func(bt uint64) *big.Int {
		x := new(big.Int).Lsh(big.NewInt(1), 64)
		return x.Div(x, new(big.Int).SetUint64(bt))
	}
	s := one(d.ch.genesis.BaseTarget)
	for _, b := range chain {
		s.Add(s, one(mustBig(d.par.Tree[b].BT).Uint64()))
	}
	return s
}

// ---- nodes ----

func (n *simNode) old() bool { return n.Ver[1] < 2 }

func (n *simNode) shake(c net.Conn, rd *bufio.Reader, first bool) bool {
	h := proto.Handshake{AppName: "wavesT", Version: proto.NewVersion(n.Ver[0], n.Ver[1], n.Ver[2]), NodeName: n.Name, NodeNonce: n.Nonce,
		Timestamp: uint64(time.Now().Unix())}
	if n.Kind == "foreign" {
		h.AppName = "wavesW"
	}
	if n.Listen {
		h.DeclaredAddr = proto.NewHandshakeTCPAddr(net.ParseIP(n.A), n.Port)
	}
	send := func() bool {
		_, err := h.WriteTo(c)
		return err == nil
	}
	if first && !send() {
		return false
	}
	r := proto.Handshake{}
	if _, err := r.ReadFrom(rd); err != nil {
		return false
	}
	da := ""
	if !r.DeclaredAddr.Empty() {
		da = r.DeclaredAddr.String()
	}
	n.d.emit(rec{"op": "hello", "a": n.A, "app": r.AppName, "name": r.NodeName, "ver": verTriple(r.Version), "daddr": da})
	if !first {
		n.d.emit(rec{"op": "up", "a": n.A})
		return send()
	}
	n.d.emit(rec{"op": "up", "a": n.A})
	return true
}

func (n *simNode) send(c net.Conn, b []byte) {
	n.mu.Lock()
	defer n.mu.Unlock()
	_ = c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, _ = c.Write(b)
}

func (n *simNode) broadcast(b []byte) {
	n.mu.Lock()
	cs := make([]net.Conn, 0, len(n.conns))
	for c := range n.conns {
		cs = append(cs, c)
	}
	n.mu.Unlock()
	for _, c := range cs {
		n.send(c, b)
	}
}

func (n *simNode) tell(c net.Conn) {
	l := append(append([][]any{}, n.Tells...), n.Junk...)
	told := [][]any{}
	p := binary.BigEndian.AppendUint32(nil, uint32(len(l)))
	for i, x := range l {
		port := int(x[1].(float64))
		b := make([]byte, 8)
		copy(b, net.ParseIP(x[0].(string)).To4())
		binary.BigEndian.PutUint32(b[4:], uint32(port))
		p = append(p, b...)
		if i < len(n.Tells) {
			told = append(told, []any{x[0], port})
		}
	}
	n.d.emit(rec{"op": "tell", "a": n.A, "l": told})
	n.send(c, frame(2, p))
}

func (n *simNode) chain() []int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]int{}, n.Chain...)
}

func (n *simNode) scoreFrame() ([]byte, string) {
	s := n.d.score(n.chain())
	return frame(0x18, s.Bytes()), s.String()
}

func (n *simNode) announce(c net.Conn) {
	f, s := n.scoreFrame()
	n.d.emit(rec{"op": "score", "a": n.A, "s": s})
	if c != nil {
		n.send(c, f)
	} else {
		n.broadcast(f)
	}
}

func (n *simNode) handle(c net.Conn) {
	d := n.d
	first := c.RemoteAddr().String() == d.np.Net
	rd := bufio.NewReaderSize(c, 1<<16)
	n.mu.Lock()
	n.all[c] = true
	n.mu.Unlock()
	defer func() {
		c.Close()
		n.mu.Lock()
		was := n.conns[c]
		delete(n.conns, c)
		delete(n.all, c)
		n.mu.Unlock()
		if was {
			d.emit(rec{"op": "down", "a": n.A})
		}
	}()
	if n.Kind == "mute" {
		_, _ = io.Copy(io.Discard, rd)
		return
	}
	if !n.shake(c, rd, first) {
		return
	}
	n.mu.Lock()
	n.conns[c] = true
	n.mu.Unlock()
	if n.Kind == "good" {
		n.announce(c)
	}
	if n.Eager {
		n.tell(c)
	}
	for {
		hd := make([]byte, 4)
		if _, err := io.ReadFull(rd, hd); err != nil {
			return
		}
		m := make([]byte, binary.BigEndian.Uint32(hd))
		if len(m) > 1<<20 {
			d.emit(rec{"op": "garbage", "a": n.A, "err": fmt.Sprintf("a message of %d bytes", len(m))})
			return
		}
		if _, err := io.ReadFull(rd, m); err != nil {
			return
		}
		msg, err := proto.UnmarshalMessage(append(hd, m...))
		if err != nil {
			d.emit(rec{"op": "garbage", "a": n.A, "err": err.Error()})
			return
		}
		n.answer(c, msg)
	}
}

func (n *simNode) answer(c net.Conn, msg proto.Message) {
	d := n.d
	names := func(ids []proto.BlockID) []int {
		r := []int{}
		for _, x := range ids {
			r = append(r, d.ch.nm.of(x))
		}
		return r
	}
	switch v := msg.(type) {
	case *proto.GetPeersMessage:
		d.emit(rec{"op": "ask", "a": n.A})
		n.tell(c)
	case *proto.PeersMessage:
		l := [][]any{}
		for _, p := range v.Peers {
			l = append(l, []any{p.Addr.String(), int(p.Port)})
		}
		d.emit(rec{"op": "heard", "a": n.A, "l": l})
	case *proto.GetBlockIdsMessage:
		n.list(c, v.Blocks, names(v.Blocks), false)
	case *proto.GetSignaturesMessage:
		ids := []proto.BlockID{}
		for _, s := range v.Signatures {
			ids = append(ids, proto.NewBlockIDFromSignature(s))
		}
		n.list(c, ids, names(ids), true)
	case *proto.GetBlockMessage:
		b := d.ch.nm.of(v.BlockID)
		d.emit(rec{"op": "want", "a": n.A, "b": b})
		d.mu.Lock()
		data, ok := d.data[v.BlockID]
		d.mu.Unlock()
		if !ok || n.Kind != "good" {
			return
		}
		time.Sleep(time.Duration(n.Lag) * time.Millisecond)
		d.emit(rec{"op": "give", "a": n.A, "b": b})
		n.send(c, data)
	default:
		d.emit(rec{"op": "garbage", "a": n.A, "err": fmt.Sprintf("%T", msg)})
	}
}

// list answers with what follows the highest of the blocks that is in the node's chain.
func (n *simNode) list(c net.Conn, ids []proto.BlockID, nm []int, sigs bool) {
	d := n.d
	d.emit(rec{"op": "from", "a": n.A, "l": nm, "k": map[bool]string{true: "sigs", false: "ids"}[sigs]})
	if n.Kind != "good" {
		return
	}
	chain := append([]int{0}, n.chain()...)
	at := map[int]int{}
	for i, b := range chain {
		at[b] = i
	}
	i := -1
	for _, b := range nm {
		if j, ok := at[b]; ok {
			i = j
			break
		}
	}
	if i < 0 {
		return
	}
	l := chain[i:min(len(chain), i+101)]
	p := binary.BigEndian.AppendUint32(nil, uint32(len(l)))
	for _, b := range l {
		id := d.ch.nm.id2(b)
		if !sigs {
			p = append(p, byte(len(id.Bytes())))
		}
		p = append(p, id.Bytes()...)
	}
	time.Sleep(time.Duration(n.Lag) * time.Millisecond)
	d.emit(rec{"op": "list", "a": n.A, "l": l})
	if sigs {
		n.send(c, frame(0x15, p))
	} else {
		n.send(c, frame(33, p))
	}
}

func (n *simNode) listen() {
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", n.A, n.Port))
	if err != nil {
		panic(err)
	}
	n.ln = l
	n.d.wg.Add(1)
	go func() {
		defer n.d.wg.Done()
		for {
			c, aErr := l.Accept()
			if aErr != nil {
				return
			}
			n.d.emit(rec{"op": "dialled", "a": n.A, "port": n.Port})
			go n.handle(c)
		}
	}()
}

func (n *simNode) call() {
	n.d.wg.Add(1)
	go func() {
		defer n.d.wg.Done()
		for {
			n.mu.Lock()
			gone := n.gone
			n.mu.Unlock()
			select {
			case <-n.d.over:
				return
			default:
			}
			if gone {
				return
			}
			dl := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(n.A)}, Timeout: 5 * time.Second}
			n.d.emit(rec{"op": "calls", "a": n.A})
			if c, err := dl.Dial("tcp", n.d.np.Net); err == nil {
				n.handle(c)
			}
			if n.Kind == "foreign" || n.Kind == "other" {
				return
			}
			time.Sleep(500 * time.Millisecond)
		}
	}()
}

// lose ends the node's connections; it does not come back.
func (n *simNode) lose() {
	n.mu.Lock()
	n.gone = true
	ln := n.ln
	cs := make([]net.Conn, 0, len(n.all))
	for c := range n.all {
		cs = append(cs, c)
	}
	n.mu.Unlock()
	if ln != nil {
		ln.Close()
	}
	for _, c := range cs {
		c.Close()
	}
}

// ---- the program ----

func (d *netDrv) run() {
	args := []string{"-db", d.s.dir, "-blockchain-type", "testnet", "-api", d.np.API, "-net", d.np.Bind, "-versions", d.np.Versions,
		"-name", d.np.Name, "-peers", strings.Join(d.np.Seeds, ",")}
	if d.np.Declared != "" {
		args = append(args, "-declared-address", d.np.Declared)
	}
	d.cmd = exec.Command(d.np.Program, args...)
	d.cmd.Stdout, d.cmd.Stderr = d.log, d.log
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	d.emit(rec{"op": "start"})
	if err := d.cmd.Start(); err != nil {
		panic(err)
	}
	for range 200 {
		if d.api.get(getOp{What: "status"})["status"] == 200 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func (d *netDrv) tail() string {
	b, _ := os.ReadFile(d.s.dir + "/log")
	if i := strings.Index(string(b), "\npanic: "); i >= 0 {
		b = b[i:min(len(b), i+1500)]
	}
	return string(b[max(0, len(b)-1500):])
}

func (d *netDrv) end(sig os.Signal) {
	if d.cmd == nil {
		return
	}
	d.emit(rec{"op": "stop"})
	_ = d.cmd.Process.Signal(sig)
	done := make(chan error, 1)
	go func() { done <- d.cmd.Wait() }()
	e := rec{"op": "exit", "k": sig.String(), "ret": "ok"}
	select {
	case err := <-done:
		if err != nil {
			e["ret"] = err.Error()
		}
	case <-time.After(20 * time.Second):
		e["ret"] = "hang"
		_ = d.cmd.Process.Kill()
		<-done
	}
	if e["ret"] != "ok" && sig != syscall.SIGKILL {
		e["log"] = d.tail()
	}
	d.cmd = nil
	for range 500 { // its connections end with it
		open := 0
		for _, n := range d.nodes {
			n.mu.Lock()
			open += len(n.conns)
			n.mu.Unlock()
		}
		if open == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(50 * time.Millisecond)
	d.emit(e)
}

// settled tells if the API reports what is to be expected in the end.
func (d *netDrv) settled(want []string) bool {
	up := map[string]bool{}
	for _, p := range d.api.get(getOp{What: "connections"})["body"].([]rec) {
		up[p["a"].(string)] = true
	}
	at := map[string]int{}
	for _, x := range d.api.get(getOp{What: "leashes"})["body"].([]rec) {
		for _, a := range x["peers"].([]string) {
			at[a] = x["id"].(int)
		}
	}
	for _, a := range want {
		n := d.node(a)
		if n.gone {
			continue
		}
		if !up[a] {
			return false
		}
		if c := n.chain(); n.Kind == "good" && len(c) > 0 && at[a] != c[len(c)-1] {
			return false
		}
	}
	return true
}

func (d *netDrv) node(a string) *simNode {
	for _, n := range d.nodes {
		if n.A == a {
			return n
		}
	}
	panic("no node " + a)
}

func (d *netDrv) step(o netOp) {
	switch o.Op {
	case "start":
		d.run()
	case "kill":
		d.end(syscall.SIGKILL)
	case "term":
		d.end(syscall.SIGTERM)
	case "settle":
		t0 := time.Now()
		for !d.settled(o.Want) && time.Since(t0) < time.Duration(o.MS)*time.Millisecond {
			time.Sleep(300 * time.Millisecond)
			d.look()
			if d.cmd != nil && d.cmd.Process.Signal(syscall.Signal(0)) != nil {
				break
			}
		}
		if d.settled(o.Want) { // nothing is to come
			time.Sleep(1500 * time.Millisecond)
		} else {
			d.lost = true
		}
		d.emit(rec{"op": "settled", "s": int(time.Since(t0) / time.Second)})
	case "wait":
		time.Sleep(time.Duration(o.MS) * time.Millisecond)
		d.look()
	case "grow":
		n := d.node(o.A)
		d.mint(o.Chain)
		n.mu.Lock()
		n.Chain = o.Chain
		n.mu.Unlock()
		b := o.Chain[len(o.Chain)-1]
		d.emit(rec{"op": "grow", "a": o.A, "b": b, "k": o.K})
		if o.K == "push" {
			d.emit(rec{"op": "give", "a": n.A, "b": b})
			n.broadcast(d.data[d.ch.nm.id2(b)])
		}
		n.announce(nil)
	case "micro": // a new version of the head
		n := d.node(o.A)
		c := n.chain()
		b, r := o.Chain[0], c[len(c)-1]
		inv := &proto.MicroBlockInv{PublicKey: genKey(9), TotalBlockID: d.ch.nm.id(b), Reference: d.ch.nm.id(r)}
		data, err := inv.MarshalBinary()
		if err != nil {
			panic(err)
		}
		n.mu.Lock()
		n.Chain[len(c)-1] = b
		n.mu.Unlock()
		d.mu.Lock()
		d.par.Tree[b] = d.par.Tree[r]
		d.mu.Unlock()
		d.emit(rec{"op": "version", "a": o.A, "b": b, "r": r})
		n.broadcast(frame(0x1A, data))
		n.announce(nil)
	case "lose":
		d.emit(rec{"op": "lose", "a": o.A})
		d.node(o.A).lose()
		time.Sleep(time.Second)
	case "gets":
		for _, g := range o.Gets {
			d.emit(d.api.get(g))
		}
	case "crowd": // several want the list of addresses
		for _, n := range d.nodes {
			if n.Kind != "mute" && n.Kind != "foreign" && n.Kind != "other" {
				n.broadcast(frame(1, nil))
			}
		}
		time.Sleep(500 * time.Millisecond)
	default:
		panic("unknown op " + o.Op)
	}
}

// look samples the positions.
func (d *netDrv) look() {
	l := [][]any{}
	for _, x := range d.api.get(getOp{What: "leashes"})["body"].([]rec) {
		for _, a := range x["peers"].([]string) {
			l = append(l, []any{a, x["id"]})
		}
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	d.emit(rec{"op": "look", "l": l})
}

func runNet(_ *testing.T, s *session) {
	d := &netDrv{data: map[proto.BlockID][]byte{}, over: make(chan struct{})}
	d.s = s
	if err := json.Unmarshal(s.sc.Par, &d.np); err != nil {
		panic(err)
	}
	d.par.Tree = d.np.Tree
	d.ch = &chainsDrv{s: s, nm: newNames(d.np.Salt), genesis: settings.TestNetSettings.Genesis}
	gen := d.ch.genesis
	d.ch.nm.bind(0, gen.BlockID())
	ga, err := proto.NewAddressFromPublicKey(scheme, gen.GeneratorPublicKey)
	if err != nil {
		panic(err)
	}
	genMu.Lock()
	genAddr[ga] = 99
	genMu.Unlock()
	d.api = &apiDrv{s: s, ch: d.ch, rg: &regDrv{s: s, t0: time.Now()}, base: "http://" + d.np.API + "/api",
		cl: &http.Client{Timeout: 15 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}}
	if d.log, err = os.Create(s.dir + "/log"); err != nil {
		panic(err)
	}
	defer d.log.Close()
	nodes := []rec{}
	for _, p := range d.np.Nodes {
		n := &simNode{simPar: p, d: d, conns: map[net.Conn]bool{}, all: map[net.Conn]bool{}}
		d.nodes = append(d.nodes, n)
		tells := [][]any{}
		for _, x := range p.Tells {
			tells = append(tells, []any{x[0], int(x[1].(float64))})
		}
		nodes = append(nodes, rec{"a": p.A, "port": p.Port, "listen": p.Listen, "call": p.Call, "kind": p.Kind, "tells": tells, "name": p.Name,
			"nonce": fmt.Sprint(p.Nonce), "ver": []int{int(p.Ver[0]), int(p.Ver[1]), int(p.Ver[2])}})
	}
	seeds := [][]any{}
	for _, x := range d.np.Seeds {
		h, p, _ := strings.Cut(x, ":")
		var port int
		_, _ = fmt.Sscan(p, &port)
		seeds = append(seeds, []any{h, port})
	}
	d.emit(rec{"op": "new", "nodes": nodes, "seeds": seeds, "bt": limbs(new(big.Int).SetUint64(gen.BaseTarget)), "ts": fmt.Sprint(gen.Timestamp),
		"gen": 99, "ranks": d.np.Ranks, "name": d.np.Name, "declared": d.np.Declared, "versions": d.np.Versions, "res": "ok"})
	for _, n := range d.nodes {
		d.mint(n.Chain)
		if len(n.Chain) > 0 {
			d.emit(rec{"op": "grow", "a": n.A, "b": n.Chain[len(n.Chain)-1], "k": ""})
		}
	}
	for _, n := range d.nodes {
		if n.Listen {
			n.listen()
		}
	}
	calling, asked := false, false
	defer func() {
		close(d.over)
		if d.cmd != nil {
			_ = d.cmd.Process.Kill()
			_ = d.cmd.Wait()
		}
		for _, n := range d.nodes {
			n.lose()
		}
		d.wg.Wait()
	}()
	for _, raw := range s.sc.Ops {
		if s.dead {
			return
		}
		var o netOp
		if err = json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		if d.lost && asked && o.Op != "term" {
			continue // What was not reached by now is found missing in the answers, there is no need to wait again.
		}
		d.step(o)
		asked = o.Op == "gets"
		if o.Op == "start" && !calling {
			calling = true
			for _, n := range d.nodes {
				if n.Call {
					n.call()
				}
			}
		}
	}
}

