package main

// Verification driver: executes scripts of operations on the real code and records what it observes as ndjson
// traces, which TLC then validates against the specifications in /verif/spec. Nothing here decides a verdict.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"net/netip"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

const scheme = byte('T')

type rec = map[string]any

type job struct {
	Mode    string `json:"mode"`
	In      string `json:"in"`      // scripts, one JSON object per line
	Out     string `json:"out"`     // output prefix: <out>.<worker>
	Workers int    `json:"workers"` // number of parallel workers (= output files)
	Scratch string `json:"scratch"` // directory for databases
	HangMS  int    `json:"hang_ms"` // an operation longer than this counts as hanging
	LimitMS int    `json:"limit_ms"` // for a script
}

type script struct {
	ID  string            `json:"id"`
	Par json.RawMessage   `json:"par"`
	Ops []json.RawMessage `json:"ops"`
}

// session collects the events of one executed script.
type session struct {
	sc     script
	job    job
	dir    string
	mu     sync.Mutex
	events []rec
	dead   bool         // abandoned after a hang
	beat   atomic.Int64 // counts progress
	hang   rec          // event to emit if the current operation never returns
}

func (s *session) emit(e rec) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dead {
		return
	}
	e["t"] = s.sc.ID
	s.events = append(s.events, e)
	s.beat.Add(1)
}

// enter notes the operation that is about to run, for the hang report.
func (s *session) enter(e rec) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hang = e
	s.beat.Add(1)
}

// try runs f and turns a panic into the result "panic".
func try(f func() string) (res string, detail string) {
	defer func() {
		if r := recover(); r != nil {
			res, detail = "panic", fmt.Sprintf("%v", r)
			if os.Getenv("VERIF_STACK") != "" {
				detail += string(debug.Stack())
			}
		}
	}()
	return f(), ""
}

func TestVerif(t *testing.T) {
	path := os.Getenv("VERIF_JOB")
	if path == "" {
		t.Skip("no job")
	}
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var j job
	if err = json.Unmarshal(data, &j); err != nil {
		t.Fatal(err)
	}
	if j.HangMS == 0 {
		j.HangMS = 30000
	}
	if j.LimitMS == 0 {
		j.LimitMS = scriptLimit
	}
	run, ok := modes[j.Mode]
	if !ok {
		t.Fatalf("unknown mode %q", j.Mode)
	}
	f, err := os.Open(j.In)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var scripts []script
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, rErr := rd.ReadBytes('\n')
		if len(line) > 1 {
			var s script
			if err = json.Unmarshal(line, &s); err != nil {
				t.Fatal(err)
			}
			scripts = append(scripts, s)
		}
		if rErr != nil {
			break
		}
	}
	var wg sync.WaitGroup
	var next atomic.Int64
	for w := 0; w < j.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out, cErr := os.Create(fmt.Sprintf("%s.%d", j.Out, w))
			if cErr != nil {
				panic(cErr)
			}
			bw := bufio.NewWriterSize(out, 1<<20)
			enc := json.NewEncoder(bw)
			enc.SetEscapeHTML(false)
			for hung.Load() < 3 { // what hangs may go on burning time
				i := int(next.Add(1)) - 1
				if i >= len(scripts) {
					break
				}
				for _, e := range execute(t, run, j, scripts[i], w, i) {
					if eErr := enc.Encode(e); eErr != nil {
						panic(eErr)
					}
				}
			}
			if fErr := bw.Flush(); fErr != nil {
				panic(fErr)
			}
			out.Close()
		}(w)
	}
	wg.Wait()
	if hung.Load() > 0 {
		if pErr := os.WriteFile(j.Out+".partial", nil, 0o644); pErr != nil {
			panic(pErr)
		}
	}
}

// hung counts abandoned scripts.
var hung atomic.Int32

const scriptLimit = 3 * 60 * 1000

func execute(t *testing.T, run func(*testing.T, *session), j job, sc script, w, i int) []rec {
	dir := filepath.Join(j.Scratch, fmt.Sprintf("w%d-%d", w, i))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	s := &session{sc: sc, job: j, dir: dir}
	done := make(chan struct{})
	go func() {
		defer close(done)
		run(t, s)
	}()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	last, since := int64(-1), time.Now()
	start := since
	for {
		select {
		case <-done:
			os.RemoveAll(dir)
			return s.events
		case <-tick.C:
			if b := s.beat.Load(); b != last { // the clock of a test in a bubble is not this one
				last, since = b, time.Now()
			}
			if stuck := time.Since(since) > time.Duration(j.HangMS)*time.Millisecond; stuck || time.Since(start) > time.Duration(j.LimitMS)*time.Millisecond {
				hung.Add(1)
				s.mu.Lock()
				s.dead = true
				if stuck && s.hang != nil {
					s.hang["res"] = "hang"
					s.hang["t"] = sc.ID
					s.events = append(s.events, s.hang)
				}
				ev := s.events[:min(len(s.events), 20000)]
				s.mu.Unlock()
				return ev
			}
		}
	}
}

var modes = map[string]func(*testing.T, *session){}

// ---- abstract names ----

func limbs(x *big.Int) []int {
	r := []int{}
	if x == nil || x.Sign() < 0 {
		return []int{-1}
	}
	y := new(big.Int).Set(x)
	m := new(big.Int)
	base := big.NewInt(10000)
	for y.Sign() > 0 {
		y.DivMod(y, base, m)
		r = append(r, int(m.Int64()))
	}
	return r
}

// names maps small integers to block ids and back; even names are digests, odd ones signatures.
type names struct {
	mu   sync.RWMutex
	salt string
	fwd  map[int]proto.BlockID
	back map[proto.BlockID]int
	used []int
}

func newNames(salt string) *names {
	return &names{salt: salt, fwd: map[int]proto.BlockID{}, back: map[proto.BlockID]int{}}
}

func (n *names) id(name int) proto.BlockID {
	if id, ok := n.has(name); ok {
		return id
	}
	d := crypto.MustFastHash([]byte(fmt.Sprintf("%s/%d", n.salt, name)))
	var id proto.BlockID
	if name%2 == 0 {
		id = proto.NewBlockIDFromDigest(d)
	} else {
		d2 := crypto.MustFastHash(d[:])
		var sig crypto.Signature
		copy(sig[:], d[:])
		copy(sig[32:], d2[:])
		id = proto.NewBlockIDFromSignature(sig)
	}
	n.bind(name, id)
	return id
}

func (n *names) has(name int) (proto.BlockID, bool) {
	n.mu.RLock()
	defer n.mu.RUnlock()
	id, ok := n.fwd[name]
	return id, ok
}

func (n *names) bind(name int, id proto.BlockID) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.fwd[name] = id
	n.back[id] = name
	n.used = append(n.used, name)
}

func (n *names) of(id proto.BlockID) int {
	if id == (proto.BlockID{}) {
		return -1
	}
	n.mu.RLock()
	defer n.mu.RUnlock()
	if x, ok := n.back[id]; ok {
		return x
	}
	return -9
}

var (
	genMu   sync.Mutex
	genKeys = map[int]crypto.PublicKey{}
	genAddr = map[proto.WavesAddress]int{}
)

func init() {
	for g := range 16 {
		genKey(g)
	}
}

func genKey(g int) crypto.PublicKey {
	genMu.Lock()
	defer genMu.Unlock()
	if pk, ok := genKeys[g]; ok {
		return pk
	}
	_, pk, err := crypto.GenerateKeyPair([]byte(fmt.Sprintf("generator %d", g)))
	if err != nil {
		panic(err)
	}
	a, err := proto.NewAddressFromPublicKey(scheme, pk)
	if err != nil {
		panic(err)
	}
	genKeys[g] = pk
	genAddr[a] = g
	return pk
}

func genOf(a proto.WavesAddress) int {
	genMu.Lock()
	defer genMu.Unlock()
	if g, ok := genAddr[a]; ok {
		return g
	}
	return -9
}

func mustAddr(s string) netip.Addr { return netip.MustParseAddr(s) }

func mustBig(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad number " + s)
	}
	return x
}
