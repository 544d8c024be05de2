package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/chains"
)

// Crash points: the store is reopened from copies whose write-ahead log is cut at every kind of place, and from what
// a killed process left behind.

func init() {
	modes["crash"] = runCrash
	modes["kill"] = runKill
}

type crashOp struct {
	chainOp
	Stride int       `json:"stride"`
	Frac   float64   `json:"frac"`
	Bs     []int     `json:"bs"`
	Acks   int       `json:"acks"`
	Delay  int       `json:"delay"` // microseconds
	Child  []crashOp `json:"child"`
}

func journal(dir string) (string, int64) { return journalOf(dir, "blocks") }

// listing is the state of the files of a store: a copy is taken between two equal ones, as tables are written in the
// background.
func listing(dir, sub string) string {
	es, _ := os.ReadDir(filepath.Join(dir, sub))
	r := ""
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			r += fmt.Sprintf("%s %d %d\n", e.Name(), i.Size(), i.ModTime().UnixNano())
		}
	}
	return r
}

func copyStore(from, to, jr string, cut int64) { copyStoreOf(from, to, "blocks", jr, cut) }

func copyStoreOf(from, to, sub, jr string, cut int64) {
	for {
		before := listing(from, sub)
		if copyFiles(from, to, sub, jr, cut) && listing(from, sub) == before {
			return
		}
		os.RemoveAll(to)
		time.Sleep(time.Millisecond)
	}
}

func copyFiles(from, to, sub, jr string, cut int64) bool {
	if err := os.MkdirAll(filepath.Join(to, sub), 0o755); err != nil {
		panic(err)
	}
	es, err := os.ReadDir(filepath.Join(from, sub))
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if e.Name() == "LOCK" || e.IsDir() {
			continue
		}
		data, rErr := os.ReadFile(filepath.Join(from, sub, e.Name()))
		if rErr != nil {
			return false
		}
		if e.Name() == filepath.Base(jr) && int64(len(data)) > cut {
			data = data[:cut]
		}
		if wErr := os.WriteFile(filepath.Join(to, sub, e.Name()), data, 0o644); wErr != nil {
			panic(wErr)
		}
	}
	return true
}

func noNext() rec { return rec{"op": "none"} }

type crashDrv struct {
	*chainsDrv
	sizes []int64 // size of the journal after each operation since the store was opened; first: right after opening
	ops   []rec   // their arguments
	light bool
}

func (d *crashDrv) opened() {
	_, n := journal(d.s.dir)
	d.sizes, d.ops = []int64{n}, nil
}

// survivors describes what a reopened store holds.
func (d *crashDrv) survivors(l *chains.Linkage, e rec) {
	c := &chainsDrv{s: d.s, nm: d.nm, l: l, genesis: d.genesis}
	o := rec{}
	e["res"], _ = try(func() string {
		c.observe(chainOp{}, o)
		if o["hres"] != "ok" || o["lres"] != "ok" {
			return "unreadable"
		}
		return "ok"
	})
	if e["res"] == "panic" {
		o = rec{"blocks": []rec{}, "heads": [][]int{}, "leashes": [][]any{}}
	}
	e["blocks"], e["heads"], e["leashes"] = o["blocks"], o["heads"], o["leashes"]
	cs := [][]int{}
	for _, b := range o["blocks"].([]rec) {
		n := b["id"].(int)
		ch := []int{n}
		try(func() string {
			ids, err := l.LastIDs(d.nm.id(n), 1<<20)
			if err != nil {
				return "error"
			}
			ch = ch[:0]
			for _, id := range ids {
				ch = append(ch, d.nm.of(id))
			}
			return "ok"
		})
		cs = append(cs, ch)
	}
	e["chains"] = cs
	ls := [][]any{}
	for _, x := range o["leashes"].([][]any) {
		r := -9
		try(func() string {
			id, err := l.LCB(mustAddr(x[0].(string)))
			if err == nil {
				r = d.nm.of(id)
			}
			return ""
		})
		ls = append(ls, []any{x[0], r})
	}
	e["lcbs"] = ls
}

func empty(e rec) {
	e["blocks"], e["heads"], e["leashes"], e["chains"], e["lcbs"] = []rec{}, [][]int{}, [][]any{}, [][]int{}, [][]any{}
}

// openAt reopens the store in dir and reads it back.
func (d *crashDrv) openAt(dir string, e rec) *chains.Linkage {
	empty(e)
	var l *chains.Linkage
	res, det := try(func() string {
		x, err := chains.NewLinkage(dir, scheme, d.genesis)
		if err != nil {
			e["err"] = err.Error()
			return "error"
		}
		l = x
		return "ok"
	})
	e["res"] = res
	if det != "" {
		e["err"] = det
	}
	if l != nil {
		d.survivors(l, e)
	}
	return l
}

// at tells how many operations are certainly covered by the first `cut` bytes of the journal, and which is next.
func (d *crashDrv) at(cut int64) (int, rec) {
	i := 0
	for i+1 < len(d.sizes) && d.sizes[i+1] <= cut {
		i++
	}
	if i < len(d.ops) {
		return i, d.ops[i]
	}
	return i, noNext()
}

func (d *crashDrv) run(ops []crashOp) {
	for _, o := range ops {
		if d.s.dead {
			return
		}
		switch o.Op {
		case "new", "put", "micro", "move":
			d.s.mu.Lock()
			n := len(d.s.events)
			d.s.mu.Unlock()
			d.step(o.chainOp)
			d.s.mu.Lock()
			d.s.events[n]["light"] = d.light
			d.s.mu.Unlock()
			if o.Op == "new" {
				d.opened()
				break
			}
			_, sz := journal(d.s.dir)
			d.sizes, d.ops = append(d.sizes, sz), append(d.ops, d.args(o.chainOp))
		case "crashall":
			jr, size := journal(d.s.dir)
			cuts := map[int64]bool{0: true, 1: true, size: true}
			for _, s := range d.sizes {
				for _, x := range []int64{-8, -7, -1, 0, 1, 6, 7, 8, 20} {
					cuts[s+x] = true
				}
			}
			for x := int64(o.N); x < size; x += int64(o.Stride) {
				cuts[x] = true
			}
			for cut := range cuts {
				if cut < 0 || cut > size {
					continue
				}
				dir := d.s.dir + "-copy"
				copyStore(d.s.dir, dir, jr, cut)
				done, next := d.at(cut)
				e := rec{"op": "crash", "how": "cut", "done": done, "next": next, "cut": int(cut)}
				if l := d.openAt(dir, e); l != nil {
					l.Close()
				}
				d.s.emit(e)
				os.RemoveAll(dir)
			}
		case "recover":
			jr, size := journal(d.s.dir)
			e := rec{"op": "recover", "how": "clean", "done": len(d.ops), "next": noNext()}
			if o.Frac < 0 {
				d.l.Close()
			} else {
				cut := int64(float64(size) * o.Frac)
				dir := d.s.dir + "-cut"
				copyStore(d.s.dir, dir, jr, cut)
				d.l.Close()
				done, next := d.at(cut)
				e["how"], e["done"], e["next"], e["cut"] = "cut", done, next, int(cut)
				os.RemoveAll(d.s.dir)
				if err := os.Rename(dir, d.s.dir); err != nil {
					panic(err)
				}
			}
			d.l = d.openAt(d.s.dir, e)
			d.s.emit(e)
			if d.l == nil {
				d.s.dead = true
				return
			}
			d.opened()
		}
	}
}

func runCrash(_ *testing.T, s *session) {
	d := &crashDrv{chainsDrv: &chainsDrv{s: s}}
	defer func() {
		if d.l != nil {
			d.l.Close()
		}
	}()
	var ops []crashOp
	for _, raw := range s.sc.Ops {
		var o crashOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		ops = append(ops, o)
	}
	d.run(ops)
}

// runKill lets a child process work on the store and kills it at some moment; then the store is reopened.
func runKill(_ *testing.T, s *session) {
	d := &crashDrv{chainsDrv: &chainsDrv{s: s}, light: true}
	defer func() {
		if d.l != nil {
			d.l.Close()
		}
	}()
	for _, raw := range s.sc.Ops {
		var o crashOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		if o.Op == "new" {
			d.run([]crashOp{o})
			continue
		}
		d.l.Close()
		d.l = nil
		in := d.s.dir + ".child"
		data, err := json.Marshal(rec{"salt": d.nm.salt, "dir": d.s.dir, "ops": o.Child, "genesis": s.sc.Ops[0]})
		if err != nil {
			panic(err)
		}
		if err = os.WriteFile(in, data, 0o644); err != nil {
			panic(err)
		}
		cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifChild$")
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+in)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err = cmd.Start(); err != nil {
			panic(err)
		}
		rd := bufio.NewReaderSize(out, 1<<20)
		acks := 0
		finished := false
		killed := false
		for {
			if acks >= o.Acks && !killed {
				time.Sleep(time.Duration(o.Delay) * time.Microsecond)
				_ = cmd.Process.Kill()
				killed = true
			}
			line, rErr := rd.ReadString('\n')
			if strings.HasPrefix(line, "ACK ") && strings.HasSuffix(line, "\n") {
				var e rec
				if err = json.Unmarshal([]byte(line[4:]), &e); err != nil {
					panic(err)
				}
				s.emit(e)
				acks++
			}
			if strings.HasPrefix(line, "FINISHED") {
				finished = true
			}
			if rErr != nil {
				if rErr != io.EOF {
					panic(rErr)
				}
				break
			}
		}
		_ = cmd.Wait()
		os.Remove(in)
		e := rec{"op": "recover", "how": "kill", "done": 0, "next": noNext()}
		if acks < len(o.Child) {
			next := d.args(o.Child[acks].chainOp)
			if o.Child[acks].Op == "churn" {
				next = rec{"op": "churn", "a": o.Child[acks].A, "bs": o.Child[acks].Bs}
			}
			e["next"] = next
		}
		_ = finished
		for _, c := range o.Child {
			d.nm.id(c.B)
		}
		d.l = d.openAt(d.s.dir, e)
		s.emit(e)
		if d.l == nil {
			return
		}
	}
}

func TestVerifChild(t *testing.T) {
	path := os.Getenv("VERIF_CHILD")
	if path == "" {
		t.Skip("no job")
	}
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var in struct {
		Salt    string
		Dir     string
		Ops     []crashOp
		Genesis chainOp
	}
	if err = json.Unmarshal(data, &in); err != nil {
		t.Fatal(err)
	}
	d := &chainsDrv{s: &session{dir: in.Dir}, nm: newNames(in.Salt)}
	d.genesis = *d.mkBlock(in.Genesis)
	if d.l, err = chains.NewLinkage(in.Dir, scheme, d.genesis); err != nil {
		t.Fatal(err)
	}
	for i, o := range in.Ops {
		var e rec
		if o.Op == "churn" {
			for j := 0; j < o.N; j++ {
				b := o.Bs[j%len(o.Bs)]
				if j == o.N-1 {
					b = o.Bs[len(o.Bs)-1]
				}
				if err = d.l.MoveLeash(d.nm.id(b), mustAddr(o.A)); err != nil {
					t.Fatal(err)
				}
			}
			e = rec{"op": "churn", "a": o.A, "bs": o.Bs, "res": "ok"}
		} else {
			d.step(o.chainOp)
			e = d.s.events[len(d.s.events)-1]
		}
		e["light"] = true
		delete(e, "t")
		line, mErr := json.Marshal(e)
		if mErr != nil {
			t.Fatal(mErr)
		}
		fmt.Fprintf(os.Stdout, "ACK %s\n", line)
		_ = i
	}
	fmt.Fprintln(os.Stdout, "FINISHED")
	time.Sleep(time.Duration(rand.Intn(2000)) * time.Microsecond)
	os.Exit(0) // without closing
}
