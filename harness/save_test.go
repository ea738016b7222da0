package verifharness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/file"
)

// Runs histories of safe saves (SaveGen) on file.SecureSaveFile, one file
// operation at a time under the history's schedule, and records what a reader
// finds between any two of them (SaveTrace).

type content struct {
	V    int `json:"v"`
	Size int `json:"size"`
}

func (c content) bytes() []byte {
	if c.Size == 0 {
		return []byte{}
	}
	s := fmt.Sprintf("%d<%d>", c.V, c.Size)
	return []byte(strings.Repeat(s, c.Size/len(s)+1)[:c.Size])
}

func (c content) id() string {
	if c.Size == 0 {
		return "empty"
	}
	return fmt.Sprintf("%d-%d", c.V, c.Size)
}

type saveAct struct {
	K     string    `json:"k"`
	Nf    int       `json:"nf"`
	Names int       `json:"names"`
	Prof  string    `json:"profile"`
	First []content `json:"first"`
	Saves []struct {
		F      int     `json:"f"`
		C      content `json:"c"`
		Fault  int     `json:"fault"`
		Fault2 int     `json:"fault2"`
		Part   int     `json:"part"`
	} `json:"saves"`
	Sched []int `json:"sched"`
	Die   int   `json:"die"`
}

var saveNames = []string{"x", "x_temp", "x%temp-1", "x.tmp", "x_old", "x.bak", "index", "metrics", "metrics_temp", "index_temp",
	"doc 1", "é", ".x", "x~", "temp", "%", "-", strings.Repeat("n", 200), "x%temp-", "nfterm_temp", "nfterm"}

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	return string(bytes.Fields(b)[1])
}

// stepper lets registered goroutines do one file operation at a time.
type stepper struct {
	mu    sync.Mutex
	who   map[string]*stepped
	msgs  chan stepMsg
	free  bool
	other func(op string)
}

type stepped struct {
	i            int
	grant        chan struct{}
	op           int
	faults       map[int]int // operation -> part of the write done before it fails
	injected     int
	free         bool
	lastOp       string
	blockedSince time.Time
}

type stepMsg struct {
	i    int
	op   string
	done bool
	err  error
	pan  any
}

func (s *stepper) pause(w *stepped, op string) {
	s.mu.Lock()
	free := s.free
	s.mu.Unlock()
	if free {
		return
	}
	s.msgs <- stepMsg{i: w.i, op: op}
	<-w.grant
}

func (s *stepper) around(op fsOp, do func([]byte) error) error {
	s.mu.Lock()
	w := s.who[goid()]
	s.mu.Unlock()
	if w == nil {
		if s.other != nil {
			s.other(op.op)
			err := do(op.data)
			s.other(op.op)
			return err
		}
		return do(op.data)
	}
	w.op++
	s.pause(w, op.op)
	if part, ok := w.faults[w.op]; ok && !s.free {
		w.injected++
		if n := len(op.data) * part / 4; n > 0 {
			do(op.data[:n])
		}
		return errors.New("injected: input/output error")
	}
	if (op.op == "write" || op.op == "writeat") && len(op.data) > 1 {
		h := len(op.data) / 2
		if err := do(op.data[:1]); err != nil {
			return err
		}
		s.pause(w, "write+1")
		if h > 1 {
			if err := do(op.data[1:h]); err != nil {
				return err
			}
			s.pause(w, "write+half")
		} else {
			h = 1
		}
		return do(op.data[h:])
	}
	return do(op.data)
}

type saveRun struct {
	id     int
	base   string
	root   string
	gen    int
	names  []string
	known  map[string]string
	events []M
	mu     sync.Mutex
}

func (r *saveRun) emit(e M) { r.mu.Lock(); r.events = append(r.events, e); r.mu.Unlock() }

func (r *saveRun) read(root string) M {
	out := M{}
	for i, n := range r.names {
		b, err := os.ReadFile(filepath.Join(root, n))
		id := ""
		if os.IsNotExist(err) {
			id = "none"
		} else if err != nil {
			id = "?" + err.Error()
		} else if k, ok := r.known[string(b)]; ok {
			id = k
		} else {
			id = fmt.Sprintf("?%d bytes: %.20q", len(b), b)
		}
		out[fmt.Sprint("f", i+1)] = id
	}
	return out
}

func (r *saveRun) see(at string) {
	r.emit(M{"k": "see", "at": at, "files": r.read(r.root)})
}

func (r *saveRun) know(c content) { r.known[string(c.bytes())] = c.id() }

func (r *saveRun) newRoot() {
	r.gen++
	r.root = filepath.Join(r.base, fmt.Sprint("g", r.gen), "dir")
	if err := os.MkdirAll(r.root, 0755); err != nil {
		panic(err)
	}
}

func (r *saveRun) run(acts []saveAct) {
	b := acts[0]
	r.known = map[string]string{}
	for i := 0; i < b.Nf; i++ {
		for k := 0; ; k++ {
			n := saveNames[(b.Names/(1+i*7)+i+k)%len(saveNames)]
			if !contains(r.names, n) {
				r.names = append(r.names, n)
				break
			}
		}
	}
	for _, a := range acts {
		for _, c := range a.First {
			r.know(c)
		}
		for _, s := range a.Saves {
			r.know(s.C)
		}
	}
	r.newRoot()
	for i, c := range b.First {
		if c.V != 0 {
			if err := os.WriteFile(filepath.Join(r.root, r.names[i]), c.bytes(), 0644); err != nil {
				panic(err)
			}
		}
	}
	r.emit(M{"k": "begin", "tid": r.id, "profile": b.Prof, "names": r.names, "files": r.read(r.root)})
	for i, a := range acts[1:] {
		if !r.together(a, i) {
			return
		}
	}
}

func contains(q []string, x string) bool {
	for _, y := range q {
		if x == y {
			return true
		}
	}
	return false
}

func (r *saveRun) together(a saveAct, act int) bool {
	s := &stepper{who: map[string]*stepped{}, msgs: make(chan stepMsg, 64), other: r.see}
	ws := make([]*stepped, len(a.Saves))
	watching.Store(&fsWatch{root: r.root, around: s.around})
	defer watching.Store(nil)
	root := r.root
	for i, sv := range a.Saves {
		w := &stepped{i: i, grant: make(chan struct{}), faults: map[int]int{}}
		if sv.Fault > 0 {
			w.faults[sv.Fault] = sv.Part
			if sv.Fault2 > sv.Fault {
				w.faults[sv.Fault2] = sv.Part
			}
		}
		ws[i] = w
		r.emit(M{"k": "call", "who": fmt.Sprint("s", i), "f": fmt.Sprint("f", sv.F), "c": sv.C.id()})
		go func() {
			s.mu.Lock()
			s.who[goid()] = w
			s.mu.Unlock()
			m := stepMsg{i: i, done: true}
			defer func() {
				m.pan = recover()
				s.msgs <- m
			}()
			s.pause(w, "start")
			m.err = file.SecureSaveFile(root, r.names[sv.F-1], sv.C.bytes())
		}()
	}
	ready, done := map[int]bool{}, map[int]bool{}
	died := false
	hear := func(wait time.Duration) (int, bool) {
		select {
		case m := <-s.msgs:
			if died {
				if m.done {
					done[m.i] = true
				}
				return m.i, true
			}
			if !m.done {
				ready[m.i] = true
				return m.i, true
			}
			done[m.i] = true
			delete(ready, m.i)
			if m.pan != nil {
				r.emit(M{"k": "bad", "cat": "panic", "what": fmt.Sprint(m.pan)})
			}
			e := M{"k": "ret", "who": fmt.Sprint("s", m.i), "ok": m.err == nil, "err": "", "faults": ws[m.i].injected}
			if m.err != nil {
				e["err"] = m.err.Error()
			}
			r.see("end")
			r.emit(e)
			return m.i, true
		case <-time.After(wait):
			return -1, false
		}
	}
	r.see("start")
	steps := 0
	for len(done) < len(a.Saves) {
		// whoever runs comes to its next operation, or waits for another
		for len(ready)+len(done) < len(a.Saves) {
			wait := 20 * time.Second
			if len(ready) > 0 {
				wait = 300 * time.Millisecond
			}
			if _, ok := hear(wait); !ok {
				break
			}
		}
		if len(ready) == 0 {
			if len(done) == len(a.Saves) {
				break
			}
			r.emit(M{"k": "bad", "cat": "hang", "what": "a save never ended"})
			return false
		}
		r.see("step")
		var q []int
		for i := range a.Saves {
			if ready[i] {
				q = append(q, i)
			}
		}
		steps++
		if steps == a.Die {
			// the process dies here: what there is is what the next one finds
			old := r.root
			r.newRoot()
			copyTree(old, r.root)
			r.emit(M{"k": "die", "files": r.read(r.root)})
			died = true
			s.mu.Lock()
			s.free = true
			s.mu.Unlock()
			for i := range ready {
				ws[i].grant <- struct{}{}
			}
			ready = map[int]bool{}
			for len(done) < len(a.Saves) {
				if _, ok := hear(20 * time.Second); !ok {
					r.emit(M{"k": "bad", "cat": "hang", "what": "a save never ended"})
					return false
				}
			}
			return true
		}
		i := q[a.Sched[steps%len(a.Sched)]%len(q)]
		delete(ready, i)
		ws[i].grant <- struct{}{}
		r.wait(hear, i, ready, done)
	}
	r.see("over")
	return true
}

// wait gives a saver that was let go the time to do its step, even if it is one
// that waits for another.
func (r *saveRun) wait(hear func(time.Duration) (int, bool), i int, ready, done map[int]bool) {
	end := time.Now().Add(300 * time.Millisecond)
	for !ready[i] && !done[i] && time.Now().Before(end) {
		hear(time.Until(end))
	}
}

func TestSaveFile(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(n int, line []byte) {
		var b struct {
			Id   int       `json:"id"`
			Acts []saveAct `json:"acts"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d run", b.Id)
		r := &saveRun{id: b.Id, base: filepath.Join(envScratch, fmt.Sprint("b", b.Id))}
		takeEscapes()
		r.run(b.Acts)
		for _, e := range takeEscapes() {
			r.emit(M{"k": "bad", "cat": "escape", "what": e})
		}
		for _, e := range r.events {
			out.put(e)
		}
		out.w.Flush()
		os.RemoveAll(r.base)
	})
	mark("done")
	out.close()
	os.Exit(0)
}
