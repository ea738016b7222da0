package verifharness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
)

// Runs histories of puts and gets (WBGen) on the write-behind maps, in virtual time.

type wbOp struct {
	Op  string `json:"op"`
	Key string `json:"key"`
	N   int    `json:"n"`
	C   int    `json:"c"`
}

type wbAct struct {
	K       string   `json:"k"`
	Impl    string   `json:"impl"`
	Nk      int      `json:"nk"`
	Prof    string   `json:"profile"`
	Pool    string   `json:"pool"`
	Procs   int      `json:"procs"`
	Seed    int64    `json:"seed"`
	Threads [][]wbOp `json:"threads"`
	N       int      `json:"n"`
	Writers int      `json:"writers"`
	Each    int      `json:"each"`
	Keys    int      `json:"keys"`
}

type wbMap interface {
	Put(key string, value int)
	Get(key string) (*int, bool)
}

type wbRun struct {
	clock atomic.Int64
	mu    sync.Mutex
	log   []concCall
	m     wbMap
	keys  *names
	kn    []string
	vals  atomic.Int64
	start time.Time
	next  int
}

func (w *wbRun) add(at int64, e M) {
	w.mu.Lock()
	w.log = append(w.log, concCall{at: at, ev: e})
	w.mu.Unlock()
}

func (w *wbRun) now() int { return int(time.Since(w.start) / time.Millisecond) }

func (w *wbRun) exec(who string, o wbOp) {
	switch o.Op {
	case "put":
		// the value is the put's own, or one that others put too (0 is what a map has for nothing)
		v := int(w.vals.Add(1))
		c := v + 100
		if o.C > 0 {
			c = o.C - 1
		}
		w.add(w.clock.Add(1), M{"k": "pcall", "v": v, "c": c, "key": o.Key})
		w.m.Put(w.keys.con(o.Key), c)
		w.add(w.clock.Add(1), M{"k": "pret", "v": v, "t": w.now()})
	case "get":
		t, from := w.now(), w.clock.Add(1)
		p, ok := w.m.Get(w.keys.con(o.Key))
		v := 0
		if ok {
			v = *p
		}
		to := w.clock.Add(1)
		w.add(from, M{"k": "gcall", "who": who, "key": o.Key, "t": t})
		w.add(to, M{"k": "gret", "who": who, "key": o.Key, "ok": ok, "v": v})
	case "nap":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
	}
}

// burst makes very many puts at once; value = writer<<32 + number.
func (w *wbRun) burst(a wbAct) {
	w.next++
	key := func(i int) string { return fmt.Sprint("burst", w.next, "-", i) }
	nk := a.Keys
	if nk > a.Each {
		nk = a.Each
	}
	seen := make([][][2]int, nk)
	note := func(k int) {
		p, ok := w.m.Get(key(k))
		if !ok {
			if n := len(seen[k]); n > 0 {
				w.add(w.clock.Add(1), M{"k": "bad", "cat": "back", "what": "a key disappeared"})
			}
			return
		}
		x := [2]int{*p >> 32, *p & (1<<32 - 1)}
		if n := len(seen[k]); n == 0 || seen[k][n-1] != x {
			seen[k] = append(seen[k], x)
		}
	}
	var wg sync.WaitGroup
	lasts := make([][][2]int, nk)
	for i := 0; i < a.Writers; i++ {
		for k := 0; k < nk; k++ {
			n := (a.Each-1-k)/nk*nk + k
			if n < a.Each {
				lasts[k] = append(lasts[k], [2]int{i + 1, n + 1})
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < a.Each; j++ {
				w.m.Put(key(j%nk), (i+1)<<32+j+1)
				if j%200 == 199 && (i+w.next)%2 == 0 {
					time.Sleep(700 * time.Millisecond)
				}
			}
		}()
	}
	stop := make(chan struct{})
	wg2 := sync.WaitGroup{}
	wg2.Add(1)
	go func() {
		defer wg2.Done()
		for i := 0; ; i++ {
			note(i % nk)
			if i%nk == nk-1 {
				time.Sleep(500 * time.Millisecond)
			}
			select {
			case <-stop:
				return
			default:
			}
		}
	}()
	wg.Wait()
	close(stop)
	wg2.Wait()
	for i := 0; i < 50; i++ {
		time.Sleep(100 * time.Millisecond)
		if i%10 == 0 {
			for k := 0; k < nk; k++ {
				note(k)
			}
		}
	}
	final, ls, ss := M{}, M{}, M{}
	missing := 0
	for k := 0; k < nk; k++ {
		note(k)
		if n := len(seen[k]); n == 0 {
			missing++
		}
		if k < 5 || len(seen[k]) == 0 || seen[k][len(seen[k])-1] != lasts[k][0] {
			if len(final) > 20 {
				continue
			}
			f := []int{}
			if n := len(seen[k]); n > 0 {
				f = seen[k][n-1][:]
			}
			final[fmt.Sprint(k)], ls[fmt.Sprint(k)], ss[fmt.Sprint(k)] = f, lasts[k], nonNil(seen[k])
		}
	}
	w.add(w.clock.Add(1), M{"k": "burst", "final": final, "lasts": ls, "seen": ss, "missing": missing})
}

func (w *wbRun) run(acts []wbAct) {
	b := acts[0]
	w.keys = newNames()
	for i := 1; i <= b.Nk; i++ {
		w.kn = append(w.kn, fmt.Sprint("k", i))
	}
	pool := newPool(b.Pool, rand.New(rand.NewSource(b.Seed)), "/none")
	fill(w.keys, w.kn, pool.term)
	if b.Impl == "rcu" {
		w.m = cache.NewCacheRCU[int]()
	} else {
		w.m = cache.NewSyncMap[int]()
	}
	w.start = time.Now()
	for _, a := range acts[1:] {
		done := make(chan string, 16)
		n := 1
		guarded := func(f func()) {
			go func() {
				defer func() {
					s := ""
					if p := recover(); p != nil {
						s = fmt.Sprint(p, " at ", firstFrames())
					}
					done <- s
				}()
				f()
			}()
		}
		switch a.K {
		case "adv":
			time.Sleep(time.Duration(a.N) * time.Millisecond)
			continue
		case "reads":
			guarded(func() {
				for _, k := range w.kn {
					w.exec("r", wbOp{Op: "get", Key: k})
				}
			})
		case "burst":
			guarded(func() { w.burst(a) })
		case "par":
			n = len(a.Threads)
			for i, th := range a.Threads {
				guarded(func() {
					for _, o := range th {
						w.exec(fmt.Sprint("p", i), o)
					}
				})
			}
		}
		timer := time.NewTimer(10 * time.Hour)
		for i := 0; i < n; i++ {
			select {
			case p := <-done:
				if p != "" {
					w.add(w.clock.Add(1), M{"k": "bad", "cat": "panic", "what": p})
				}
			case <-timer.C:
				w.add(w.clock.Add(1), M{"k": "bad", "cat": "hang", "what": "a call never ended"})
				return
			}
		}
		timer.Stop()
	}
	synctest.Wait()
}

func TestWriteBehind(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(n int, line []byte) {
		var b struct {
			Id   int     `json:"id"`
			Acts []wbAct `json:"acts"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d run", b.Id)
		a := b.Acts[0]
		w := &wbRun{}
		runtime.GOMAXPROCS(a.Procs)
		setYield(a.Seed, 2)
		bubble(t, func() { w.run(b.Acts) })
		setYield(0, 0)
		w.mu.Lock()
		log := w.log
		w.mu.Unlock()
		sort.SliceStable(log, func(i, j int) bool { return log[i].at < log[j].at })
		out.put(M{"k": "begin", "tid": b.Id, "impl": a.Impl, "profile": a.Prof})
		for _, e := range log {
			out.put(e.ev)
		}
		out.w.Flush()
	})
	mark("done")
	out.close()
	os.Exit(0)
}
