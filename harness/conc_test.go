package verifharness

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Runs programs of several threads (ConcGen) on one real object and records
// every call's beginning, end and result in the order of a global counter.

type concOp struct {
	Op  string     `json:"op"`
	Key string     `json:"key"`
	V   int        `json:"v"`
	D   string     `json:"d"`
	F   string     `json:"f"`
	T   string     `json:"t"`
	Fs  []fieldVal `json:"fs"`
	Ts  []string   `json:"ts"`
	Ds  []string   `json:"ds"`
	Q   []queryAct `json:"q"`
	N   int        `json:"n"`
}

type concAct struct {
	K     string   `json:"k"`
	Kind  string   `json:"kind"`
	Impl  string   `json:"impl"`
	Cap   int      `json:"cap"`
	Nk    int      `json:"nk"`
	Nd    int      `json:"nd"`
	Nf    int      `json:"nf"`
	Nt    int      `json:"nt"`
	Prof  string   `json:"profile"`
	Pool  string   `json:"pool"`
	Procs int      `json:"procs"`
	Seed  int64    `json:"seed"`
	Ops   []concOp `json:"ops"`
}

type concCall struct {
	at  int64
	ev  M
	who string
}

type concRun struct {
	storeRun
	clock  atomic.Int64
	mu     sync.Mutex
	log    []concCall
	keys   *names
	kn     []string
	lru    *cache.LRUCache[int]
	local  *cache.LocalMap[int]
	shard  *cache.Shard[int]
	chosen sync.Map
	ix     index.Index // saves go through it
}

func (c *concRun) bad(cat, what string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.log = append(c.log, concCall{at: c.clock.Add(1), ev: M{"k": "bad", "cat": cat, "what": what}})
}

// do makes one call and returns how it is written down and what it returned.
func (c *concRun) do(o concOp, held *[]func()) (x M, res any) {
	switch o.Op {
	case "put":
		c.lru.Put(c.keys.con(o.Key), o.V)
		return M{"op": "put", "key": o.Key, "v": o.V}, 0
	case "get":
		p, ok := c.lru.Get(c.keys.con(o.Key))
		v := 0
		if ok {
			v = *p
			*held = append(*held, func() {
				if *p != v {
					c.bad("changed", fmt.Sprintf("the value of %s handed out was %d and became %d", o.Key, v, *p))
				}
			})
		}
		return M{"op": "get", "key": o.Key}, M{"ok": ok, "v": v}
	case "mset":
		c.at(o.Key).Set(c.keys.con(o.Key), o.V)
		return M{"op": "mset", "key": o.Key, "v": o.V}, 0
	case "mget":
		p, ok := c.at(o.Key).Get(c.keys.con(o.Key))
		v := 0
		if ok {
			v = *p
			*held = append(*held, func() {
				if *p != v {
					c.bad("changed", fmt.Sprintf("the value of %s handed out was %d and became %d", o.Key, v, *p))
				}
			})
		}
		return M{"op": "mget", "key": o.Key}, M{"ok": ok, "v": v}
	case "data":
		m := M{}
		for k, p := range c.local.GetData() {
			m[c.keys.abs(k)] = *p
		}
		return M{"op": "data"}, m
	case "save":
		fs := []M{}
		nd := model.NormalizedDocument{}
		for _, v := range o.Fs {
			tf := map[string]int{}
			atf := M{}
			for t, n := range v.TF {
				tf[c.terms.con(t)] = n
				atf[t] = n
			}
			fs = append(fs, M{"f": v.F, "len": v.Len, "tf": atf})
			nd.Fields = append(nd.Fields, model.Field{Name: c.fields.con(v.F), Length: v.Len, TF: tf})
		}
		if c.ix != nil {
			c.ix.IndexDocument(c.docs.con(o.D), nd)
			return M{"op": "save", "d": o.D, "fs": fs}, 0
		}
		for _, f := range nd.Fields {
			c.st.SaveOrUpdate(c.docs.con(o.D), f)
		}
		return M{"op": "save", "d": o.D, "fs": fs}, 0
	case "post":
		tf := map[string]int{}
		for _, t := range o.Ts {
			tf[c.terms.con(t)] = 1
		}
		c.st.UpdateIndex(c.docs.con(o.D), model.Field{Name: c.fields.con(o.F), Length: len(tf), TF: tf})
		return M{"op": "post", "d": o.D, "f": o.F, "ts": nonNil(o.Ts)}, 0
	case "docs":
		set, ok := c.st.GetDocuments(c.fields.con(o.F), c.terms.con(o.T))
		ds := map[string]bool{}
		if ok {
			for d := range set.GetData() {
				ds[c.docs.abs(d)] = true
			}
		}
		return M{"op": "docs", "f": o.F, "t": o.T}, sorted(ds)
	case "index":
		m := M{}
		for t, set := range c.st.GetIndex(c.fields.con(o.F)) {
			ds := map[string]bool{}
			for d := range set.GetData() {
				ds[c.docs.abs(d)] = true
			}
			if len(ds) > 0 {
				m[c.terms.abs(t)] = sorted(ds)
			}
		}
		return M{"op": "index", "f": o.F}, m
	case "size":
		return M{"op": "size", "f": o.F}, c.st.GetFieldSize(c.fields.con(o.F))
	case "len":
		return M{"op": "len", "f": o.F}, c.st.GetFieldLength(c.fields.con(o.F))
	case "df":
		got := c.st.GetNumberFieldTerm(c.fields.con(o.F), c.ids(c.terms, o.Ts))
		m := M{}
		for _, t := range o.Ts {
			n, ok := got[c.terms.con(t)]
			if !ok {
				n = -1
			}
			m[t] = n
		}
		return M{"op": "df", "f": o.F, "ts": o.Ts}, m
	case "fields":
		return M{"op": "fields", "f": o.F, "ds": o.Ds}, c.fieldMap(c.st.GetFields(c.ids(c.docs, o.Ds), c.fields.con(o.F)))
	case "search":
		return c.searchOp(o)
	}
	panic("unknown op " + o.Op)
}

func (c *concRun) searchOp(o concOp) (M, any) {
	qs := make([]model.Query, len(o.Q))
	q := make([]M, len(o.Q))
	for i, a := range o.Q {
		qs[i] = model.Query{FieldName: c.fields.con(a.F), Boost: float64(a.B) / 10, Terms: c.ids(c.terms, a.Ts)}
		q[i] = M{"f": a.F, "ts": nonNil(a.Ts)}
	}
	rs := c.sr.Search(qs)
	var res []string
	finite, desc := true, true
	for i, x := range rs {
		res = append(res, c.docs.abs(x.Id))
		if math.IsNaN(x.Score) || math.IsInf(x.Score, 0) {
			finite = false
		}
		if i > 0 && !(rs[i-1].Score > x.Score || rs[i-1].Score == x.Score && rs[i-1].Id < x.Id) {
			desc = false
		}
	}
	return M{"op": "search", "q": q}, M{"res": nonNil(res), "finite": finite, "desc": desc}
}

func (c *concRun) at(key string) *cache.LocalMap[int] {
	if c.local != nil {
		return c.local
	}
	m, ok := c.shard.Get(c.keys.con(key))
	if !ok || m == nil {
		panic("no shard for a key")
	}
	if old, _ := c.chosen.LoadOrStore(key, m); old != m {
		c.bad("shard", "key "+key+" changed its shard")
	}
	return m
}

// exec makes the call and logs it.
func (c *concRun) exec(who string, o concOp, held *[]func()) {
	if o.Op == "sleep" {
		time.Sleep(time.Duration(o.N) * time.Second)
		return
	}
	from := c.clock.Add(1)
	x, res := c.do(o, held)
	to := c.clock.Add(1)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.log = append(c.log, concCall{at: from, ev: M{"k": "call", "who": who, "x": x, "res": res}})
	c.log = append(c.log, concCall{at: to, ev: M{"k": "ret", "who": who, "res": res}})
}

func (c *concRun) run(acts []concAct) {
	b := acts[0]
	c.rng = rand.New(rand.NewSource(b.Seed))
	c.docs, c.fields, c.terms, c.keys = newNames(), newNames(), newNames(), newNames()
	for i := 1; i <= b.Nd; i++ {
		c.dn = append(c.dn, fmt.Sprint("d", i))
	}
	for i := 1; i <= b.Nf; i++ {
		c.fn = append(c.fn, fmt.Sprint("f", i))
	}
	for i := 1; i <= b.Nt; i++ {
		c.tn = append(c.tn, fmt.Sprint("t", i))
	}
	for i := 1; i <= b.Nk; i++ {
		c.kn = append(c.kn, fmt.Sprint("k", i))
	}
	pool := newPool(b.Pool, c.rng, filepath.Join(c.base, "st"))
	fill(c.docs, c.dn, pool.doc)
	fill(c.fields, c.fn, pool.field)
	fill(c.terms, c.tn, pool.term)
	fill(c.keys, c.kn, pool.term)
	switch b.Impl {
	case "lru":
		c.lru = cache.NewLRUCache[int](b.Cap)
	case "local":
		c.local = cache.NewLocalMap[int]()
	case "shard":
		c.shard = cache.NewShardMap[int](b.Cap)
	case "mem":
		c.st = storage.NewMemory()
		c.sr = search.NewStandard(index.NewIndex(c.st))
	case "disk":
		c.root = c.newRoot()
		c.setGuard(true)
		st, err := openStore(c.root, b.Cap)
		if err != "" {
			c.bad("open", err)
			return
		}
		c.st = st
		ix := index.NewIndex(st)
		c.sr = search.NewStandard(ix)
		if b.Seed%2 == 0 {
			c.ix = ix
		}
	}
	var held []func()
	for i := 0; b.Kind == "overlap" && i < c.rng.Intn(b.Nd+1); i++ {
		tf := TF{}
		n := 0
		for _, t := range c.tn {
			if c.rng.Intn(2) == 0 {
				tf[t] = 1 + c.rng.Intn(2)
				n += tf[t]
			}
		}
		c.exec("first", concOp{Op: "save", D: c.dn[i], Fs: []fieldVal{{F: c.fn[c.rng.Intn(len(c.fn))], Len: n, TF: tf}}}, &held)
	}
	done := make(chan struct{}, 16)
	gate := make(chan struct{})
	threads := acts[1:]
	var helds [16][]func()
	for i, th := range threads {
		go func() {
			who := fmt.Sprint("p", i)
			defer func() {
				if p := recover(); p != nil {
					c.bad("panic", fmt.Sprint(p, " at ", firstFrames()))
				}
				done <- struct{}{}
			}()
			<-gate
			for _, o := range th.Ops {
				if b.Kind == "overlap" && o.Op == "save" {
					// a document is saved by one thread only
					var n int
					fmt.Sscanf(o.D, "d%d", &n)
					n = (n-1)/len(threads)*len(threads) + i
					if n >= b.Nd {
						n = i
					}
					if n >= b.Nd { // no document of its own
						continue
					}
					o.D = c.dn[n]
				}
				c.exec(who, o, &helds[i])
			}
		}()
	}
	close(gate)
	timer := time.NewTimer(2 * time.Hour)
	defer timer.Stop()
	for range threads {
		select {
		case <-done:
		case <-timer.C:
			c.bad("hang", "a call never ended")
			return
		}
	}
	for i := range threads {
		for _, f := range helds[i] {
			f()
		}
	}
	synctest.Wait()
	if b.Impl == "disk" && b.Kind == "store" {
		c.restart(b, threads)
	}
}

// restart reads everything from the store, and after some quiet from another one
// opened on its folder: the history goes on with those calls.
func (c *concRun) restart(b concAct, threads []concAct) {
	var held []func()
	// a posting that a save took out again is back after a restart (KF-1)
	saved, again := map[string]bool{}, false
	for _, th := range threads {
		for _, o := range th.Ops {
			for _, v := range o.Fs {
				again = again || saved[o.D+"/"+v.F]
				saved[o.D+"/"+v.F] = true
			}
		}
	}
	all := func(who string, postings bool) {
		for _, f := range c.fn {
			for _, op := range []string{"size", "len", "df", "fields"} {
				c.exec(who, concOp{Op: op, F: f, Ts: c.tn, Ds: c.dn}, &held)
			}
			for i := 0; postings && i < len(c.tn); i++ {
				c.exec(who, concOp{Op: "docs", F: f, T: c.tn[i]}, &held)
			}
			if postings {
				c.exec(who, concOp{Op: "index", F: f}, &held)
			}
		}
	}
	all("after", true)
	time.Sleep(21 * time.Second)
	synctest.Wait()
	root := c.root
	c.gen++
	c.root = c.newRoot()
	copyTree(root, c.root)
	c.setGuard(true)
	st, err := openStore(c.root, b.Cap)
	if err != "" {
		c.bad("open", err)
		return
	}
	c.st = st
	all("restarted", !again)
}

func TestConc(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(n int, line []byte) {
		var b struct {
			Id   int       `json:"id"`
			Acts []concAct `json:"acts"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d run", b.Id)
		for rep := 0; rep < concReps(); rep++ {
			c := &concRun{storeRun: storeRun{site: &site{}}}
			c.id, c.base = b.Id, filepath.Join(envScratch, fmt.Sprint("b", b.Id, "-", rep))
			takeEscapes()
			a := b.Acts[0]
			runtime.GOMAXPROCS(1 + (a.Procs+rep)%8)
			setYield(a.Seed+int64(rep), []int{1, 2, 5}[rep%3])
			if (a.Seed+int64(rep))%3 == 0 {
				lingering(a.Seed, 200*time.Microsecond)
			}
			bubble(t, func() { c.run(b.Acts) })
			linger.Store(nil)
			setYield(0, 0)
			guard.Store(nil)
			for _, e := range takeEscapes() {
				c.bad("escape", e)
			}
			c.mu.Lock()
			log := c.log
			c.mu.Unlock()
			sort.SliceStable(log, func(i, j int) bool { return log[i].at < log[j].at })
			out.put(M{"k": "begin", "tid": b.Id, "rep": rep, "kind": a.Kind, "impl": a.Impl, "cap": a.Cap, "profile": a.Prof,
				"docs": nonNil(c.dn), "fields": nonNil(c.fn), "terms": nonNil(c.tn)})
			for _, e := range log {
				out.put(e.ev)
			}
			out.put(M{"k": "end"})
			out.w.Flush()
			os.RemoveAll(c.base)
		}
	})
	mark("done")
	out.close()
	os.Exit(0)
}

func concReps() int {
	var n int
	fmt.Sscan(os.Getenv("VERIF_REPS"), &n)
	if n == 0 {
		n = 1
	}
	return n
}
