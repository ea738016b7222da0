package verifharness

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

type fieldVal struct {
	F   string `json:"f"`
	Len int    `json:"len"`
	TF  TF     `json:"tf"`
}

type queryAct struct {
	F  string   `json:"f"`
	B  int      `json:"b"`
	Ts []string `json:"ts"`
}

type act struct {
	K       string       `json:"k"`
	Nd      int          `json:"nd"`
	Nf      int          `json:"nf"`
	Nt      int          `json:"nt"`
	Backend string       `json:"backend"`
	Cache   int          `json:"cache"`
	Pool    string       `json:"pool"`
	Profile string       `json:"profile"`
	Seed    int64        `json:"seed"`
	Slow    int          `json:"slow"`
	D       string       `json:"d"`
	F       string       `json:"f"`
	Fs      []fieldVal   `json:"fs"`
	Ts      []string     `json:"ts"`
	N       int          `json:"n"`
	Parts   []string     `json:"parts"`
	Q       []queryAct   `json:"q"`
	Cont    bool         `json:"cont"`
	Pick    int          `json:"pick"`
	Qs      [][]queryAct `json:"qs"`
	Class   string       `json:"class"`
	Lasting bool         `json:"lasting"`
}

// site is the folder of one behaviour; its stores may only change what is below the roots.
type site struct {
	base  string
	roots []string
}

type storeRun struct {
	id                  int
	*site
	tag                 string      // tells the stores of one behaviour apart
	peers               []*storeRun // the other stores of the behaviour
	over                bool
	mu                  sync.Mutex // events, flight and dead: a store may die at any moment
	flight              M          // what is being saved
	dead                bool
	died                chan struct{}
	lastAdv             time.Time
	fault               *fault
	rng                 *rand.Rand
	docs, fields, terms *names
	dn, fn, tn          []string
	backend             string
	st                  storage.Storage
	root                string // the live store's folder
	gen                 int
	img                 int
	events              []M
	images              []*image
	opened              time.Time
	invOf               storage.Storage
	inv                 index.Index
	sr                  search.Search
	failMu              sync.Mutex
	fails               []string
}

// image is a crash image: a copy of a store's folder to be opened later.
type image struct {
	dir  string
	ev   M
	key  string
	deep bool
}

func (r *storeRun) emit(e M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.dead {
		r.mu.Unlock()
		<-never
	}
	r.events = append(r.events, e)
	r.flight = nil
	if e["k"] == "adv" {
		r.lastAdv = time.Now()
	}
	if e["k"] == "adv" {
		for _, p := range r.peers {
			if !p.over {
				p.events = append(p.events, e)
			}
		}
	}
}

func (r *storeRun) bad(cat, what string) { r.emit(M{"k": "bad", "cat": cat, "what": what}) }

func (r *storeRun) setGuard(on bool) {
	if on {
		guard.Store(&fsGuard{base: filepath.Join(r.base, "st"), roots: append([]string(nil), r.roots...)})
	} else {
		guard.Store(nil)
	}
}

func (r *storeRun) newRoot() string {
	d := filepath.Join(r.base, "st", fmt.Sprint(r.tag, "g", r.gen), "u", "v", "w", "store")
	r.setGuard(false)
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	r.roots = append(r.roots, d)
	return d
}

// open opens a folder; a panic while opening is a failure to open.
func openStore(root string, cache int) (st storage.Storage, err string) {
	defer func() {
		if p := recover(); p != nil {
			st, err = nil, fmt.Sprint("panic: ", p)
		}
	}()
	s, e := storage.NewDiskStore(root, cache)
	if e != nil {
		return nil, e.Error()
	}
	return s, ""
}

func (r *storeRun) ids(ns *names, abs []string) []string {
	out := make([]string, len(abs))
	for i, a := range abs {
		out[i] = ns.con(a)
	}
	return out
}

func (r *storeRun) fieldMap(fs map[string]model.Field) M { // abstract doc -> field record
	out := M{}
	for d, f := range fs {
		out[r.docs.abs(d)] = r.fieldRec(f)
	}
	return out
}

func (r *storeRun) fieldRec(f model.Field) M {
	tf := M{}
	for t, n := range f.TF {
		tf[r.terms.abs(t)] = n
	}
	return M{"len": f.Length, "tf": tf}
}

func (r *storeRun) observe(st storage.Storage, parts []string) M {
	obs := M{}
	rng := r.rng
	for _, p := range parts {
		switch p {
		case "post":
			post := M{}
			for _, f := range r.fn {
				pf := M{}
				for _, t := range r.tn {
					set, ok := st.GetDocuments(r.fields.con(f), r.terms.con(t))
					ds := map[string]bool{}
					if ok {
						for d := range set.GetData() {
							ds[r.docs.abs(d)] = true
						}
						for d := range ds {
							if d[0] != '?' && !set.Contains(r.docs.con(d)) {
								ds["!contains"] = true
							}
						}
						if set.Size() != len(set.GetData()) {
							ds["!size"] = true
						}
					}
					pf[t] = sorted(ds)
				}
				post[f] = pf
			}
			obs["post"] = post
		case "idx":
			idx := M{}
			for _, f := range r.fn {
				pf := M{}
				for t, set := range st.GetIndex(r.fields.con(f)) {
					ds := map[string]bool{}
					for d := range set.GetData() {
						ds[r.docs.abs(d)] = true
					}
					if len(ds) > 0 {
						pf[r.terms.abs(t)] = sorted(ds)
					}
				}
				idx[f] = pf
			}
			obs["idx"] = idx
		case "stat":
			size, length, df := M{}, M{}, M{}
			for _, f := range r.fn {
				size[f] = st.GetFieldSize(r.fields.con(f))
				length[f] = st.GetFieldLength(r.fields.con(f))
				d := M{}
				// in any order, some of them twice, and one that no document has
				ask := append(r.ids(r.terms, r.tn), "no such term")
				for i := rng.Intn(3); i > 0 && len(ask) > 1; i-- {
					ask = append(ask, ask[rng.Intn(len(ask))])
				}
				rng.Shuffle(len(ask), func(i, j int) { ask[i], ask[j] = ask[j], ask[i] })
				got := st.GetNumberFieldTerm(r.fields.con(f), append([]string(nil), ask...))
				for _, t := range r.tn {
					d[t] = got[r.terms.con(t)]
				}
				for t, n := range got {
					if a := r.terms.abs(t); a[0] == '?' && n != 0 {
						d[a] = n
					}
				}
				df[f] = d
			}
			obs["size"], obs["len"], obs["df"] = size, length, df
		case "docs", "somedocs":
			ds := append([]string(nil), r.dn...)
			rng.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
			if p == "somedocs" {
				ds = ds[:1+rng.Intn(len(ds))]
			}
			docs := M{}
			for _, d := range ds {
				docs[d] = M{}
			}
			fs := append([]string(nil), r.fn...)
			rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			one := rng.Intn(2) == 0
			for _, f := range fs {
				ask := r.ids(r.docs, ds)
				ask = append(ask, "no such document")
				var calls [][]string
				if one {
					for _, a := range ask {
						calls = append(calls, []string{a})
					}
				} else {
					calls = [][]string{ask}
				}
				for _, c := range calls {
					for d, fv := range st.GetFields(c, r.fields.con(f)) {
						rec := r.fieldRec(fv)
						if fv.Name != r.fields.con(f) {
							rec["name"] = r.fields.abs(fv.Name)
						}
						a := r.docs.abs(d)
						if _, ok := docs[a]; !ok {
							docs[a] = M{}
						}
						docs[a].(M)[f] = rec
					}
				}
			}
			obs["docs"] = docs
		}
	}
	return obs
}

// searcher is mostly the same one as long as the store is, and sometimes a new one.
func (r *storeRun) searcher(st storage.Storage) (index.Index, search.Search) {
	if st != r.st || r.rng.Intn(5) == 0 {
		inv := index.NewIndex(st)
		return inv, search.NewStandard(inv)
	}
	if r.invOf != st {
		r.invOf, r.inv = st, index.NewIndex(st)
		r.sr = search.NewStandard(r.inv)
	}
	return r.inv, r.sr
}

var allParts = []string{"post", "idx", "stat", "docs"}

func (r *storeRun) searchEv(st storage.Storage, a act) M {
	qs := make([]model.Query, len(a.Q))
	ids := r.docs.from
	order := make([]string, 0, len(ids))
	for c := range ids {
		order = append(order, c)
	}
	sort.Strings(order)
	ord := map[string]int{}
	for i, c := range order {
		ord[c] = i
	}
	inv, sr := r.searcher(st)
	var raw []M
	for i, q := range a.Q {
		ts := r.ids(r.terms, q.Ts)
		qs[i] = model.Query{FieldName: r.fields.con(q.F), Boost: float64(q.B) / 10, Terms: ts}
		res := inv.Search(append([]string(nil), ts...), r.fields.con(q.F))
		df := M{}
		for t, n := range res.NumFieldsWithTerm {
			df[r.terms.abs(t)] = n
		}
		tot := 0
		if res.TotalDocuments > 0 {
			tot = int(math.Round(res.AvgDocLength * res.TotalDocuments))
		}
		raw = append(raw, M{"f": q.F, "ts": nonNil(q.Ts), "docs": r.fieldMap(res.FieldDocuments),
			"N": int(res.TotalDocuments), "tot": tot, "df": df})
	}
	rs := sr.Search(qs)
	kept := len(qs) == len(a.Q)
	for i, q := range a.Q {
		kept = kept && reflect.DeepEqual(qs[i], model.Query{FieldName: r.fields.con(q.F), Boost: float64(q.B) / 10, Terms: r.ids(r.terms, q.Ts)})
	}
	var res []string
	var rank, ordi []int
	var scores []string
	rk := 0
	for i, x := range rs {
		res = append(res, r.docs.abs(x.Id))
		if i > 0 && rs[i-1].Score != x.Score {
			if x.Score < rs[i-1].Score {
				rk++
			} else {
				rk-- // out of order, or not a number
			}
		}
		rank = append(rank, rk)
		o, ok := ord[x.Id]
		if !ok {
			o = -1
		}
		ordi = append(ordi, o)
		scores = append(scores, fmt.Sprintf("%.17g", x.Score))
	}
	q := a.Q
	for i := range q {
		q[i].Ts = nonNil(q[i].Ts)
	}
	return M{"k": "search", "q": q, "res": nonNil(res), "rank": nonNil(rank), "ord": nonNil(ordi),
		"scores": nonNil(scores), "raw": nonNil(raw), "kept": kept}
}

// slow is a store whose answers come after a moment, each a different one.
type slow struct {
	storage.Storage
	seed *atomic.Uint64
}

func (s slow) wait() {
	x := s.seed.Add(0x9E3779B97F4A7C15)
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	switch {
	case x%3 == 0:
		runtime.Gosched()
	case x%3 == 1:
		time.Sleep(time.Duration(x>>8%50) * time.Nanosecond)
	}
}
func (s slow) GetNumberFieldTerm(f string, ts []string) map[string]int {
	s.wait()
	return s.Storage.GetNumberFieldTerm(f, ts)
}
func (s slow) GetFieldLength(f string) int { s.wait(); return s.Storage.GetFieldLength(f) }
func (s slow) GetFieldSize(f string) int   { s.wait(); return s.Storage.GetFieldSize(f) }
func (s slow) GetIndex(f string) map[string]*model.Set {
	s.wait()
	return s.Storage.GetIndex(f)
}
func (s slow) GetDocuments(f, t string) (model.Set, bool) {
	s.wait()
	return s.Storage.GetDocuments(f, t)
}
func (s slow) GetFields(ids []string, f string) map[string]model.Field {
	s.wait()
	return s.Storage.GetFields(ids, f)
}

// searchesEv makes every search n times, all at once.
func (r *storeRun) searchesEv(a act) M {
	synctest.Wait()
	before := running()
	var seed atomic.Uint64
	seed.Store(r.rng.Uint64())
	_, one := r.searcher(r.st)
	ones := []search.Search{one, search.NewStandard(index.NewIndex(slow{r.st, &seed}))}
	answers := make([]map[string]M, len(a.Qs))
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i, q := range a.Qs {
		for j := range q {
			q[j].Ts = nonNil(q[j].Ts)
		}
		answers[i] = map[string]M{}
		for n := 0; n < a.N; n++ {
			sr := ones[min(n, 1)]
			if n > 1 && n%2 == 0 {
				sr = search.NewStandard(index.NewIndex(slow{r.st, &seed}))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						r.failed(fmt.Sprint(p, " at ", firstFrames()))
					}
				}()
				qs := make([]model.Query, len(q))
				for j, x := range q {
					qs[j] = model.Query{FieldName: r.fields.con(x.F), Boost: float64(x.B) / 10, Terms: r.ids(r.terms, x.Ts)}
				}
				var res, scores []string
				for _, x := range sr.Search(qs) {
					res = append(res, r.docs.abs(x.Id))
					scores = append(scores, fmt.Sprintf("%x", math.Float64bits(x.Score)))
				}
				mu.Lock()
				defer mu.Unlock()
				answers[i][strings.Join(res, " ")+"|"+strings.Join(scores, " ")] = M{"res": nonNil(res), "scores": nonNil(scores)}
			}()
		}
	}
	wg.Wait()
	synctest.Wait()
	left := running() - before
	list := make([][]M, len(a.Qs))
	for i, m := range answers {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		list[i] = []M{}
		for _, k := range keys {
			list[i] = append(list[i], m[k])
		}
	}
	return M{"k": "searches", "qs": nonNil(a.Qs), "answers": list, "left": left}
}

// running counts the goroutines that run the code under test.
func running() int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	count := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "goirlib/") {
			count++
		}
	}
	return count
}

func (r *storeRun) failed(what string) {
	r.failMu.Lock()
	defer r.failMu.Unlock()
	r.fails = append(r.fails, what)
}

func nonNil[T any](s []T) []T {
	if s == nil {
		return []T{}
	}
	return s
}

// capture watches the live folder and keeps an image of every state it passes.
func (r *storeRun) capture(n int, sleep func()) []*image {
	var got []*image
	seen := map[string]bool{}
	src := r.root
	w := &fsWatch{root: src}
	start := time.Now()
	add := func(part func(dir string)) {
		r.img++
		dir := filepath.Join(r.base, "img", fmt.Sprint(r.tag, r.img))
		copyTree(src, dir)
		if part != nil {
			part(dir)
		}
		key := treeKey(dir)
		if seen[key] {
			os.RemoveAll(dir)
			return
		}
		seen[key] = true
		at := int(time.Since(start) / time.Second)
		got = append(got, &image{dir: dir, key: key, ev: M{"k": "peek", "sub": false, "at": at}})
	}
	w.see = func(op fsOp) {
		add(nil)
		if (op.op == "write" || op.op == "writeat") && len(op.data) > 0 && inside(src, op.path) {
			rel, _ := filepath.Rel(src, op.path)
			for _, k := range []int{1, len(op.data) / 2, len(op.data) - 1, len(op.data)} {
				if k <= 0 {
					continue
				}
				add(func(dir string) {
					f, err := os.OpenFile(filepath.Join(dir, rel), os.O_WRONLY|os.O_APPEND, 0)
					if err != nil {
						return
					}
					f.Write(op.data[:k])
					f.Close()
				})
			}
		}
	}
	watching.Store(w)
	sleep()
	watching.Store(nil)
	hookMu.Lock()
	add(nil)
	hookMu.Unlock()
	return got
}

func (r *storeRun) step(a act) {
	switch a.K {
	case "fault":
		if r.backend == "disk" {
			synctest.Wait()
			r.fault = &fault{class: a.Class, after: a.Pick, lasting: a.Lasting, part: r.rng.Intn(1000)}
			r.emit(M{"k": "fault", "class": a.Class, "lasting": a.Lasting})
			r.arm()
		}
	case "mend":
		synctest.Wait()
		r.mend()
	case "save", "saveall":
		ds := []string{a.D}
		if a.K == "saveall" {
			ds = r.dn
		}
		for _, d := range ds {
			var nd model.NormalizedDocument
			fs := []M{}
			for _, v := range a.Fs {
				tf := map[string]int{}
				atf := M{}
				for t, n := range v.TF {
					if a.K == "saveall" {
						n = 1 + r.rng.Intn(3)
					}
					tf[r.terms.con(t)] = n
					atf[t] = n
				}
				nd.Fields = append(nd.Fields, model.Field{Name: r.fields.con(v.F), Length: v.Len, TF: tf})
				fs = append(fs, M{"f": v.F, "len": v.Len, "tf": atf})
			}
			r.mu.Lock()
			r.flight = M{"k": "save", "d": d, "fs": fs, "kept": true}
			r.mu.Unlock()
			if len(nd.Fields) == 1 && r.rng.Intn(2) == 0 {
				r.st.SaveOrUpdate(r.docs.con(d), nd.Fields[0])
			} else {
				inv, _ := r.searcher(r.st)
				inv.IndexDocument(r.docs.con(d), nd)
			}
			kept := len(nd.Fields) == len(a.Fs)
			for i := range fs {
				tf := fs[i]["tf"].(M)
				kept = kept && len(tf) == len(nd.Fields[i].TF) && nd.Fields[i].Length == a.Fs[i].Len && nd.Fields[i].Name == r.fields.con(a.Fs[i].F)
				for t, n := range tf {
					kept = kept && nd.Fields[i].TF[r.terms.con(t)] == n
				}
			}
			r.emit(M{"k": "save", "d": d, "fs": fs, "kept": kept})
		}
	case "savemany":
		// most of the documents at once, each with a field of its own
		all := M{}
		for _, i := range r.rng.Perm(len(r.dn)) {
			if r.rng.Intn(20) == 0 {
				continue
			}
			f := r.fn[r.rng.Intn(len(r.fn))]
			tf, atf, n := map[string]int{}, M{}, 0
			for _, t := range r.tn {
				if r.rng.Intn(3) > 0 {
					k := 1 + r.rng.Intn(3)
					tf[r.terms.con(t)], atf[t] = k, k
					n += k
				}
			}
			r.st.SaveOrUpdate(r.docs.con(r.dn[i]), model.Field{Name: r.fields.con(f), Length: n, TF: tf})
			all[r.dn[i]] = M{"f": f, "len": n, "tf": atf}
		}
		r.emit(M{"k": "savemany", "all": all})
	case "post":
		tf := map[string]int{}
		for _, t := range a.Ts {
			tf[r.terms.con(t)] = 1
		}
		r.st.UpdateIndex(r.docs.con(a.D), model.Field{Name: r.fields.con(a.F), Length: len(tf), TF: tf})
		r.emit(M{"k": "post", "d": a.D, "f": a.F, "ts": nonNil(a.Ts)})
	case "adv":
		time.Sleep(time.Duration(a.N) * time.Second)
		if a.N > 20 || r.rng.Intn(2) == 0 {
			synctest.Wait()
		}
		r.emit(M{"k": "adv", "n": a.N})
	case "tick":
		// exactly when what happens every so many seconds begins; it goes on during the next acts
		every := time.Duration(a.N) * time.Second
		rest := every - time.Since(r.opened)%every
		time.Sleep(rest)
		for i := r.rng.Intn(4); i > 0; i-- {
			spin(time.Duration(r.rng.Intn(100)) * time.Microsecond)
		}
		r.emit(M{"k": "adv", "n": int(rest / time.Second)})
	case "until":
		// just before the next moment at which what happens every so many seconds happens together
		every := time.Duration(a.N) * time.Second
		rest := every - time.Since(r.opened)%every - time.Duration(1+r.rng.Intn(9))*time.Second
		if rest < 0 {
			rest += every
		}
		n := int(rest / time.Second)
		time.Sleep(time.Duration(n) * time.Second)
		r.emit(M{"k": "adv", "n": n})
	case "obs":
		r.emit(M{"k": "obs", "obs": r.observe(r.st, a.Parts)})
	case "search":
		r.emit(r.searchEv(r.st, a))
	case "searches":
		r.emit(r.searchesEv(a))
	case "merged":
		if r.backend != "disk" || r.fault != nil {
			return
		}
		synctest.Wait()
		obs := M{}
		ok, msg := true, ""
		for _, f := range r.fn {
			pf := M{}
			m, err := loadMerged(r.fields.con(f), r.root)
			if err != "" {
				ok, msg = false, err
			}
			for t, set := range m {
				ds := map[string]bool{}
				for d := range set.GetData() {
					ds[r.docs.abs(d)] = true
				}
				pf[r.terms.abs(t)] = sorted(ds)
			}
			obs[f] = pf
		}
		r.emit(M{"k": "merged", "ok": ok, "err": msg, "obs": obs})
	case "reopen":
		if r.backend != "disk" {
			return
		}
		synctest.Wait()
		r.reopen(r.root, a.Cache)
	case "census":
		synctest.Wait()
		r.emit(r.census())
	case "restart":
		// what follows 36 quiet seconds is an orderly stop
		time.Sleep(36 * time.Second)
		synctest.Wait()
		r.emit(M{"k": "adv", "n": 36})
		if r.backend == "disk" {
			r.emit(r.census())
			r.reopen(r.root, a.Cache)
		}
	case "crashadv":
		if r.backend != "disk" {
			time.Sleep(time.Duration(a.N) * time.Second)
			r.emit(M{"k": "adv", "n": a.N})
			return
		}
		synctest.Wait()
		imgs := r.capture(a.N, func() {
			time.Sleep(time.Duration(a.N) * time.Second)
			synctest.Wait()
		})
		var chosen *image
		if a.Cont {
			chosen = imgs[a.Pick%len(imgs)]
		}
		keep := sampleImages(imgs, r.rng, maxImages())
		now := 0
		for _, im := range imgs {
			at := im.ev["at"].(int)
			if at > now {
				r.emit(M{"k": "adv", "n": at - now})
				now = at
			}
			if im == chosen {
				r.reopen(im.dir, a.Cache)
				return
			}
			if keep[im] {
				im.deep = r.rng.Intn(6) == 0
				r.emit(im.ev)
				r.images = append(r.images, im)
			} else {
				os.RemoveAll(im.dir)
			}
		}
		if a.N > now {
			r.emit(M{"k": "adv", "n": a.N - now})
		}
	default:
		panic("unknown act " + a.K)
	}
}

// never lets whoever waits for it wait for good, and virtual time stand still.
var never = make(chan struct{})

// fault is a failure of the file system: of one operation of its class, or of all
// from then on.
type fault struct {
	class   string
	after   int
	lasting bool
	part    int
	n       atomic.Int64
	hit     atomic.Bool
}

var faultClasses = map[string][]string{
	"any":    {"open", "opentrunc", "write", "writeat", "mkdir", "rename", "remove", "removeall", "link", "symlink", "truncate", "read"},
	"change": {"open", "opentrunc", "write", "writeat", "mkdir", "rename", "remove", "removeall", "link", "symlink", "truncate"},
	"space":  {"open", "opentrunc", "write", "writeat", "mkdir"},
	"files":  {"open", "opentrunc", "read"},
	"write":  {"write", "writeat"},
	"read":   {"read"},
	"remove": {"remove", "removeall"},
	"rename": {"rename"},
	"mkdir":  {"mkdir"},
	"create": {"open", "opentrunc"},
}

func (f *fault) fails(op, path string) error {
	in := false
	for _, c := range faultClasses[f.class] {
		in = in || c == op
	}
	if !in {
		return nil
	}
	n := int(f.n.Add(1)) - 1
	if n != f.after && (n < f.after || !f.lasting) {
		return nil
	}
	f.hit.Store(true)
	no := syscall.EIO
	if f.class == "space" {
		no = syscall.ENOSPC
	} else if f.class == "files" {
		no = syscall.EMFILE
	}
	return &os.PathError{Op: op, Path: path, Err: no}
}

// arm lets the live folder have its fault, and the store die if it asks for that.
func (r *storeRun) arm() {
	f := r.fault
	if f == nil {
		return
	}
	root := r.root
	dead := func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		return r.dead
	}
	watching.Store(&fsWatch{root: root, around: func(op fsOp, do func([]byte) error) error {
		hookMu.Lock()
		defer hookMu.Unlock()
		if dead() {
			hookMu.Unlock()
			<-never
		}
		if err := f.fails(op.op, op.path); err != nil {
			if len(op.data) > 0 {
				do(op.data[:f.part%len(op.data)])
			}
			return err
		}
		return do(op.data)
	}})
	os.VerifRead = func(path string) error {
		readFrozen(path)
		if !inside(root, path) || dead() {
			return nil
		}
		return f.fails("read", path)
	}
	os.VerifExit = func(code int) {
		hookMu.Lock()
		r.mu.Lock()
		if r.dead {
			r.mu.Unlock()
			hookMu.Unlock()
			<-never
		}
		r.dead = true
		r.mu.Unlock()
		dir := filepath.Join(r.base, "img", fmt.Sprint(r.tag, "died"))
		watching.Store(nil)
		copyTree(root, dir)
		gone := filepath.Join(r.base, "st")
		frozen.Store(&gone)
		hookMu.Unlock()
		if n := int(time.Since(r.lastAdv) / time.Second); n > 0 {
			r.events = append(r.events, M{"k": "adv", "n": n})
		}
		if r.flight != nil {
			r.events = append(r.events, r.flight)
		}
		im := &image{dir: dir, deep: true, ev: M{"k": "peek", "sub": false, "at": 0}}
		r.events = append(r.events, M{"k": "died"}, im.ev)
		r.images = append(r.images, im)
		close(r.died)
		<-never
	}
}

func (r *storeRun) mend() {
	if r.fault == nil {
		return
	}
	r.emit(M{"k": "mend", "hit": r.fault.hit.Load()})
	r.fault = nil
	r.disarm()
}

func (r *storeRun) disarm() {
	watching.Store(nil)
	os.VerifRead, os.VerifExit = readFrozen, nil
}

// census counts what the store keeps in its folder and keeps running.
func (r *storeRun) census() M {
	files, dirs := 0, 0
	filepath.Walk(r.root, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() {
			dirs++
		} else if err == nil {
			files++
		}
		return nil
	})
	return M{"k": "census", "files": files, "dirs": dirs, "running": running()}
}

func maxImages() int {
	if envTier == "thorough" {
		return 200
	}
	return 40
}

func sampleImages(imgs []*image, rng *rand.Rand, max int) map[*image]bool {
	keep := map[*image]bool{}
	for _, i := range rng.Perm(len(imgs)) {
		if len(keep) < max {
			keep[imgs[i]] = true
		}
	}
	return keep
}

func loadMerged(field, root string) (m map[string]*model.Set, err string) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Sprint("panic: ", p)
		}
	}()
	m, e := storage.LoadTermDocumentsFromIndex(field, root)
	if e != nil {
		err = e.Error()
	}
	return m, err
}

// reopen is a crash at this instant: the folder is copied, the old store goes on
// with its own folder unobserved, a new one opens the copy.
func (r *storeRun) reopen(from string, cache int) {
	r.gen++
	root := r.newRoot()
	r.disarm() // until it is armed again for the new store
	copyTree(from, root)
	r.setGuard(true)
	r.root, r.opened = root, time.Now()
	r.arm()
	st, err := openStore(root, cache)
	if err != "" && r.fault != nil && r.fault.hit.Load() {
		r.emit(M{"k": "refused", "err": err})
		r.mend()
		st, err = openStore(root, cache)
	}
	if err != "" {
		r.emit(M{"k": "reopen", "ok": false, "err": err, "obs": M{}})
		panic(stopRun{})
	}
	r.st = st
	r.emit(M{"k": "reopen", "ok": true, "err": "", "obs": r.observe(st, allParts)})
}

type stopRun struct{}

// run does the acts of the stores, in turns drawn by the first one's seed.
func runStores(rs []*storeRun, acts [][]act) {
	names := rand.New(rand.NewSource(acts[0][0].Seed))
	turns := rand.New(rand.NewSource(acts[0][0].Seed + 1))
	at := make([]int, len(rs))
	for i, r := range rs {
		if len(rs) > 1 {
			names = rand.New(rand.NewSource(acts[0][0].Seed)) // the same ones in all
		}
		r.guarded(func() bool { return r.begin(acts[i][0], names) })
		at[i] = 1
	}
	for {
		var left []int
		for i, r := range rs {
			if !r.over && at[i] < len(acts[i]) {
				left = append(left, i)
			}
		}
		if len(left) == 0 {
			break
		}
		i := left[turns.Intn(len(left))]
		r, a := rs[i], acts[i][at[i]]
		r.guarded(func() bool {
			if !r.timed(a) {
				r.bad("hang", fmt.Sprintf("act %d (%s) never ended", at[i], a.K))
				return false
			}
			return true
		})
		at[i]++
	}
	synctest.Wait()
}

func (r *storeRun) guarded(f func() bool) {
	r.over = true
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopRun); !ok {
				r.bad("panic", fmt.Sprint(p))
			}
		}
	}()
	r.over = !f()
}

func (r *storeRun) begin(b act, names *rand.Rand) bool {
	r.rng = names
	if len(r.peers) > 0 {
		r.rng = rand.New(rand.NewSource(b.Seed))
	}
	r.backend, r.lastAdv = b.Backend, time.Now()
	r.docs, r.fields, r.terms = newNames(), newNames(), newNames()
	for i := 1; i <= b.Nd; i++ {
		r.dn = append(r.dn, fmt.Sprint("d", i))
	}
	for i := 1; i <= b.Nf; i++ {
		r.fn = append(r.fn, fmt.Sprint("f", i))
	}
	for i := 1; i <= b.Nt; i++ {
		r.tn = append(r.tn, fmt.Sprint("t", i))
	}
	pool := newPool(b.Pool, names, filepath.Join(r.base, "st"))
	fill(r.docs, r.dn, pool.doc)
	fill(r.fields, r.fn, pool.field)
	fill(r.terms, r.tn, pool.term)
	r.emit(M{"k": "begin", "tid": r.id, "docs": r.dn, "fields": r.fn, "terms": r.tn,
		"backend": b.Backend, "profile": b.Profile})
	if r.backend == "disk" {
		r.root = r.newRoot()
		r.setGuard(true)
		st, err := openStore(r.root, b.Cache)
		if err != "" {
			r.bad("open", err)
			return false
		}
		r.st, r.opened = st, time.Now()
	} else {
		r.st, r.opened = storage.NewMemory(), time.Now()
	}
	return true
}

// timed does one act. Virtual time only passes while everything is blocked, so
// an act that lets an hour pass is blocked for good.
func (r *storeRun) timed(a act) bool {
	done := make(chan any, 1)
	go func() {
		defer func() {
			p := recover()
			if p != nil {
				if _, ok := p.(stopRun); !ok {
					p = fmt.Sprint(p, " at ", firstFrames())
				}
			}
			done <- p
		}()
		r.step(a)
	}()
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
		return true
	case <-timer.C:
		return false
	}
}

func firstFrames() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "goirlib/") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 4 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// openImages opens the crash images in a bubble of their own; while one marked deep
// opens, the states its folder passes are images again.
func (r *storeRun) openImages(images []*image) (sub map[*image][]*image) {
	sub = map[*image][]*image{}
	for _, im := range images {
		mark("%d image %s", r.id, im.dir)
		var st storage.Storage
		var err string
		if im.deep {
			live := r.root
			r.root = im.dir
			subs := r.capture(0, func() { st, err = openStore(im.dir, 1) })
			r.root = live
			for _, s := range subs {
				s.ev["sub"] = true
			}
			keep := sampleImages(subs, r.rng, 12)
			for _, s := range subs {
				if keep[s] {
					sub[im] = append(sub[im], s)
				} else {
					os.RemoveAll(s.dir)
				}
			}
		} else {
			st, err = openStore(im.dir, r.rng.Intn(3))
		}
		im.ev["ok"], im.ev["err"] = err == "", err
		im.ev["obs"] = M{}
		if err == "" {
			func() {
				defer func() {
					if p := recover(); p != nil {
						im.ev["ok"], im.ev["err"] = false, fmt.Sprint("panic reading: ", p)
					}
				}()
				im.ev["obs"] = r.observe(st, allParts)
			}()
		}
	}
	return sub
}

// openAll opens the crash images, and those of opening them.
func (r *storeRun) openAll(t *testing.T) {
	images := r.images
	for round := 0; len(images) > 0 && round < 2; round++ {
		var sub map[*image][]*image
		bubble(t, func() { sub = r.openImages(images) })
		var next []*image
		for _, im := range images {
			if len(sub[im]) > 0 {
				// after the image's own event
				for i, e := range r.events {
					if sameMap(e, im.ev) {
						var ins []M
						for _, s := range sub[im] {
							delete(s.ev, "at")
							ins = append(ins, s.ev)
						}
						r.events = append(r.events[:i+1], append(ins, r.events[i+1:]...)...)
						break
					}
				}
				next = append(next, sub[im]...)
			}
		}
		images = next
	}
}

// bubble runs f with a virtual clock and leaves everything it started frozen.
// It reports false if all goroutines blocked for good.
func bubble(t *testing.T, f func(), gone ...chan struct{}) {
	done := make(chan struct{})
	died := make(chan struct{})
	if len(gone) > 0 {
		died = gone[0]
	}
	go synctest.Test(t, func(t *testing.T) {
		f()
		done <- struct{}{}
		<-never
	})
	select {
	case <-done:
	case <-died:
	}
}

func TestStore(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(n int, line []byte) {
		var b struct {
			Id   int     `json:"id"`
			Acts []act   `json:"acts"`
			More [][]act `json:"more"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d run", b.Id)
		where := &site{base: filepath.Join(envScratch, fmt.Sprint("b", b.Id))}
		acts := append([][]act{b.Acts}, b.More...)
		var rs []*storeRun
		for i := range acts {
			r := &storeRun{id: b.Id, site: where, died: make(chan struct{})}
			if i > 0 {
				r.tag = string(rune('a' + i))
			}
			rs = append(rs, r)
		}
		for _, r := range rs {
			for _, p := range rs {
				if p != r {
					r.peers = append(r.peers, p)
				}
			}
		}
		os.VerifExit = nil
		takeEscapes()
		runtime.GOMAXPROCS(1 + b.Id%8)
		setYield(int64(b.Id), 1+b.Id%5)
		if b.Acts[0].Slow > 0 {
			lingering(b.Acts[0].Seed, time.Duration(b.Acts[0].Slow)*time.Microsecond)
		}
		bubble(t, func() { runStores(rs, acts) }, rs[0].died)
		watching.Store(nil)
		os.VerifRead = readFrozen // whatever else would have ended a dead process still must not
		linger.Store(nil)
		setYield(0, 0)
		guard.Store(nil)
		for _, r := range rs {
			r.openAll(t)
		}
		r := rs[0]
		for _, e := range takeEscapes() {
			r.bad("escape", e)
		}
		for _, e := range r.fails {
			r.bad("panic", e)
		}
		for _, r := range rs {
			for _, e := range r.events {
				out.put(e)
			}
		}
		out.w.Flush()
		os.RemoveAll(where.base)
	})
	os.VerifExit = nil
	mark("done")
	out.close()
	os.Exit(0)
}

// lingering makes every other change to a file take up to max of real time, while
// the other goroutines run.
func lingering(seed int64, max time.Duration) {
	var n atomic.Uint64
	n.Store(uint64(seed))
	f := func(path string) {
		x := n.Add(0x9E3779B97F4A7C15)
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 29
		if x%2 == 0 {
			return
		}
		spin(time.Duration(x >> 8 % uint64(max)))
	}
	linger.Store(&f)
}

// spin lets d of real time pass; package time shows the virtual one.
func spin(d time.Duration) {
	now := func() int64 {
		var tv syscall.Timeval
		syscall.Gettimeofday(&tv)
		return tv.Nano()
	}
	for end := now() + int64(d); now() < end; {
		runtime.Gosched()
	}
}

func sameMap(a, b M) bool { return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b) }

func fill(ns *names, abs []string, draw func(i int) string) {
	for i, a := range abs {
		for tries := 0; !ns.add(a, draw(i+tries*len(abs))); tries++ {
			if tries > 200 {
				ns.add(a, fmt.Sprintf("fallback-%s-%d", a, tries))
				break
			}
		}
	}
}
