package verifharness

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

type serialOp struct {
	K    string `json:"k"`
	Kind string `json:"kind"`
	N    int    `json:"n"`
	M    int    `json:"m"`
	Gz   bool   `json:"gz"`
	Pick int    `json:"pick"`
}

type serialAct struct {
	K     string     `json:"k"`
	Prof  string     `json:"profile"`
	Pool  string     `json:"pool"`
	Procs int        `json:"procs"`
	Seed  int64      `json:"seed"`
	Ops   []serialOp `json:"ops"`
}

type metricsVal struct {
	name         string
	size, length int32
}

// text is written down as it is, in hexadecimal or, if long, by its hash.
func textName(s string) string {
	if len(s) > 40 {
		h := fnv.New128a()
		h.Write([]byte(s))
		return fmt.Sprintf("#%d-%x", len(s), h.Sum(nil))
	}
	return "x" + hex.EncodeToString([]byte(s))
}

func describeValue(kind string, v any) M {
	out := M{}
	switch x := v.(type) {
	case map[string]map[string]bool:
		for t, ds := range x {
			l := map[string]bool{}
			for d, in := range ds {
				l[textName(d)] = true
				if !in {
					l["!not "+textName(d)] = true
				}
			}
			out[textName(t)] = sorted(l)
		}
	case map[string]model.Field:
		for k, f := range x {
			tf := M{}
			for t, n := range f.TF {
				tf[textName(t)] = n
			}
			out[textName(k)] = M{"name": textName(f.Name), "len": f.Length, "tf": tf}
		}
	case map[string]int:
		for t, n := range x {
			out[textName(t)] = n
		}
	case metricsVal:
		out = M{"name": textName(x.name), "size": x.size, "len": x.length}
	case []byte:
		return M{"kind": kind, "v": textName(string(x))}
	}
	if len(out) > 4000 { // by its entries' hash
		h := fnv.New128a()
		n := 0
		for _, k := range sorted(keySet(out)) {
			b, err := json.Marshal(out[k])
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(h, "%s %s;", k, b)
			n++
		}
		return M{"kind": kind + " in short", "v": fmt.Sprintf("%d-%x", n, h.Sum(nil))}
	}
	return M{"kind": kind, "v": out}
}

func keySet(m M) map[string]bool {
	s := make(map[string]bool, len(m))
	for k := range m {
		s[k] = true
	}
	return s
}

var someCounts = []int{0, 1, 2, 3, 127, 128, 255, 256, 32767, 65535, 65536, 1 << 24, 1<<31 - 1}

var someLengths = []int{126, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072}

var someMagic = [][]byte{{0x1f, 0x8b}, {0x1f, 0x8b, 8, 0}, {0x1f}, {0x28, 0xb5, 0x2f, 0xfd}, {0x78, 0x9c}, {0}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, []byte("raw:"), []byte("{}")}

type serialRun struct {
	rng  *rand.Rand
	pool *pool
	i    int
}

func (r *serialRun) text() string {
	r.i++
	switch r.rng.Intn(40) {
	case 0:
		n := r.rng.Intn(70000)
		if r.rng.Intn(3) > 0 {
			n = someLengths[r.rng.Intn(len(someLengths))]
		}
		b := make([]byte, n)
		r.rng.Read(b)
		return string(b)
	case 1:
		return ""
	}
	if r.rng.Intn(3) == 0 {
		return fmt.Sprint("t", r.i)
	}
	return r.pool.term(r.i)
}

func (r *serialRun) count() int { return someCounts[r.rng.Intn(len(someCounts))] }

func (r *serialRun) value(o serialOp) any {
	switch o.Kind {
	case "index":
		x := map[string]map[string]bool{}
		for i := 0; i < o.N; i++ {
			ds := map[string]bool{}
			for j := 0; j < o.M; j++ {
				ds[r.text()] = true
			}
			x[r.text()] = ds
		}
		return x
	case "docs":
		x := map[string]model.Field{}
		for i := 0; i < o.N; i++ {
			tf := map[string]int{}
			for j := 0; j < o.M; j++ {
				tf[r.text()] = r.count()
			}
			x[r.text()] = model.Field{Name: r.text(), Length: r.count(), TF: tf}
		}
		return x
	case "counts":
		x := map[string]int{}
		for i := 0; i < o.N*(1+o.M); i++ {
			x[r.text()] = r.count()
		}
		return x
	case "metrics":
		return metricsVal{r.text(), int32(r.count()), int32(r.count())}
	}
	b := make([]byte, o.N*(1+o.M))
	if r.rng.Intn(2) == 0 {
		r.rng.Read(b)
	}
	switch r.rng.Intn(12) {
	case 0: // what was compressed before
		return file.CompressData(b)
	case 1:
		return file.CompressData(file.CompressData(b))
	case 2: // the beginning of something compressed, and no more
		c := file.CompressData(b)
		return c[:r.rng.Intn(len(c))]
	case 3:
		return append(append([]byte{}, someMagic[r.rng.Intn(len(someMagic))]...), b...)
	case 4:
		b = make([]byte, someLengths[r.rng.Intn(len(someLengths))])
		if r.rng.Intn(2) == 0 {
			r.rng.Read(b)
		}
	case 5: // several compressed in a row are one stream to a gzip reader
		return append(file.CompressData(b), file.CompressData(b)...)
	}
	return b
}

func serialise(v any) []byte {
	switch x := v.(type) {
	case map[string]map[string]bool:
		return storage.SerializeIndex(x)
	case map[string]model.Field:
		return storage.SerializeFieldMap(x)
	case map[string]int:
		return storage.SerializeNumberFieldTerm(x)
	case metricsVal:
		return storage.SerializeFieldSizeLength(x.name, x.size, x.length)
	}
	return v.([]byte)
}

func deserialise(kind string, b []byte) any {
	switch kind {
	case "index":
		return storage.DeserializeIndex(b)
	case "docs":
		return storage.DeserializeFieldMap(b)
	case "counts":
		return storage.DeserializeNumberFieldTerm(b)
	case "metrics":
		n, s, l := storage.DeserializeFieldSizeLength(b)
		return metricsVal{n, s, l}
	}
	return append([]byte(nil), b...)
}

func (r *serialRun) thread(t int, ops []serialOp, put func(M)) {
	type buffer struct {
		h, kind string
		b       []byte
		gz      bool
	}
	type kept struct {
		g, kind string
		v       any
	}
	var bufs []buffer
	var got []kept
	n := 0
	for _, o := range ops {
		n++
		switch o.K {
		case "ser":
			v := r.value(o)
			x := describeValue(o.Kind, v)
			b := serialise(v)
			if o.Gz || o.Kind == "bytes" {
				c := file.CompressData(b)
				for i := range b { // the bytes belong to the caller again
					b[i] = 0xAA
				}
				b = c
			}
			h := fmt.Sprint("h", t, "-", n)
			bufs = append(bufs, buffer{h, o.Kind, b, o.Gz || o.Kind == "bytes"})
			put(M{"k": "ser", "h": h, "x": x})
		case "des":
			if len(bufs) == 0 {
				continue
			}
			b := bufs[o.Pick%len(bufs)]
			d := b.b
			if b.gz {
				d = file.DecompressData(d)
			}
			v := deserialise(b.kind, d)
			if b.gz {
				for i := range d {
					d[i] = 0x55
				}
			}
			g := fmt.Sprint("g", t, "-", n)
			got = append(got, kept{g, b.kind, v})
			put(M{"k": "des", "h": b.h, "g": g, "x": describeValue(b.kind, v)})
		case "scribble":
			if len(bufs) == 0 {
				continue
			}
			i := o.Pick % len(bufs)
			for j := range bufs[i].b {
				bufs[i].b[j] ^= 0x5A
			}
			bufs = append(bufs[:i], bufs[i+1:]...)
		case "look":
			if len(got) == 0 {
				continue
			}
			g := got[o.Pick%len(got)]
			put(M{"k": "look", "g": g.g, "x": describeValue(g.kind, g.v)})
		}
	}
	for _, g := range got {
		put(M{"k": "look", "g": g.g, "x": describeValue(g.kind, g.v)})
	}
}

func TestSerial(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(_ int, line []byte) {
		var b struct {
			Id   int         `json:"id"`
			Acts []serialAct `json:"acts"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d", b.Id)
		h := b.Acts[0]
		runtime.GOMAXPROCS(h.Procs)
		setYield(h.Seed, 2)
		out.put(M{"k": "begin", "tid": b.Id, "profile": h.Prof})
		logs := make([][]M, len(b.Acts))
		var wg sync.WaitGroup
		for i, a := range b.Acts[1:] {
			wg.Add(1)
			go func() {
				defer wg.Done()
				put := func(e M) { logs[i] = append(logs[i], e) }
				defer func() {
					if p := recover(); p != nil {
						put(M{"k": "bad", "cat": "panic", "what": fmt.Sprint(p, " at ", firstFrames())})
					}
				}()
				rng := rand.New(rand.NewSource(h.Seed + int64(i)))
				r := &serialRun{rng: rng, pool: newPool(h.Pool, rng, envScratch)}
				r.thread(i, a.Ops, put)
			}()
		}
		wg.Wait()
		setYield(0, 0)
		for _, l := range logs {
			for _, e := range l {
				out.put(e)
			}
		}
	})
	mark("done")
	out.close()
	os.Exit(0)
}
