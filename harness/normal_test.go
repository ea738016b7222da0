package verifharness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"unicode"

	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/porter2"
	"golang.org/x/text/unicode/norm"
)

// What the filters do to one word.

func lowerWord(w string) string {
	var b strings.Builder
	for _, r := range w {
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

func foldWord(w string) string {
	var b strings.Builder
	for _, r := range norm.NFD.String(w) {
		if !unicode.Is(unicode.Mn, r) {
			b.WriteRune(r)
		}
	}
	return norm.NFC.String(b.String())
}

func asciiCase(w string, rng *rand.Rand) string {
	b := []byte(w)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z' && rng.Intn(2) == 0:
			b[i] = c - 32
		case c >= 'A' && c <= 'Z' && rng.Intn(2) == 0:
			b[i] = c + 32
		}
	}
	return string(b)
}

var stopWords map[string]map[string]bool

func stops(lang string) map[string]bool {
	if stopWords == nil {
		b, err := os.ReadFile(os.Getenv("VERIF_STOPWORDS"))
		if err != nil {
			panic(err)
		}
		var l map[string][]string
		if err := json.Unmarshal(b, &l); err != nil {
			panic(err)
		}
		stopWords = map[string]map[string]bool{}
		for k, ws := range l {
			stopWords[k] = map[string]bool{}
			for _, w := range ws {
				stopWords[k][w] = true
			}
		}
	}
	return stopWords[lang]
}

var someWords = strings.Fields(`galaxy galaxies Galaxy swift running runs ran runner happily happiness nationalization skies sky dying news
 don't boys' boy's 's ' '' x'y The THE AND and não Não NÃO ação AÇÃO cação coração à às É é você Você está naïve café CAFÉ résumé Ångström
 ÉCOLE straße STRASSE İstanbul ıĞ ΟΔΟΣ Σίσυφος Ωμέγα привет ЁЛКА йод 東京 がぎぐ 가나다 한국어 ﬁne Ǆ ǅ ªº ²³ 1234 007 3rd a i o yyy youth yes 'yes
 sses ied ies cried ties generally arsenal commune exceed proceed succeed inning outing earring herring bed feed agreed luxuriat hop hopping
 hoping falling fizzed at are is of with will sem nos para com uma Pelo PELO`)

func vocabulary(n int, rng *rand.Rand) []string {
	var stop []string
	for _, l := range []string{"EN", "PT"} {
		ws := map[string]bool{}
		for w := range stops(l) {
			ws[w] = true
		}
		stop = append(stop, sorted(ws)...)
	}
	voc := map[string]bool{}
	var said []string
	for tries := 0; len(voc) < n && tries < 20*n; tries++ {
		var w string
		switch rng.Intn(10) {
		case 8, 9: // like another one, but for a letter
			if len(said) == 0 {
				continue
			}
			r := []rune(said[rng.Intn(len(said))])
			if len(r) == 0 {
				continue
			}
			at := rng.Intn(len(r))
			switch rng.Intn(5) {
			case 0:
				r = append(r[:at], r[at+1:]...)
			case 1:
				r = append(r[:at], append([]rune{draw(rng, "L")}, r[at:]...)...)
			default:
				r[at] = 'a' + rune(rng.Intn(26))
			}
			w = string(r)
		case 0, 1, 2:
			w = someWords[rng.Intn(len(someWords))]
		case 3:
			w = stop[rng.Intn(len(stop))]
			if rng.Intn(3) == 0 {
				w = strings.ToUpper(w)
			}
		case 4, 5: // made of endings
			for i := rng.Intn([]int{3, 3, 6, 12}[rng.Intn(4)]); i >= 0; i-- {
				w += []string{"hop", "ing", "ed", "ly", "s", "ation", "al", "ity", "y", "sk", "'s", "eed", "ful", "ness", "Z", "e"}[rng.Intn(16)]
			}
		case 6: // any letters
			for i := rng.Intn(12); i >= 0; i-- {
				w += string(draw(rng, []string{"L", "L", "N", "Q"}[rng.Intn(4)]))
			}
		case 7:
			if rng.Intn(4) == 0 {
				w = strings.Repeat([]string{"a", "é", "ing", "ção", "y'"}[rng.Intn(5)], 1+rng.Intn(3000))
			} else if rng.Intn(4) == 0 {
				w = ""
			} else {
				w = asciiCase(someWords[rng.Intn(len(someWords))], rng)
			}
		}
		voc[w] = true
		said = append(said, w)
	}
	return sorted(voc)
}

type normalRun struct {
	ns  *names
	rng *rand.Rand
	mu  sync.Mutex
}

func (n *normalRun) id(w string) string {
	if a, ok := n.ns.from[w]; ok {
		return a
	}
	a := fmt.Sprint("w", len(n.ns.from)+1)
	n.ns.add(a, w)
	return a
}

func (n *normalRun) idsOf(ws []string) []string {
	out := []string{}
	for _, w := range ws {
		out = append(out, n.id(w))
	}
	return out
}

// table tells what becomes of the words, and of what becomes of them.
func (n *normalRun) table(ws []string) M {
	t := M{}
	var add func(w string, depth int)
	add = func(w string, depth int) {
		id := n.id(w)
		if _, ok := t[id]; ok && depth == 0 {
			return
		}
		lo, st, fo := lowerWord(w), porter2.Stem(w), foldWord(w)
		t[id] = M{"lower": n.id(lo), "stem": n.id(st), "fold": n.id(fo), "en": stops("EN")[w], "pt": stops("PT")[w]}
		if depth > 0 {
			add(lo, depth-1)
			add(st, depth-1)
			add(fo, depth-1)
		}
	}
	for _, w := range ws {
		add(w, 0)
		add(lowerWord(w), 0)
		add(porter2.Stem(lowerWord(w)), 0)
	}
	return t
}

func newFilter(k string) []filter.Filter {
	switch k {
	case "lower":
		return []filter.Filter{filter.NewLowercase()}
	case "stop_en":
		return []filter.Filter{filter.NewStopWords(language.GetWords(language.English))}
	case "stop_pt":
		return []filter.Filter{filter.NewStopWords(language.GetWords(language.Portuguese))}
	case "stem":
		return []filter.Filter{filter.NewStemmer(stemmer.Snowball)}
	case "fold":
		return []filter.Filter{filter.NewASCII()}
	}
	return []filter.Filter{filter.NewLowercase(), filter.NewStopWords(language.GetWords(language.English)),
		filter.NewStemmer(stemmer.Snowball), filter.NewASCII()}
}

func apply(fs []filter.Filter, ws []string) []string {
	ws = append([]string(nil), ws...)
	for _, f := range fs {
		ws = f.Process(ws)
	}
	return ws
}

func TestNormal(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(_ int, line []byte) {
		var b struct {
			Id   int `json:"id"`
			Acts []struct {
				K     string  `json:"k"`
				Nv    int     `json:"nv"`
				Seed  int64   `json:"seed"`
				Procs int     `json:"procs"`
				Prof  string  `json:"profile"`
				Lists [][]int `json:"lists"`
			} `json:"acts"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d", b.Id)
		h := b.Acts[0]
		n := &normalRun{ns: newNames(), rng: rand.New(rand.NewSource(h.Seed))}
		runtime.GOMAXPROCS(h.Procs)
		setYield(h.Seed, 1+int(h.Seed%4))
		voc := vocabulary(h.Nv, n.rng)
		out.put(M{"k": "begin", "tid": b.Id, "profile": h.Prof})
		bad := func(what string) {
			n.mu.Lock()
			defer n.mu.Unlock()
			out.put(M{"k": "bad", "cat": "panic", "what": what})
		}
		kept := map[string][]filter.Filter{}
		for _, a := range b.Acts[1:] {
			lists := make([][]string, len(a.Lists))
			for i, l := range a.Lists {
				for _, w := range l {
					lists[i] = append(lists[i], voc[(w-1)%len(voc)])
				}
			}
			if a.K == "freq" {
				for _, l := range lists {
					m := M{}
					for w, c := range metric.TermFrequency(l) {
						m[n.id(w)] = c
					}
					out.put(M{"k": "freq", "in": n.idsOf(l), "out": m})
				}
				continue
			}
			kind := a.K
			if kind == "same" {
				kind = "all"
				for _, l := range lists[:len(lists):len(lists)] {
					other := make([]string, len(l))
					for i, w := range l {
						other[i] = asciiCase(w, n.rng)
					}
					lists = append(lists, other)
				}
			}
			res := make([][]string, len(lists))
			fs := kept[kind]
			if fs == nil {
				fs = newFilter(kind)
				if h.Seed%3 > 0 { // the same filters all along
					kept[kind] = fs
				}
			}
			var wg sync.WaitGroup
			for i := range lists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							bad(fmt.Sprint(p, " at ", firstFrames()))
						}
					}()
					res[i] = apply(fs, lists[i])
				}()
			}
			wg.Wait()
			for i, l := range lists {
				if a.K == "same" {
					if i < len(lists)/2 {
						out.put(M{"k": "same", "in": n.idsOf(l), "out": n.idsOf(res[i]), "other": n.idsOf(res[i+len(lists)/2])})
					}
					continue
				}
				out.put(M{"k": "call", "f": kind, "in": n.idsOf(l), "out": n.idsOf(res[i]), "table": n.table(l)})
			}
		}
		setYield(0, 0)
	})
	mark("done")
	out.close()
	os.Exit(0)
}
