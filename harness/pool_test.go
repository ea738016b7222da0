package verifharness

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
)

// Texts that the abstract documents, fields and terms stand for.

type pool struct {
	kind string
	rng  *rand.Rand
	base string
	off  [3]int
}

func newPool(kind string, rng *rand.Rand, base string) *pool {
	abs, _ := filepath.Abs(base)
	return &pool{kind: kind, rng: rng, base: abs, off: [3]int{rng.Intn(1000), rng.Intn(1000), rng.Intn(1000)}}
}

var hardNames = []string{
	"a", "A", "b", "a/b", "a%2Fb", "a%2fb", "a_b", "a\\b", "..", ".", "...", "../x", "../../x", "../../../../x", "./a", "a/../b", "a/", "/a",
	"%", "%%", "%25", "%2F", "%64ocs", "docs", "docs/metrics", "metrics", "index", "temp", "nfterm", "raw", "temp/x",
	"x", "x_temp", "index_temp", "metrics_temp", "x%temp-1", "x_old", "x.tmp", "x.bak", "x~", ".x", ".temp", "con", "nul",
	"", " ", "  ", " a", "a ", "\t", "\n", "a\nb", "a\x00b", "\x00", "a b", "'", "\"", "*", "?", ":", "|", "<>", "&amp;", "a+b", "a%20b", "a.b", "a..b",
	"é", "e\u0301", "ação", "日本語", "🙂", "ı", "İ", "ß", "\u202e", "\xff", "\xff\xfe", "a\xffb", "id", "Id", "ID", "title", "Title", "text",
	"0", "00", "1", "-1", "1e6", "true", "null", "{}", "$HOME", "~", "-rf", "--", "#", "a#b", ";ls", "..%2f", "%2e%2e", "%00", "%-", "%-a",
	"documento", "documento/1", "http://a.b/c?d=e&f=g", "C:\\x", "\\\\x\\y", "aux.txt", "NFTERM", "Index", "TEMP", "DOCS", "Docs", "docs ", " docs", "docs/", "./docs", "docs.", ".docs",
}

func (p *pool) hard(slot, i, max int) string {
	k := p.off[slot] + i
	if p.rng.Intn(4) == 0 {
		k = p.rng.Intn(1 << 20)
	}
	n := len(hardNames)
	switch {
	case p.rng.Intn(12) == 0: // long ones that share a long beginning
		l := []int{150, 199, 200, 201, 250, 254, 255, 256, 300, 600}[p.rng.Intn(10)]
		c := []string{"a", "/", "%", "é", "."}[p.rng.Intn(5)]
		s := strings.Repeat(c, l)[:l] + fmt.Sprint(p.rng.Intn(3))
		if len(s) > max {
			s = s[len(s)-max:]
		}
		return s
	case slot == 0 && p.rng.Intn(30) == 0: // an absolute path, still in the scratch folder
		return filepath.Join(p.base, "outside", fmt.Sprint(p.rng.Intn(3)))
	case p.rng.Intn(8) == 0:
		s := hardNames[k%n] + hardNames[p.rng.Intn(n)]
		if len(s) <= max {
			return s
		}
	}
	return hardNames[k%n]
}

func (p *pool) doc(i int) string {
	switch p.kind {
	case "hard":
		return p.hard(0, i, 1<<20)
	case "alike": // every name is another's name with something added
		return []string{"x", "x_temp", "x_temp_temp", "x%temp", "x_", "x.", "x/", "X", "x%2F", "_x"}[(p.off[0]+i)%10]
	}
	return fmt.Sprint([]string{"doc", "d", "article-", "100"}[p.off[0]%4], i)
}

func (p *pool) field(i int) string {
	switch p.kind {
	case "hard":
		return p.hard(1, i, 200/3)
	case "alike":
		return []string{"docs", "docs_temp", "title", "title.main", "title/main", "Title", "temp", "metrics", "%64ocs", "index"}[(p.off[1]+i)%10]
	}
	return []string{"title", "text", "author", "body", "summary", "id", "k", "place"}[(p.off[1]+i)%8] + strings.Repeat("_", i/8)
}

func (p *pool) term(i int) string {
	switch p.kind {
	case "hard":
		return p.hard(2, i, 1<<20)
	case "digests":
		return digestNames()[(p.off[2]+i)%len(digestNames())]
	}
	return fmt.Sprint([]string{"galaxi", "swift", "t", "term", "cação"}[(p.off[2]+i)%5], i)
}
