package verifharness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
)

// Characters by class, drawn from the Unicode tables.

func classOf(r rune) string {
	switch {
	case r == '\'':
		return "Q"
	case unicode.Is(unicode.Categories["L"], r):
		return "L"
	case unicode.Is(unicode.Categories["N"], r):
		return "N"
	case unicode.Is(unicode.Categories["M"], r):
		return "M"
	case unicode.Is(unicode.Categories["Z"], r) || r == '\t' || r == '\n' || r == '\r':
		return "S"
	case unicode.Is(unicode.Categories["P"], r) || unicode.Is(unicode.Categories["S"], r):
		return "P"
	}
	return "C"
}

var byClass map[string][]rune

func classes() map[string][]rune {
	if byClass == nil {
		byClass = map[string][]rune{}
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			c := classOf(r)
			byClass[c] = append(byClass[c], r)
		}
	}
	return byClass
}

var common = map[string][]rune{
	"L": []rune("abzAZéÉçãßİıжΩ漢あ가ªʰǅﬁ𝒜𐍈"), "N": []rune("0189²½Ⅷ①٣०〇௰𝟘"), "Q": []rune("'"), "S": []rune(" \t\n\r\u00a0\u2028\u3000"),
	"P": []rune(".,-_/\\\"’‘`´%&@#+=<>|$€…–—·׳🙂"), "M": []rune("\u0301\u0327\u093e\u20dd\ufe0f"), "C": []rune("\x00\x01\x7f\u00ad\u200b\u200d\ufeff\ue000"),
}

func draw(rng *rand.Rand, class string) rune {
	if class == "X" {
		return -1
	}
	if rng.Intn(2) == 0 {
		return common[class][rng.Intn(len(common[class]))]
	}
	c := classes()[class]
	return c[rng.Intn(len(c))]
}

func textOf(cp []rune, rng *rand.Rand) string {
	var b strings.Builder
	for _, r := range cp {
		if r == -1 {
			b.WriteByte([]byte{0xff, 0xfe, 0xc0}[rng.Intn(3)])
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func points(s string) []int {
	out := []int{}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			r = -1
		}
		out = append(out, int(r))
		i += n
	}
	return out
}

func tokenize(s string) (toks []string, failed string) {
	defer func() {
		if p := recover(); p != nil {
			failed = fmt.Sprint(p)
		}
	}()
	return tokenizer.NewStandard().Tokenize(s), ""
}

// TestTokens: each behaviour is a text as classes of characters, or a sweep.
func TestTokens(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(n int, line []byte) {
		var b struct {
			Id   int      `json:"id"`
			Acts []string `json:"acts"`
			Seed int64    `json:"seed"`
			Reps int      `json:"reps"`
			Rep  int      `json:"rep"`
			K    string   `json:"k"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d", b.Id)
		if b.K == "sweep" {
			out.put(sweep(b.Id))
			return
		}
		rng := rand.New(rand.NewSource(b.Seed))
		for k := 0; k < b.Reps; k++ {
			cls := b.Acts
			for i := 0; i < b.Rep; i++ { // a longer text of the same kinds
				if b.Rep > 5000 && rng.Intn(100) == 0 { // with long words and long gaps
					c := b.Acts[rng.Intn(len(b.Acts))]
					for n := rng.Intn(b.Rep / 2); n > 0 && i < b.Rep; n-- {
						cls = append(cls, c)
						i++
					}
				}
				cls = append(cls[:len(cls):len(cls)], b.Acts[rng.Intn(len(b.Acts))])
			}
			cp := make([]rune, len(cls))
			for i, c := range cls {
				cp[i] = draw(rng, c)
			}
			text := textOf(cp, rng)
			toks, failed := tokenize(text)
			if failed != "" {
				out.put(M{"k": "bad", "tid": b.Id, "cat": "panic", "what": failed})
				continue
			}
			list := [][]int{}
			for _, x := range toks {
				list = append(list, points(x))
			}
			out.put(M{"k": "text", "tid": b.Id, "cls": nonNil(cls), "cp": nonNil(cp), "toks": list})
		}
	})
	mark("done")
	out.close()
	os.Exit(0)
}

func sweep(id int) M {
	var joins, words [][2]int
	strange := []int{}
	add := func(l [][2]int, r int) [][2]int {
		if n := len(l); n > 0 && l[n-1][1] == r-1 {
			l[n-1][1] = r
			return l
		}
		return append(l, [2]int{r, r})
	}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		s := "a" + string(r) + "b"
		toks, failed := tokenize(s)
		switch {
		case failed == "" && len(toks) == 1 && toks[0] == s:
			joins = add(joins, int(r))
		case failed == "" && len(toks) == 2 && toks[0] == "a" && toks[1] == "b":
		default:
			strange = append(strange, int(r))
		}
		if c := classOf(r); c == "L" || c == "N" || c == "Q" {
			words = add(words, int(r))
		}
	}
	if len(strange) > 50 {
		strange = strange[:50]
	}
	return M{"k": "sweep", "tid": id, "joins": joins, "words": words, "strange": strange}
}
