package verifharness

import (
	"encoding/json"
	"os"
	"testing"

	"github.com/sira-serverless-ir-arch/porter2"
)

// TestWords tells the normal forms of words; an English stop word has none.
func TestWords(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(_ int, line []byte) {
		var b struct {
			Id    int      `json:"id"`
			Words []string `json:"words"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d", b.Id)
		m := M{}
		for _, w := range b.Words {
			lo := lowerWord(w)
			if stops("EN")[lo] {
				m[w] = ""
			} else {
				m[w] = foldWord(porter2.Stem(lo))
			}
		}
		out.put(M{"k": "words", "forms": m})
	})
	mark("done")
	out.close()
	os.Exit(0)
}
