package verifharness

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
)

// A driver reads behaviours (JSON, one per line) from VERIF_IN, runs each on the
// real code and writes what happened to VERIF_OUT, one JSON event per line.
// VERIF_MARK always names the behaviour being run, for when the process dies.

type M = map[string]any

var (
	envIn      = os.Getenv("VERIF_IN")
	envOut     = os.Getenv("VERIF_OUT")
	envMark    = os.Getenv("VERIF_MARK")
	envScratch = os.Getenv("VERIF_SCRATCH")
	envTier    = os.Getenv("VERIF_TIER")
)

// TF is a term -> count object; TLC writes an empty one as [].
type TF map[string]int

func (t *TF) UnmarshalJSON(b []byte) error {
	m := map[string]int{}
	if string(b) != "[]" {
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
	}
	*t = m
	return nil
}

func readLines(path string, each func(n int, line []byte)) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<20)
	n := 0
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			each(n, line)
			n++
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			panic(err)
		}
	}
}

type Out struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
}

func newOut(path string) *Out {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (o *Out) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.w.Write(b)
	o.w.WriteByte('\n')
}

func (o *Out) close() {
	o.w.Flush()
	o.f.Close()
}

func mark(format string, a ...any) {
	if envMark != "" {
		if err := os.WriteFile(envMark, []byte(fmt.Sprintf(format, a...)), 0644); err != nil {
			panic(err)
		}
	}
}

// names maps abstract names to the text the code is given, and back.
type names struct {
	to   map[string]string
	from map[string]string
}

func newNames() *names { return &names{to: map[string]string{}, from: map[string]string{}} }

func (n *names) add(abstract, concrete string) bool {
	if _, ok := n.from[concrete]; ok {
		return false
	}
	n.to[abstract] = concrete
	n.from[concrete] = abstract
	return true
}

func (n *names) abs(concrete string) string {
	if a, ok := n.from[concrete]; ok {
		return a
	}
	return "?" + hex.EncodeToString([]byte(concrete))
}

func (n *names) con(abstract string) string {
	c, ok := n.to[abstract]
	if !ok {
		panic("no name for " + abstract)
	}
	return c
}

func sorted(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func copyTree(src, dst string) {
	err := filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if info.IsDir() {
			return os.MkdirAll(q, 0755)
		}
		b, err := os.ReadFile(p)
		if os.IsNotExist(err) {
			return nil
		}
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0644)
	})
	if err != nil {
		panic(err)
	}
}

func treeKey(root string) string {
	var b strings.Builder
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		b.WriteString(rel)
		b.WriteByte(0)
		if !info.IsDir() {
			c, _ := os.ReadFile(p)
			b.Write(c)
		}
		b.WriteByte(1)
		return nil
	})
	return b.String()
}

func silence() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
}

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_LOUD") == "" {
		silence()
	}
	os.Exit(m.Run())
}
