package verifharness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/sira-serverless-ir-arch/goirlib/field"
)

type treeVal struct {
	T    string      `json:"t"`
	Es   []treeEntry `json:"es"`
	Kind string      `json:"kind"`
	V    int         `json:"v"`
}

type treeEntry struct {
	Key int     `json:"key"`
	Val treeVal `json:"val"`
}

type flatAct struct {
	K    string      `json:"k"`
	Nk   int         `json:"nk"`
	Seed int64       `json:"seed"`
	Prof string      `json:"profile"`
	Es   []treeEntry `json:"es"`
	Neg  bool        `json:"neg"`
	Ds   []int       `json:"ds"`
	E    int         `json:"e"`
	Form int         `json:"form"`
	V    int         `json:"v"`
}

var someKeys = strings.Split(strings.Repeat("long", 80)+"|a|b|c|Id|id|title|text|Authors|x.y|a.b|.|..||0|1|é|日本|a b| |_|$|%s|%d|\\|\"|'|/|a/b|🙂|null|true|A|aa|ab|key|Key|name|k1|k2|k3|k4", "|")

type flatRun struct {
	keys []string
	rng  *rand.Rand
}

// leaf gives a leaf's JSON text and how it is written down.
func (r *flatRun) leaf(v treeVal) (string, string) {
	switch v.Kind {
	case "null", "true", "false":
		return v.Kind, v.Kind
	case "num":
		s := fmt.Sprintf("%d.%d", v.V, 1+v.V%9)
		return s, "number " + s
	case "str":
		s := []string{"", "a.b", "text", "null", "12", "{}", "é日"}[v.V%7] + strings.Repeat("x", v.V%3)
		if v.V%100 == 0 {
			s = strings.Repeat(s+".", 300)
		}
		b, _ := json.Marshal(s)
		return string(b), "string " + s
	case "list":
		return fmt.Sprintf("[%d,\"s\",null]", v.V), fmt.Sprintf("list [%d,\"s\",null]", v.V)
	case "listobj":
		return fmt.Sprintf("[{\"a\":{\"b\":%d}},[]]", v.V), fmt.Sprintf("list [{\"a\":{\"b\":%d}},[]]", v.V)
	}
	return "[]", "list []"
}

func describe(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case float64:
		return fmt.Sprint("number ", x)
	case string:
		return "string " + x
	case []any:
		b, _ := json.Marshal(x)
		return "list " + string(b)
	}
	b, _ := json.Marshal(v)
	return fmt.Sprintf("%T %s", v, b)
}

func (r *flatRun) build(es []treeEntry, text *bytes.Buffer) M {
	ks, vs := []string{}, []M{}
	text.WriteString("{")
	for i, e := range es {
		if i > 0 {
			text.WriteString(", ")
		}
		k := r.keys[e.Key-1]
		b, _ := json.Marshal(k)
		text.Write(b)
		text.WriteString(": ")
		ks = append(ks, k)
		if e.Val.T == "obj" {
			vs = append(vs, r.build(e.Val.Es, text))
		} else {
			js, d := r.leaf(e.Val)
			text.WriteString(js)
			vs = append(vs, M{"t": "leaf", "v": d})
		}
	}
	text.WriteString("}")
	return M{"t": "obj", "ks": ks, "vs": vs}
}

// number writes ds*10^e as a JSON number in one of several forms.
func number(a flatAct) string {
	s := ""
	for _, d := range a.Ds {
		s += fmt.Sprint(d)
	}
	sign := ""
	if a.Neg {
		sign = "-"
	}
	switch {
	case a.Form == 1:
		return fmt.Sprintf("%s%se%d", sign, s, a.E)
	case a.Form == 2 && len(s) > 1:
		return fmt.Sprintf("%s%s.%sE%+d", sign, s[:1], s[1:], a.E+len(s)-1)
	case a.E >= 0:
		z := strings.Repeat("0", a.E)
		if a.Form == 3 {
			z += ".00"
		}
		return sign + s + z
	case len(s) > -a.E:
		return sign + s[:len(s)+a.E] + "." + s[len(s)+a.E:]
	}
	return sign + "0." + strings.Repeat("0", -a.E-len(s)) + s
}

func (r *flatRun) step(a flatAct) M {
	if a.K == "tree" {
		var text bytes.Buffer
		tree := r.build(a.Es, &text)
		in := field.StringToObject(text.String())
		before := field.StringToObject(text.String())
		var out []M
		for k, v := range field.Flatten(in) {
			out = append(out, M{"name": k, "v": describe(v)})
		}
		sort.Slice(out, func(i, j int) bool { return out[i]["name"].(string) < out[j]["name"].(string) })
		return M{"k": "flat", "tree": tree, "out": nonNil(out), "same": reflect.DeepEqual(in, before)}
	}
	e := M{"k": "id", "kind": a.K}
	id := ""
	switch a.K {
	case "num":
		id = number(a)
		e["neg"], e["ds"], e["e"], e["json"] = a.Neg, a.Ds, a.E, id
	case "text":
		s := append([]string{"", "0", "007", "1e6", "a/b", "%!s(int=5)", " x ", "é", "null", "1.0"}, hardNames...)[a.V%(10+len(hardNames))]
		s = strings.ToValidUTF8(s, "?")
		b, _ := json.Marshal(s)
		id = string(b)
		e["text"] = s
	case "none":
		id = []string{"", "null"}[a.V%2]
	}
	doc := `{"title": "x", "id": "other", "ID": 7}`
	if id != "" {
		doc = fmt.Sprintf(`{"title": "x", "id": "other", "Id": %s, "ID": 7}`, id)
	}
	o := field.StringToObject(doc)
	if r.rng.Intn(2) == 0 {
		o = field.Flatten(o)
	}
	e["got"] = field.GetID(o)
	return e
}

func TestFlatten(t *testing.T) {
	installHook()
	out := newOut(envOut)
	readLines(envIn, func(_ int, line []byte) {
		var b struct {
			Id   int       `json:"id"`
			Acts []flatAct `json:"acts"`
		}
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		mark("%d", b.Id)
		r := &flatRun{rng: rand.New(rand.NewSource(b.Acts[0].Seed))}
		for _, i := range r.rng.Perm(len(someKeys))[:min(b.Acts[0].Nk, len(someKeys))] {
			r.keys = append(r.keys, someKeys[i])
		}
		for len(r.keys) < b.Acts[0].Nk {
			r.keys = append(r.keys, fmt.Sprint("key ", len(r.keys)))
		}
		out.put(M{"k": "begin", "tid": b.Id, "profile": b.Acts[0].Prof})
		for _, a := range b.Acts[1:] {
			func() {
				defer func() {
					if p := recover(); p != nil {
						out.put(M{"k": "bad", "cat": "panic", "what": fmt.Sprint(p, " at ", firstFrames())})
					}
				}()
				out.put(r.step(a))
			}()
		}
	})
	mark("done")
	out.close()
	os.Exit(0)
}
