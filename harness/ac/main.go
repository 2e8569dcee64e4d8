// Driver for the completion properties: runs completion requests against the
// real completer, with a scripted index.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

// index is a QueryIndex holding metric -> label -> values.
type index map[string]map[string][]string

func (ix index) GetMetricNames() sets.String {
	s := sets.NewString()
	for m := range ix {
		s.Insert(m)
	}
	return s
}
func (ix index) GetStoredDimensionsForMetric(m string) sets.String {
	s := sets.NewString()
	for l := range ix[m] {
		s.Insert(l)
	}
	return s
}
func (ix index) GetStoredValuesForMetricAndDimension(m, l string) sets.String {
	return sets.NewString(ix[m][l]...)
}

type offer struct {
	V string `json:"v"`
	K string `json:"k"`
}

func complete(c autocomplete.PromQLCompleter, q string, pos int) []offer {
	res := []offer{}
	for _, m := range c.GenerateSuggestions(q, pos) {
		res = append(res, offer{m.GetValue(), m.GetKind()})
	}
	sort.Slice(res, func(i, j int) bool {
		if res[i].V != res[j].V {
			return res[i].V < res[j].V
		}
		return res[i].K < res[j].K
	})
	return res
}

func values(os []offer) []string {
	res := []string{}
	for _, o := range os {
		res = append(res, o.V)
	}
	return res
}

var indexes []index

func loadIndexes() {
	hlib.Must(json.RawMessage(os.Getenv("VERIF_INDEXES")), &indexes)
}

// gen: {"q": [bytes as latin1 string or text], "pos": n} -> sorted values
type request struct {
	Q   string `json:"q"`
	Pos int    `json:"pos"`
	Idx int    `json:"idx"`
	// every name and value of the index stands for a block of that many
	Block int `json:"block"`
}

// tail is what tells the members of a block apart.
func tail(i int) string {
	if i == 0 {
		return ""
	}
	return fmt.Sprintf("Q%04d", i)
}

var bigs = map[int]index{}

func big(n int) index {
	if ix, ok := bigs[n]; ok {
		return ix
	}
	ix := index{}
	for m, ls := range indexes[0] {
		ix[m] = map[string][]string{}
		for l, vs := range ls {
			for i := 0; i < n; i++ {
				ix[m][l+tail(i)] = nil
				for _, v := range vs {
					ix[m][l] = append(ix[m][l], v+tail(i))
				}
			}
		}
		for i := 1; i < n; i++ {
			ix[m+tail(i)] = nil
		}
	}
	bigs[n] = ix
	return ix
}

// unblock gives the members of blocks, which must all be there.
func unblock(n int, vs []string) interface{} {
	res := []string{}
	count := map[string]int{}
	for _, v := range vs {
		base, q := v, ""
		if strings.HasSuffix(v, "\"") {
			base, q = v[:len(v)-1], "\""
		}
		if i := strings.Index(base, "Q"); i >= 0 {
			base = base[:i]
		}
		if count[base+q]++; count[base+q] == 1 {
			res = append(res, base+q)
		}
	}
	for v, k := range count {
		// some words of the grammar are names too
		if k != n && !(fixed[v] && (k == 1 || k == n+1)) {
			return map[string]interface{}{"offer": v, "of its block": k, "size": n}
		}
	}
	sort.Strings(res)
	return res
}

// fixed are the words that don't come from the index
var fixed = map[string]bool{}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "one" {
		loadIndexes()
		var r request
		hlib.Must(json.RawMessage(os.Args[2]), &r)
		b, _ := json.Marshal(values(complete(earley.NewPromQLCompleter(indexes[r.Idx]), r.Q, r.Pos)))
		os.Stdout.Write(b)
		return
	}
	loadIndexes()
	// answers of one completer to one request
	hlib.Mode("gen", func(raw json.RawMessage) interface{} {
		var r request
		hlib.Must(raw, &r)
		if r.Block > 1 {
			if len(fixed) == 0 {
				var ws []string
				hlib.Must(json.RawMessage(os.Getenv("VERIF_FIXED")), &ws)
				for _, w := range ws {
					fixed[w] = true
				}
			}
			return unblock(r.Block, values(complete(earley.NewPromQLCompleter(big(r.Block)), r.Q, r.Pos)))
		}
		return values(complete(earley.NewPromQLCompleter(indexes[r.Idx]), r.Q, r.Pos))
	})
	// the same, in a process that never completed anything before
	hlib.Mode("fresh", func(raw json.RawMessage) interface{} {
		out, err := exec.Command(os.Args[0], "one", string(raw)).CombinedOutput()
		if err != nil {
			return map[string]string{"panic": string(out)}
		}
		var res []string
		hlib.Must(out, &res)
		return res
	})
	// sessions: requests to several completers, whose indexes change
	hlib.Mode("session", func(raw json.RawMessage) interface{} {
		var t struct {
			Ops []struct {
				C   int    `json:"c"`
				Op  string `json:"op"` // "ask" or "index"
				Q   string `json:"q"`
				Pos int    `json:"pos"`
				Idx int    `json:"idx"`
			} `json:"ops"`
		}
		hlib.Must(raw, &t)
		type slot struct {
			ix index
			c  autocomplete.PromQLCompleter
		}
		slots := map[int]*slot{}
		get := func(i int) *slot {
			s := slots[i]
			if s == nil {
				s = &slot{ix: index{}}
				for k, v := range indexes[0] {
					s.ix[k] = v
				}
				s.c = earley.NewPromQLCompleter(s.ix)
				slots[i] = s
			}
			return s
		}
		res := [][]string{}
		for _, op := range t.Ops {
			s := get(op.C)
			if op.Op == "index" {
				for k := range s.ix {
					delete(s.ix, k)
				}
				for k, v := range indexes[op.Idx] {
					s.ix[k] = v
				}
				continue
			}
			res = append(res, values(complete(s.c, op.Q, op.Pos)))
		}
		return res
	})
	// totality: the answer must not depend on the text after the cursor, and
	// every offer extends the partial word
	hlib.Mode("total", func(raw json.RawMessage) interface{} {
		var t struct {
			Bytes [][]byte `json:"bytes"` // the text, one element per character
			Cur   int      `json:"cur"`   // characters before the cursor
			Word  int      `json:"word"`  // characters of the partial word
			After [][]byte `json:"after"` // other texts to put after the cursor
		}
		hlib.Must(raw, &t)
		var before, rest, word strings.Builder
		for i, b := range t.Bytes {
			if i < t.Cur {
				before.Write(b)
			} else {
				rest.Write(b)
			}
			if i >= t.Cur-t.Word && i < t.Cur {
				word.Write(b)
			}
		}
		c := earley.NewPromQLCompleter(indexes[0])
		q := before.String()
		first := complete(c, q+rest.String(), len(q))
		for _, o := range first {
			if o.K != "time-unit" && !strings.HasPrefix(o.V, word.String()) {
				return map[string]interface{}{"stray": o, "word": word.String(), "text": q}
			}
		}
		for _, a := range append(t.After, nil) {
			again := complete(c, q+string(a), len(q))
			x, _ := json.Marshal(first)
			y, _ := json.Marshal(again)
			if string(x) != string(y) {
				return map[string]interface{}{"differs": string(a), "text": q, "first": first, "then": again}
			}
		}
		return "ok"
	})
	hlib.Main()
}
