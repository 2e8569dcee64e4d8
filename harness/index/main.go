// Driver for the completion index.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

func list(s sets.String) []string {
	res := []string{}
	for k := range s {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

var allNames = []string{"m", "n", "o", "a", "", "unknown", "x"}
var allDims = []string{"a", "b", "le", "m", "__name__", "unknown"}

// spelling says what the specification's words are in the concrete
type spelling map[string]string

func (sp spelling) to(s string) string {
	if c, ok := sp[s]; ok {
		return c
	}
	return s
}

func (sp spelling) from(ss []string) []string {
	res := []string{}
	for _, s := range ss {
		word := ""
		for w, c := range sp {
			if c == s {
				word = w
			}
		}
		if word == "" {
			word = s
			if sp.to(s) != s {
				word = "not spelled so: " + s
			}
		}
		res = append(res, word)
	}
	sort.Strings(res)
	return res
}

type spellings struct{ N, D, V spelling }

func observe(ix prom.Indexer, sp spellings) interface{} {
	dims := [][]interface{}{}
	values := [][]interface{}{}
	for _, m := range allNames {
		dims = append(dims, []interface{}{m, sp.D.from(list(ix.GetStoredDimensionsForMetric(sp.N.to(m))))})
		for _, d := range allDims {
			values = append(values, []interface{}{m, d, sp.V.from(list(ix.GetStoredValuesForMetricAndDimension(sp.N.to(m), sp.D.to(d))))})
		}
	}
	return hlib.J{"names": sp.N.from(list(ix.GetMetricNames())), "dims": dims, "values": values}
}

func scribbleOn(s sets.String) {
	for k := range s {
		delete(s, k)
		break
	}
	if s != nil {
		s["zz_scribble"] = sets.Empty{}
	}
}

func history(raw json.RawMessage) interface{} {
	var t struct {
		H []struct {
			Op string
			I  int
			O  bool
		}
		spellings
	}
	hlib.Must(raw, &t)
	var meta struct{ LS []map[string]string }
	meta.LS = parseLS(os.Args[4])
	ix := prom.NewIndex()
	var obs []interface{}
	type held struct {
		s   sets.String
		was []string
	}
	var holds []held
	hold := func(s sets.String) {
		holds = append(holds, held{s, list(s)})
	}
	for n, e := range t.H {
		switch e.Op {
		case "ingest":
			concrete := map[string]string{}
			for l, v := range meta.LS[e.I-1] {
				if l == "__name__" {
					concrete[l] = t.N.to(v)
				} else {
					concrete[t.D.to(l)] = t.V.to(v)
				}
			}
			ls := labels.FromMap(concrete)
			ix.UpdateMetric(prom.ParsedSeries{Labels: ls, Value: float64(n), Timestamp: int64(1000 + n)})
			// the caller may reuse its label set afterwards
			for k := range ls {
				ls[k] = labels.Label{Name: "zz", Value: "zz"}
			}
		case "scribble":
			for _, m := range allNames {
				switch e.I {
				case 1:
					scribbleOn(ix.GetMetricNames())
				case 2:
					scribbleOn(ix.GetStoredDimensionsForMetric(t.N.to(m)))
				case 3:
					for _, d := range allDims {
						scribbleOn(ix.GetStoredValuesForMetricAndDimension(t.N.to(m), t.D.to(d)))
					}
				}
			}
		}
		if e.O {
			obs = append(obs, observe(ix, t.spellings))
		}
		hold(ix.GetMetricNames())
		for _, m := range allNames {
			hold(ix.GetStoredDimensionsForMetric(t.N.to(m)))
			for _, d := range allDims {
				hold(ix.GetStoredValuesForMetricAndDimension(t.N.to(m), t.D.to(d)))
			}
		}
	}
	for _, h := range holds {
		if fmt.Sprint(list(h.s)) != fmt.Sprint(h.was) {
			return fmt.Sprintf("a returned collection changed from %v to %v", h.was, list(h.s))
		}
	}
	return obs
}

// blocks: the same behaviours, with every value, label name or metric name of
// the specification standing for a block of concrete ones
func blocks(raw json.RawMessage) (res interface{}) {
	var t struct {
		H []struct {
			Op string
			I  int
			O  bool
		}
		Names, Dims, Values int // block sizes
		Pad                 int // length of what every word ends in
	}
	hlib.Must(raw, &t)
	lss := parseLS(os.Args[4])
	ix := prom.NewIndex()
	pad := strings.Repeat("p", t.Pad)
	el := func(s string, k int) string { return s + pad + "#" + strconv.Itoa(k) }
	var odd []string
	abstract := func(s sets.String, n int, what string) []string {
		count := map[string]int{}
		for e := range s {
			i := strings.LastIndex(e, "#")
			k := -1
			if i >= 0 {
				k, _ = strconv.Atoi(e[i+1:])
			}
			if k < 0 || k >= n || !strings.HasSuffix(e[:i], pad) || e != el(e[:i-len(pad)], k) {
				odd = append(odd, what+": unexpected "+e)
				continue
			}
			count[e[:i-len(pad)]]++
		}
		res := []string{}
		for b, c := range count {
			if c != n {
				odd = append(odd, fmt.Sprintf("%s: %d of the %d elements standing for %q", what, c, n, b))
			}
			res = append(res, b)
		}
		sort.Strings(res)
		return res
	}
	same := func(got []string, want []string, what string) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			odd = append(odd, fmt.Sprintf("%s: %v instead of %v", what, got, want))
		}
	}
	var obs []interface{}
	type held struct {
		s sets.String
		n int
	}
	var holds []held
	defer func() {
		for _, h := range holds {
			if len(h.s) != h.n {
				res = fmt.Sprintf("a returned collection of %d elements has %d now", h.n, len(h.s))
			}
		}
	}()
	for _, e := range t.H {
		if e.Op == "scribble" {
			scribbleOn(ix.GetMetricNames())
			for _, m := range allNames {
				scribbleOn(ix.GetStoredDimensionsForMetric(el(m, 0)))
				for _, d := range allDims {
					scribbleOn(ix.GetStoredValuesForMetricAndDimension(el(m, 0), el(d, 0)))
				}
			}
		} else if len(holds) < 200 {
			hold := func(s sets.String) { holds = append(holds, held{s, len(s)}) }
			hold(ix.GetMetricNames())
			hold(ix.GetStoredDimensionsForMetric(el("m", 0)))
			hold(ix.GetStoredValuesForMetricAndDimension(el("m", 0), el("a", 0)))
		}
		if e.Op == "ingest" {
			for n := 0; n < t.Names; n++ {
				for v := 0; v < t.Values; v++ {
					m := map[string]string{}
					for l, val := range lss[e.I-1] {
						if l == "__name__" {
							m[l] = el(val, n)
							continue
						}
						for d := 0; d < t.Dims; d++ {
							m[el(l, d)] = el(val, v)
						}
					}
					ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromMap(m)})
				}
			}
		}
		if !e.O {
			continue
		}
		names := abstract(ix.GetMetricNames(), t.Names, "names")
		dims := [][]interface{}{}
		values := [][]interface{}{}
		for _, m := range allNames {
			dm := abstract(ix.GetStoredDimensionsForMetric(el(m, 0)), t.Dims, "labels of "+m)
			same(abstract(ix.GetStoredDimensionsForMetric(el(m, t.Names-1)), t.Dims, "labels of "+m), dm, "labels of "+m)
			dims = append(dims, []interface{}{m, dm})
			for _, d := range allDims {
				vs := abstract(ix.GetStoredValuesForMetricAndDimension(el(m, 0), el(d, 0)), t.Values, "values of "+m+" "+d)
				same(abstract(ix.GetStoredValuesForMetricAndDimension(el(m, t.Names-1), el(d, t.Dims-1)), t.Values, "values of "+m+" "+d), vs, "values of "+m+" "+d)
				values = append(values, []interface{}{m, d, vs})
			}
		}
		o := hlib.J{"names": names, "dims": dims, "values": values}
		obs = append(obs, o)
		if odd != nil {
			if len(odd) > 5 {
				odd = odd[:5]
			}
			return odd
		}
	}
	return obs
}

func parseLS(s string) []map[string]string {
	var raw struct{ LS []json.RawMessage }
	hlib.Must([]byte(s), &raw)
	var res []map[string]string
	for _, r := range raw.LS {
		m := map[string]string{}
		if string(r) != "[]" {
			hlib.Must(r, &m)
		}
		res = append(res, m)
	}
	return res
}

// concurrent: writers ingest their plans while readers read; every read is
// recorded together with the writers' progress around it.
func concurrent(raw json.RawMessage) interface{} {
	var t struct {
		Plan    [][]map[string]string
		Readers int
		Reads   int
		Kinds   [][3]string // kind, metric, dimension
		Pad     int         // further series of other metrics, to stretch the updates
		Record  bool
		Seed    int64
	}
	hlib.Must(raw, &t)
	ix := prom.NewIndex()
	begun := make([]int32, len(t.Plan))
	done := make([]int32, len(t.Plan))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range t.Plan {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(t.Seed + int64(w)))
			var lss []labels.Labels
			for _, m := range t.Plan[w] {
				lss = append(lss, labels.FromMap(m))
			}
			<-start
			for k, ls := range lss {
				time.Sleep(time.Duration(rnd.Intn(60)) * time.Microsecond)
				if t.Record {
					atomic.StoreInt32(&begun[w], int32(k+1))
				}
				ix.UpdateMetric(prom.ParsedSeries{Labels: ls, Value: 1, Timestamp: int64(k)})
				if t.Record {
					atomic.StoreInt32(&done[w], int32(k+1))
				}
				ix.UpdateMetric(prom.ParsedSeries{Labels: ls, Value: 2, Timestamp: int64(k)})
			}
		}(w)
	}
	type rec struct {
		kind   int
		lo, hi []int32
		s      sets.String
		r      []string
	}
	recs := make([][]rec, t.Readers)
	snap := func(v []int32) []int32 {
		res := make([]int32, len(v))
		for i := range v {
			res[i] = atomic.LoadInt32(&v[i])
		}
		return res
	}
	for r := 0; r < t.Readers; r++ {
		wg.Add(1)
		go func(r int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(t.Seed*31 + int64(r)))
			<-start
			for n := 0; n < t.Reads; n++ {
				k := rnd.Intn(len(t.Kinds))
				kd := t.Kinds[k]
				var lo, hi []int32
				if t.Record {
					lo = snap(done)
				}
				var s sets.String
				switch kd[0] {
				case "names":
					s = ix.GetMetricNames()
				case "dims":
					s = ix.GetStoredDimensionsForMetric(kd[1])
				case "values":
					s = ix.GetStoredValuesForMetricAndDimension(kd[1], kd[2])
				}
				if t.Record {
					hi = snap(begun)
					recs[r] = append(recs[r], rec{k, lo, hi, s, list(s)})
				} else {
					// use, and then change, what was returned
					list(s)
					scribbleOn(s)
				}
			}
		}(r)
	}
	close(start)
	wg.Wait()
	if !t.Record {
		return observeAll(ix, t.Kinds)
	}
	var out []interface{}
	for r := range recs {
		var evs []interface{}
		last := ""
		for _, e := range recs[r] {
			ev := hlib.J{"kind": t.Kinds[e.kind][0], "m": t.Kinds[e.kind][1], "d": t.Kinds[e.kind][2],
				"lo": e.lo, "hi": e.hi, "r": e.r, "later": list(e.s)}
			b, _ := json.Marshal(ev)
			if string(b) == last { // the same read again says nothing new
				continue
			}
			last = string(b)
			evs = append(evs, ev)
		}
		out = append(out, evs)
	}
	return out
}

func observeAll(ix prom.Indexer, kinds [][3]string) interface{} {
	res := [][]string{}
	for _, kd := range kinds {
		switch kd[0] {
		case "names":
			res = append(res, list(ix.GetMetricNames()))
		case "dims":
			res = append(res, list(ix.GetStoredDimensionsForMetric(kd[1])))
		case "values":
			res = append(res, list(ix.GetStoredValuesForMetricAndDimension(kd[1], kd[2])))
		}
	}
	return res
}

func main() {
	hlib.Mode("history", history)
	hlib.Mode("blocks", blocks)
	hlib.Mode("concurrent", concurrent)
	hlib.Main()
}
