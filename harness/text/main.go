// Driver for parsing expositions and rendering results.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
	"sigs.k8s.io/instrumentation-tools/zzverif/rb"
)

var nows = []time.Time{
	time.Unix(1600000000, 123456789),
	time.Unix(7, 5999999),
	time.Unix(1700000000, 999999),
	time.Unix(1600000000, 999000000).In(time.FixedZone("x", 3600)),
	time.Unix(4102444800, 1),
}
var nowMs = []int64{1600000000123, 7005, 1700000000000, 1600000000999, 4102444800000}

func parse(raw json.RawMessage) interface{} {
	var t struct {
		Text []string
		Ex   json.RawMessage
		Now  int
		NL   bool
		Rep  int // the document this many times over
		Pre  int // so many sample lines come first
	}
	hlib.Must(raw, &t)
	ex := map[string]string{}
	if string(t.Ex) != "[]" {
		hlib.Must(t.Ex, &ex)
	}
	text := strings.Join(t.Text, "\n")
	if t.NL && len(t.Text) > 0 {
		text += "\n"
	}
	if t.Rep > 1 {
		text = strings.Repeat(strings.TrimSuffix(text, "\n")+"\n", t.Rep-1) + text
	}
	if t.Pre > 0 {
		b := &strings.Builder{}
		for i := 0; i < t.Pre; i++ {
			fmt.Fprintf(b, "first{_k=\"%d\"} %d %d\n", i, i, i+5)
		}
		text = b.String() + text
	}
	data := []byte(text)
	var got []prom.ParsedSeries
	var err error
	exBefore := fmt.Sprint(ex)
	if len(ex) == 0 && t.Now%2 == 0 {
		got, err = prom.ParseTextData(data, nows[t.Now])
	} else {
		got, err = prom.ParseTextDataWithAdditionalLabels(data, nows[t.Now], ex)
	}
	if fmt.Sprint(ex) != exBefore {
		return "the additional labels were changed"
	}
	// the caller may reuse its buffer
	for i := range data {
		data[i] = '!'
	}
	if err != nil && len(got) > 0 {
		return "both an error and samples"
	}
	if err == nil && t.Pre > 0 {
		if len(got) < t.Pre {
			return fmt.Sprintf("%d samples of %d and more", len(got), t.Pre)
		}
		for i, s := range got[:t.Pre] {
			if s.Labels.Get("_k") != strconv.Itoa(i) || s.Value != float64(i) || s.Timestamp != int64(i+5) {
				return fmt.Sprintf("sample %d is %v", i, s)
			}
		}
		got = got[t.Pre:]
	}
	res := []interface{}{}
	for _, s := range got {
		ts := []string{}
		if s.Timestamp != nowMs[t.Now] {
			ts = append(ts, strconv.FormatInt(s.Timestamp, 10))
		}
		for i := 1; i < len(s.Labels); i++ {
			if s.Labels[i-1].Name >= s.Labels[i].Name {
				return "labels out of order: " + s.Labels.String()
			}
		}
		res = append(res, hlib.J{"ls": s.Labels.Map(), "v": strconv.FormatFloat(s.Value, 'g', -1, 64), "ts": ts})
	}
	if t.Rep > 1 {
		n := len(res) / t.Rep
		if n*t.Rep != len(res) {
			return fmt.Sprintf("%d samples from %d times the same document", len(res), t.Rep)
		}
		for i := range res {
			if !reflect.DeepEqual(res[i], res[i%n]) {
				return fmt.Sprintf("sample %d of %d is %v instead of %v", i, len(res), res[i], res[i%n])
			}
		}
		res = res[:n]
	}
	return hlib.J{"ok": err == nil, "samples": res}
}

var labelTable = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "x"),
	nil,
	labels.FromStrings("__name__", "m"),
	labels.FromStrings("a", `x"y`, "b", `back\slash`),
	labels.FromStrings("__name__", "m", "a", "new\nline\ttab"),
	labels.FromStrings("__name__", "m", "a", "é漢🙂"),
	labels.FromStrings("__name__", "m", "a", `{a="b"} => 1 @[2]`),
	labels.FromStrings("__name__", "a:b", "a", "%d%s%%", "zz", "<&>"),
	labels.FromStrings("a", "yes", "b", "1.0", "c", "null", "d", "~"),
	labels.FromStrings("__name__", "m", "a", "# c", "b", "- x", "c", " lead", "d", "trail "),
	labels.FromStrings("__name__", "m", "a", "esc\x1b[31mred", "b", "\u2028"),
	labels.FromStrings("__name__", "__name__", "le", "+Inf", "quantile", "0.5"),
	labels.FromStrings("__name__", "m", "a", "very long "+strings.Repeat("value ", 60)),
	labels.FromStrings("__name__", "m", "A", "x"),
	labels.FromStrings("A", "1", "Z9", "2", "__name__", "n", "_a", "3", "__x", "4"),
	labels.FromStrings("B", "name", "__address__", "q", "b", "__name__"),
	labels.FromStrings("__name__", "m_bucket", "le", "0.5", "a", "x"),
	labels.FromStrings("__name__", "m_bucket", "le", "0.25", "a", "x"),
	labels.FromStrings("__name__", "m", "instance", "http://h:1/metrics", "job", "j"),
	labels.FromStrings("__name__", "n"+strings.Repeat("ame_of_a_metric", 20), "a", "x"),
	labels.FromStrings("__name__", "n"+strings.Repeat("ame_of_a_metric", 20)),
	func() labels.Labels {
		var kv []string
		for i := 0; i < 120; i++ {
			kv = append(kv, fmt.Sprintf("l%03d", i), fmt.Sprintf("v%d", i))
		}
		return labels.FromStrings(kv...)
	}(),
	labels.FromStrings("__name__", "m", "a", "very, very long "+strings.Repeat("value ", 3000), "b", "x"),
	labels.FromStrings("__name__", "m", "a", ", b=", "y", "2001-01-01", "n", "0x1F"),
}
var timeTable = []int64{0, 1, -5, 1600000000123, 999, 253402300799000}
var valueTable = []float64{0, 1, -1.5, 0.1, math.NaN(), math.Inf(1), math.Inf(-1), 1e21, 1e-7, 123456789.123, 9007199254740993, 1.7976931348623157e308, 5e-324}

type result struct {
	Kind   string
	Err    bool
	Series []struct {
		L int
		P [][2]int
	}
}

var errQuery = errors.New("the query failed")

func (r result) real() *promql.Result {
	res := &promql.Result{}
	if r.Err {
		res.Err = errQuery
	}
	pt := func(p [2]int) promql.Point { return promql.Point{T: timeTable[p[0]-1], V: valueTable[p[1]-1]} }
	switch r.Kind {
	case "vector":
		v := promql.Vector{}
		for _, s := range r.Series {
			v = append(v, promql.Sample{Point: pt(s.P[0]), Metric: labelTable[s.L-1].Copy()})
		}
		res.Value = v
	case "matrix":
		v := promql.Matrix{}
		for _, s := range r.Series {
			pts := []promql.Point{}
			for _, p := range s.P {
				pts = append(pts, pt(p))
			}
			v = append(v, promql.Series{Metric: labelTable[s.L-1].Copy(), Points: pts})
		}
		res.Value = v
	case "scalar":
		res.Value = promql.Scalar(pt(r.Series[0].P[0]))
	}
	return res
}

func output(raw json.RawMessage) interface{} {
	var t struct {
		R   result
		F   string
		C   bool
		Rep int // the series this many times over
	}
	hlib.Must(raw, &t)
	color.NoColor = false
	for i, n := 0, len(t.R.Series); i < n*(t.Rep-1); i++ {
		t.R.Series = append(t.R.Series, t.R.Series[i])
	}
	res := t.R.real()
	before := fmt.Sprintf("%#v", t.R.real())
	text, err := prom.ToPrettyFormat(res, t.F, t.C)
	if fmt.Sprintf("%#v", res) != before {
		return "rendering changed the result"
	}
	if err != nil {
		if text != nil {
			return "both an error and a text"
		}
		if t.R.Err && (t.F == "json" || t.F == "yaml" || t.F == "prometheus") && !errors.Is(err, errQuery) {
			return "not the query's error: " + err.Error()
		}
		return hlib.J{"ok": false, "series": []int{}}
	}
	if text == nil {
		return "neither an error nor a text"
	}
	got, err := rb.Read(*text, t.F, t.C)
	if err != nil {
		return "unreadable: " + err.Error() + "\n" + *text
	}
	// translate back to indices
	out := []interface{}{}
	for i, s := range got {
		j := hlib.J{"l": -1}
		if t.R.Kind == "scalar" {
			j["l"] = 1
		} else {
			want := -1
			if i < len(t.R.Series) {
				want = t.R.Series[i].L
			}
			for k, l := range labelTable {
				if reflect.DeepEqual(l.Map(), s.Labels) && (j["l"] == -1 || k+1 == want) {
					j["l"] = k + 1
				}
			}
		}
		pts := [][2]int{}
		for k := range s.T {
			p := [2]int{-1, -1}
			for n, v := range timeTable {
				if v == s.T[k] {
					p[0] = n + 1
				}
			}
			for n, v := range valueTable {
				if v == s.V[k] || math.IsNaN(v) && math.IsNaN(s.V[k]) {
					p[1] = n + 1
				}
			}
			pts = append(pts, p)
		}
		j["p"] = pts
		out = append(out, j)
	}
	if t.Rep > 1 {
		n := len(out) / t.Rep
		if n*t.Rep != len(out) {
			return fmt.Sprintf("%d series", len(out))
		}
		for i := range out {
			if !reflect.DeepEqual(out[i], out[i%n]) {
				return fmt.Sprintf("series %d of %d reads %v instead of %v", i, len(out), out[i], out[i%n])
			}
		}
		out = out[:n]
	}
	return hlib.J{"ok": true, "series": out}
}

func main() {
	hlib.Mode("parse", parse)
	hlib.Mode("output", output)
	hlib.Mode("sizes", func(json.RawMessage) interface{} {
		return []int{len(labelTable), len(timeTable), len(valueTable)}
	})
	hlib.Main()
}
