package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

var stale = math.Float64frombits(0x7ff0000000000002)
var plotTimes = []int64{0, 1, -5, 1600000000123, 1600000060123, math.MaxInt64}
var plotValues = []float64{0, 1, -1.5, 0.1, math.NaN(), math.Inf(1), math.Inf(-1), stale, 1e300, math.Copysign(0, -1)}

var labelSets = func() []labels.Labels {
	res := []labels.Labels{
		{},
		labels.FromStrings("__name__", "m"),
		labels.FromStrings("__name__", "m", "a", "x"),
		labels.FromStrings("a", "m", "b", "x"),
		labels.FromStrings("__name__", "m", "a", "x", "b", "é, 漢"),
		labels.FromStrings("b", "1", "a", "2"),
		labels.FromStrings("instance", "http://h:1/metrics", "le", "+Inf"),
	}
	for _, n := range []int{12, 20, 33, 70, 300} {
		var kv []string
		for i := 0; i < n; i++ {
			kv = append(kv, fmt.Sprintf("l%03d", (i*7)%n), fmt.Sprintf("v%d", i))
		}
		res = append(res, labels.FromStrings(kv...))
	}
	res = append(res,
		labels.FromStrings("__name__", strings.Repeat("long_", 60), "a", strings.Repeat("value ", 300)),
		labels.FromStrings("a", "", "b", " ", "c", ", ", "d", "\x00\n"),
		labels.FromStrings("__name__", "m", "a", strings.Repeat("漢", 90)))
	for i := 0; i < 40; i++ {
		res = append(res, labels.FromStrings("__name__", "n", "i", strconv.Itoa(i), "z", "q"))
	}
	return res
}()

// titleOf is the label values in label order.
func titleOf(ls labels.Labels) string {
	var vs []string
	for _, l := range ls {
		vs = append(vs, l.Value)
	}
	return strings.Join(vs, ", ")
}

func point(p [2]int) promql.Point {
	return promql.Point{T: plotTimes[p[0]-1], V: plotValues[p[1]-1]}
}

type seriesCase struct {
	L int
	P [][2]int
}

func convert(raw json.RawMessage) interface{} {
	var hist []struct {
		Kind   string
		Err    bool
		Series []seriesCase
	}
	hlib.Must(raw, &hist)
	cause := errors.New("no result")
	res := []interface{}{}
	var again []func() string
	for _, h := range hist {
		r := &promql.Result{}
		if h.Err {
			r.Err = cause
		}
		m := promql.Matrix{}
		for _, s := range h.Series {
			ps := []promql.Point{}
			for _, p := range s.P {
				ps = append(ps, point(p))
			}
			m = append(m, promql.Series{Metric: labelSets[s.L-1].Copy(), Points: ps})
		}
		switch h.Kind {
		case "matrix":
			r.Value = m
		case "vector":
			v := promql.Vector{}
			for _, s := range m {
				v = append(v, promql.Sample{Metric: s.Metric, Point: promql.Point{T: 1, V: 2}})
			}
			r.Value = v
		case "scalar":
			r.Value = promql.Scalar{T: 1, V: 2}
		case "string":
			r.Value = promql.String{T: 1, V: "x"}
		}
		before := fmt.Sprint(r.Value)
		set, err := metrics.PromResultToPromSeriesSet(r)
		if fmt.Sprint(r.Value) != before {
			return "the result was changed"
		}
		if h.Err && !errors.Is(err, cause) {
			return fmt.Sprintf("the cause of the failure is not reported: %v", err)
		}
		o := hlib.J{"ok": err == nil}
		if err != nil && len(set) > 0 {
			return "series in spite of an error"
		}
		list := func() []interface{} {
			res := []interface{}{}
			for _, s := range set {
				pts := [][2]string{}
				for _, p := range s.Points() {
					pts = append(pts, [2]string{strconv.FormatInt(p.X(), 10), strconv.FormatUint(math.Float64bits(p.Y()), 16)})
				}
				res = append(res, hlib.J{"title": s.Title(), "id": int(s.Id()), "pts": pts})
			}
			return res
		}
		o["series"] = list()
		was := fmt.Sprint(o["series"])
		// the result is reused
		full := m[:cap(m)]
		for i := range full {
			for k := range full[i].Points {
				full[i].Points[k] = promql.Point{T: 77, V: 77}
			}
			for k := range full[i].Metric {
				full[i].Metric[k] = labels.Label{Name: "reused", Value: "reused"}
			}
			full[i] = promql.Series{}
		}
		again = append(again, func() string {
			if now := fmt.Sprint(list()); now != was {
				return fmt.Sprintf("%s became %s", was, now)
			}
			return ""
		})
		for _, f := range again {
			if s := f(); s != "" {
				return "a converted series changed later: " + s
			}
		}
		res = append(res, o)
	}
	return res
}

// tables tells what the indices of the specification stand for.
func tables(json.RawMessage) interface{} {
	titles, times, values := []string{}, []string{}, []string{}
	for _, l := range labelSets {
		titles = append(titles, titleOf(l))
	}
	for _, t := range plotTimes {
		times = append(times, strconv.FormatInt(t, 10))
	}
	for _, v := range plotValues {
		values = append(values, strconv.FormatUint(math.Float64bits(v), 16))
	}
	return hlib.J{"titles": titles, "times": times, "values": values}
}

// sweep converts many label sets, each twice: never zero, and the same again.
func sweep(raw json.RawMessage) interface{} {
	var t struct{ From, To int }
	hlib.Must(raw, &t)
	for i := t.From; i < t.To; i++ {
		ls := labels.FromStrings("__name__", "metric"+strconv.Itoa(i%7), "i", strconv.Itoa(i))
		one := promql.Matrix{{Metric: ls, Points: []promql.Point{{T: 1, V: 1}}}}
		two := promql.Matrix{{Metric: labels.FromStrings("other", "x")}, {Metric: ls.Copy(), Points: []promql.Point{{T: int64(i), V: 5}, {T: int64(i) + 1, V: 6}}}}
		a, err := metrics.PromResultToPromSeriesSet(&promql.Result{Value: one})
		if err != nil {
			return err.Error()
		}
		b, err := metrics.PromResultToPromSeriesSet(&promql.Result{Value: two})
		if err != nil {
			return err.Error()
		}
		if a[0].Id() == 0 {
			return fmt.Sprintf("the identity of %s is zero", ls)
		}
		if a[0].Id() != b[1].Id() {
			return fmt.Sprintf("the identity of %s is %d, then %d", ls, a[0].Id(), b[1].Id())
		}
	}
	return "ok"
}
