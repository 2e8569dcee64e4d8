// Driver for plotting: axes, ticks and drawings.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"sigs.k8s.io/instrumentation-tools/zzverif/cells"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

type pt struct {
	i int
	x int64
	y float64
}

func (p pt) X() int64   { return p.x }
func (p pt) Y() float64 { return p.y }

type series struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s *series) Title() string        { return fmt.Sprint("series ", s.id) }
func (s *series) Id() plot.SeriesId    { return s.id }
func (s *series) Points() []plot.Point { return s.pts }

var ids = []plot.SeriesId{7, 1, 254, 100, 33}

// (the widget has 256 colours)
var wide = []plot.SeriesId{7, 263, 65535, 512, 256}

// ---------------------------------------------------------------- axes
var times = []int64{-1000000, -5, -1, 0, 1, 2, 1000, 1599999999999, 1600000000000, 1600000000001, 1600000060000, 1700000000000}
var values = []float64{-1e300, -1e9, -2.5, -1, -1e-9, 0, 1e-300, 0.5, 1, 3, 1e6, 1e300}

func value(v int) float64 {
	if v <= len(values) {
		return values[v-1]
	}
	return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[v-len(values)-1]
}

func axes(raw json.RawMessage) interface{} {
	var hist []struct {
		G     [][][2]int
		Kind  string
		K     int
		Given [4]int
		// further copies of the first and the last point of every series, and of the first and the last series
		Front, Back, FrontSeries, BackSeries int
	}
	hlib.Must(raw, &hist)
	var done []plot.PlatonicAxes
	res := []interface{}{}
	for _, h := range hist {
		set := plot.SeriesSet{}
		for i, s := range h.G {
			se := &series{id: ids[i]}
			for k, p := range s {
				n := 1
				if k == 0 {
					n += h.Front
				}
				if k == len(s)-1 {
					n += h.Back
				}
				for ; n > 0; n-- {
					se.pts = append(se.pts, pt{len(se.pts), times[p[0]-1], value(p[1])})
				}
			}
			n := 1
			if i == 0 {
				n += h.FrontSeries
			}
			if i == len(h.G)-1 {
				n += h.BackSeries
			}
			for k := 0; k < n; k++ {
				set = append(set, &series{id: se.id + plot.SeriesId(1000*k), pts: se.pts})
			}
		}
		base := plot.AutoAxes()
		var prev *plot.PlatonicAxes
		switch h.Kind {
		case "given":
			base = plot.PlatonicAxes{DomainMin: times[h.Given[0]-1], DomainMax: times[h.Given[1]-1], RangeMin: value(h.Given[2]), RangeMax: value(h.Given[3])}
		case "axes":
			base = done[h.K-1]
		case "range":
			prev = &done[h.K-1]
			base = base.WithPreviousRange(*prev)
		}
		before := fmt.Sprint(done)
		g := plot.DataToPlatonicGraph(set, base)
		if fmt.Sprint(done) != before {
			return "earlier axes were changed"
		}
		if len(g.Series) != len(set) {
			return "series lost"
		}
		for i := range set {
			if g.Series[i] != set[i] {
				return "other series than those given"
			}
		}
		done = append(done, g.PlatonicAxes)
		e := [4]int{-1, -1, -1, -1}
		for i, t := range times {
			if g.DomainMin == t {
				e[0] = i + 1
			}
			if g.DomainMax == t {
				e[1] = i + 1
			}
		}
		for i, v := range values {
			if g.RangeMin == v {
				e[2] = i + 1
			}
			if g.RangeMax == v {
				e[3] = i + 1
			}
		}
		if g.DomainMin > g.DomainMax {
			e[0], e[1] = 0, 0
		}
		if g.RangeMin > g.RangeMax {
			e[2], e[3] = 0, 0
		}
		res = append(res, e)
	}
	return res
}

// ---------------------------------------------------------------- ticks and drawings
var scales = []plot.RangeScale{
	func(y float64) float64 { return y },
	func(y float64) float64 { return y * math.Abs(y) / 8 },
	func(y float64) float64 { return 3*y - 7 },
	func(y float64) float64 { return 20 * math.Copysign(math.Log1p(math.Abs(y)), y) },
}
var affines = []struct {
	t, tu int64
	a, b  float64
}{
	{0, 1, 0, 1},
	{1600000000000, 1000, 0, 1},
	{1599999999000, 15000, 1000, 0.001},
	{-7, 16, -1e9, 1e3},
	{1700000000000, 1, 0, 1e12},
	{-1000000, 60000, 0, 1e-12},
	{5, 7, 1e17, 16},
	{1600000000000, 250, 1e6, 0.25},
}

type testcase struct {
	G              [][][2]int
	Ext            [4]int
	Rows, Cols     int
	Dd, Rd         int
	Lbl, Line      int
	Aff, Sc        int
	R0, C0         int
	View           bool
	graph          *plot.PlatonicGraph
	ids            []plot.SeriesId
	data, values   bool
	scale          plot.RangeScale
	domMax, rngMax int // longest labels asked for
}

// small keeps a number within what the specification computes with.
func small(v float64) int {
	if !(math.Abs(v) < 1e9) {
		return 1e9
	}
	return int(math.Round(v))
}

func (t *testcase) x(x int64) int {
	a := affines[t.Aff-1]
	return small(float64(x-a.t) / float64(a.tu) * 16)
}
func (t *testcase) y(y float64) int {
	a := affines[t.Aff-1]
	if t.Sc == 1 {
		return small((y - a.a) / a.b * 1024)
	}
	return small(t.scale(y) * 1024)
}

func (t *testcase) set(raw json.RawMessage) {
	hlib.Must(raw, t)
	if t.Sc != 1 { // keep the numbers where the scales are sensitive
		t.Aff = t.Aff%2 + 1
	}
	a := affines[t.Aff-1]
	t.scale = scales[t.Sc-1]
	set := plot.SeriesSet{}
	if t.ids = wide; t.View {
		t.ids = ids
	}
	for i, s := range t.G {
		if i == len(t.ids) { // further ones
			t.ids = append(append([]plot.SeriesId{}, t.ids...), plot.SeriesId(110+i))
		}
		se := &series{id: t.ids[i]}
		for k, p := range s {
			v := a.a + a.b*float64(p[1])
			if p[1] >= 1000 {
				v = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[p[1]-1000]
			} else {
				t.values = true
			}
			t.data = true
			se.pts = append(se.pts, pt{k, a.t + a.tu*int64(p[0]), v})
		}
		set = append(set, se)
	}
	t.graph = plot.DataToPlatonicGraph(set, plot.AutoAxes())
	if t.data {
		t.graph.DomainMin -= int64(t.Ext[0]) * a.tu
		t.graph.DomainMax += int64(t.Ext[1]) * a.tu
		if t.values {
			t.graph.RangeMin -= float64(t.Ext[2]) * a.b
			t.graph.RangeMax += float64(t.Ext[3]) * a.b
		}
	}
	if t.View {
		t.Line, t.Sc, t.scale = 1, 1, scales[0]
	}
}

const pad = "abcdefgh"

// padding of a label for something at the given part of its axis
func (t *testcase) pad(at, all float64) string {
	n := 0
	switch {
	case t.Lbl < 6:
		n = t.Lbl
	case all > 0 && !math.IsInf(all, 0):
		n = int(8 * math.Max(0, math.Min(1, at/all)))
	}
	if t.Lbl == 7 {
		n = 8 - n
	}
	return pad[:n]
}

func (t *testcase) domLabel(x int64) string {
	l := strconv.FormatInt(x-affines[t.Aff-1].t, 10) + t.pad(float64(x-t.graph.DomainMin), float64(t.graph.DomainMax-t.graph.DomainMin))
	if len(l) > t.domMax {
		t.domMax = len(l)
	}
	return l
}
func (t *testcase) rngLabel(y float64) string {
	a := affines[t.Aff-1]
	l := strconv.FormatFloat((y-a.a)/a.b, 'g', 3, 64) + t.pad(y-t.graph.RangeMin, t.graph.RangeMax-t.graph.RangeMin)
	if len(l) > t.rngMax {
		t.rngMax = len(l)
	}
	return l
}

func (t *testcase) ticks() *plot.ScreenTicks {
	return plot.EvenlySpacedTicks(t.graph, plot.ScreenSize{Rows: plot.Row(t.Rows), Cols: plot.Column(t.Cols)},
		plot.TickScaling{RangeScale: t.scale, RangeDensity: t.Rd, DomainDensity: t.Dd},
		plot.Labeling{DomainLabeler: t.domLabel, RangeLabeler: t.rngLabel, LineSize: t.Line})
}

func chars(s string) []string {
	res := []string{}
	for _, r := range s {
		res = append(res, string(r))
	}
	return res
}

// drawn is what the graph widget put on the screen: the axes and the plot.
type drawn struct {
	axes          []interface{}
	lit, colours  [][]int
	bad           string
	irows, mcols  int
}

var dots = [8][2]int{{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {2, 1}, {3, 0}, {3, 1}} // row from the top, column

func (d *drawn) braille(row, col int, r rune, id int) {
	if r == ' ' || r == '\u2800' {
		return
	}
	if r < '\u2800' || r > '\u28ff' {
		d.bad = fmt.Sprintf("%q drawn at (%d, %d)", r, row, col)
		return
	}
	for b, at := range dots {
		if (r-'\u2800')>>uint(b)&1 == 1 {
			d.lit = append(d.lit, []int{4*d.irows - 1 - (4*row + at[0]), 2*col + at[1]})
		}
	}
	d.colours = append(d.colours, []int{row, col, id})
}

func (t *testcase) view() *drawn {
	ticks := t.ticks()
	d := &drawn{axes: []interface{}{}, lit: [][]int{}, colours: [][]int{}, irows: int(ticks.InnerGraphSize.Rows), mcols: int(ticks.MarginCols)}
	scr := cells.New(t.C0+t.Cols+3, t.R0+t.Rows+3)
	v := &term.GraphView{Graph: t.graph, DomainLabeler: t.domLabel, RangeLabeler: t.rngLabel, DomainTickSpacing: t.Dd, RangeTickSpacing: t.Rd}
	if t.Dd == 10 {
		v.DomainTickSpacing = 0
	}
	if t.Rd == 10 {
		v.RangeTickSpacing = 0
	}
	v.SetBox(term.PositionBox{StartCol: t.C0, StartRow: t.R0, Cols: t.Cols, Rows: t.Rows})
	v.FlushTo(scr)
	for row := 0; row < t.Rows; row++ {
		for col := 0; col < t.Cols; col++ {
			c := scr.At(t.C0+col, t.R0+row)
			if !c.Touched {
				continue
			}
			if row < d.irows && col >= d.mcols {
				fg, _, _ := c.Style.Decompose()
				d.braille(row, col-d.mcols, c.Main, int(fg))
				continue
			}
			kind := map[rune]string{'┯': "dtick", '┨': "rtick", '┃': "y", '━': "x", '┗': "corner"}[c.Main]
			if kind == "" {
				kind = "label"
			}
			d.axes = append(d.axes, hlib.J{"row": row, "col": col, "kind": kind, "ch": string(c.Main)})
		}
	}
	return d
}

var kinds = map[plot.AxisCellKind]string{plot.DomainTickKind: "dtick", plot.RangeTickKind: "rtick", plot.YAxisKind: "y",
	plot.XAxisKind: "x", plot.AxisCornerKind: "corner", plot.LabelKind: "label"}

func ticks(raw json.RawMessage) interface{} {
	t := &testcase{}
	t.set(raw)
	st := t.ticks()
	dom, rng := []interface{}{}, []interface{}{}
	domCalled, rngCalled := t.domMax, t.rngMax
	// ranks of the values of ticks and extremes, exactly
	xs, ys := []float64{}, []float64{}
	g := t.graph
	var x0 int64
	if t.data {
		x0 = g.DomainMin
		xs = append(xs, 0, float64(g.DomainMax-x0))
	}
	if t.values {
		ys = append(ys, g.RangeMin, g.RangeMax)
	}
	for _, k := range st.DomainTicks {
		xs = append(xs, float64(k.Value-x0))
	}
	for _, k := range st.RangeTicks {
		ys = append(ys, k.Value)
	}
	rank := func(all []float64, v float64) int {
		s := append([]float64{}, all...)
		sort.Float64s(s)
		n := 0
		for i := range s {
			if i == 0 || s[i] != s[i-1] {
				n++
			}
			if s[i] == v {
				return n
			}
		}
		return -1
	}
	for _, k := range st.DomainTicks {
		e := hlib.J{"pos": small(float64(k.Col)), "len": len(k.Label), "lab": chars(k.Label), "own": k.Label == t.domLabel(k.Value), "rank": rank(xs, float64(k.Value-x0)), "x": 0}
		if t.data {
			e["x"] = t.x(k.Value)
		}
		dom = append(dom, e)
	}
	for _, k := range st.RangeTicks {
		e := hlib.J{"pos": small(float64(k.Row)), "len": len(k.Label), "lab": chars(k.Label), "own": k.Label == t.rngLabel(k.Value), "rank": rank(ys, k.Value), "x": 0}
		if t.values {
			e["x"] = t.y(k.Value)
		}
		rng = append(rng, e)
	}
	o := hlib.J{"rows": t.Rows, "cols": t.Cols, "dd": t.Dd, "rd": t.Rd, "line": t.Line, "n": len(t.G), "data": t.data, "values": t.values,
		"irows": small(float64(st.InnerGraphSize.Rows)), "icols": small(float64(st.InnerGraphSize.Cols)), "mrows": small(float64(st.MarginRows)), "mcols": small(float64(st.MarginCols)),
		"dom": dom, "rng": rng, "domcalled": domCalled, "rngcalled": rngCalled,
		"d": []int{0, 0}, "s": []int{0, 0}, "domranks": []int{0, 0}, "rngranks": []int{0, 0}, "axes": []int{}}
	if t.data {
		o["d"] = []int{t.x(g.DomainMin), t.x(g.DomainMax)}
		o["domranks"] = []int{1, rank(xs, float64(g.DomainMax-x0))}
	}
	if t.values {
		o["s"] = []int{t.y(g.RangeMin), t.y(g.RangeMax)}
		o["rngranks"] = []int{rank(ys, g.RangeMin), rank(ys, g.RangeMax)}
	}
	if st.LineSize != t.Line {
		return "another line size"
	}
	if st.InnerGraphSize.Rows > 0 && st.InnerGraphSize.Cols > 0 && t.values {
		if t.View {
			o["axes"] = t.view().axes
		} else {
			at := map[[2]int]interface{}{}
			plot.DrawAxes(st, func(row plot.Row, col plot.Column, cell rune, kind plot.AxisCellKind) {
				at[[2]int{int(row), int(col)}] = hlib.J{"row": small(float64(row)), "col": small(float64(col)), "kind": kinds[kind], "ch": string(cell)}
			})
			all := []interface{}{}
			for _, a := range at {
				all = append(all, a)
			}
			o["axes"] = all
		}
	}
	return o
}

func draw(raw json.RawMessage) interface{} {
	t := &testcase{}
	t.set(raw)
	d := &drawn{lit: [][]int{}, colours: [][]int{}}
	rows, cols := t.Rows, t.Cols
	if t.View {
		if st := t.ticks(); st.InnerGraphSize.Rows == 0 || st.InnerGraphSize.Cols == 0 {
			return nil
		} else {
			rows, cols = int(st.InnerGraphSize.Rows), int(st.InnerGraphSize.Cols)
		}
		d = t.view()
	}
	if rows == 0 || cols == 0 || !t.values {
		// nothing to be shown, yet nothing to fail either
		if rows > 0 && cols > 0 {
			sg := t.graph.ToScreen(t.scale, plot.BrailleCellScreenSize(plot.ScreenSize{Rows: plot.Row(rows), Cols: plot.Column(cols)}))
			plot.DrawBraille(sg.Render(plot.BrailleCellMapper), func(row plot.Row, col plot.Column, cell rune, id plot.SeriesId) {
				if cell != ' ' && cell != '\u2800' {
					d.bad = "something drawn without values"
				}
			})
			if d.bad != "" {
				return d.bad
			}
		}
		return nil
	}
	size := plot.BrailleCellScreenSize(plot.ScreenSize{Rows: plot.Row(rows), Cols: plot.Column(cols)})
	if int(size.Rows) != 4*rows || int(size.Cols) != 2*cols {
		return "another number of dots"
	}
	before := fmt.Sprintf("%v", t.G)
	sg := t.graph.ToScreen(t.scale, size)
	if !reflect.DeepEqual(sg, t.graph.ToScreen(t.scale, size)) {
		return "placed differently the second time"
	}
	rg := sg.Render(plot.BrailleCellMapper)
	if !t.View {
		d.irows = rows
		d.bad = ""
		plot.DrawBraille(rg, func(row plot.Row, col plot.Column, cell rune, id plot.SeriesId) {
			if row < 0 || col < 0 || int(row) >= rows || int(col) >= cols {
				d.bad = fmt.Sprintf("cell (%d, %d) of %dx%d drawn", row, col, rows, cols)
			}
			d.braille(int(row), int(col), cell, int(id))
		})
	}
	if d.bad != "" {
		return d.bad
	}
	all := []interface{}{}
	if len(sg.Series) != len(t.G) {
		return "another number of series"
	}
	if sg.ScreenSize != size {
		return "another size"
	}
	for i, s := range sg.Series {
		pts := []interface{}{}
		for _, p := range s.Points {
			of := []int{}
			for _, q := range p.OriginalPoints {
				of = append(of, q.(pt).i+1)
			}
			pts = append(pts, hlib.J{"row": small(float64(p.Row)), "col": small(float64(p.Col)), "of": of})
		}
		smp := [][]int{}
		for _, q := range t.graph.Series[i].Points() {
			e := []int{t.x(q.X())}
			if !math.IsNaN(q.Y()) && !math.IsInf(q.Y(), 0) {
				e = append(e, t.y(q.Y()))
			}
			smp = append(smp, e)
		}
		if s.Id != t.ids[i] {
			return "another series id"
		}
		all = append(all, hlib.J{"id": int(s.Id), "smp": smp, "pts": pts})
	}
	if fmt.Sprintf("%v", t.G) != before {
		return "the data was changed"
	}
	g := t.graph
	return hlib.J{"rows": int(size.Rows), "cols": int(size.Cols), "d": []int{t.x(g.DomainMin), t.x(g.DomainMax)}, "s": []int{t.y(g.RangeMin), t.y(g.RangeMax)},
		"series": all, "lit": d.lit, "colours": d.colours}
}

var _ = tcell.StyleDefault

func main() {
	hlib.Mode("axes", axes)
	hlib.Mode("ticks", ticks)
	hlib.Mode("draw", draw)
	hlib.Mode("sizes", func(json.RawMessage) interface{} {
		return []int{len(times), len(values), len(affines), len(scales)}
	})
	hlib.Main()
}
