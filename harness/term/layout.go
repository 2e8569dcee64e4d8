package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/promq/term/plot"
	"sigs.k8s.io/instrumentation-tools/zzverif/cells"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

type tree struct {
	Kind   string
	Dock   string
	Size   int
	Pct    int
	Docked *tree
	Flexed *tree
	// for leaves
	Text   string // of text boxes and prompts
	Points [][][2]float64
	Labels [2]int // lengths of the labels: domain, range
	Unit   bool   // labels with multi-byte characters
}

var docks = map[string]term.DockPos{"below": term.PosBelow, "above": term.PosAbove, "left": term.PosLeft, "right": term.PosRight}

// leaf is a widget that tells when it is drawn.
type leaf struct {
	term.View
	n     int
	drawn func(n int)
	after func()
}

func (l *leaf) FlushTo(s tcell.Screen) {
	l.drawn(l.n)
	l.View.FlushTo(s)
	l.after()
}

type pt struct {
	x int64
	y float64
}

func (p pt) X() int64   { return p.x }
func (p pt) Y() float64 { return p.y }

type series struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s *series) Title() string        { return "title" }
func (s *series) Id() plot.SeriesId    { return s.id }
func (s *series) Points() []plot.Point { return s.pts }

func label(n int, unit bool) string {
	s := ""
	for i := 0; i < n; i++ {
		if unit && i%2 == 1 {
			s += "µ"
		} else {
			s += string(rune('0' + i%10))
		}
	}
	return s
}

func number(v float64) float64 {
	switch v {
	case 12345:
		return math.NaN()
	case 12346:
		return math.Inf(1)
	case 12347:
		return math.Inf(-1)
	}
	return v
}

func makeLeaf(t *tree) term.View {
	switch t.Kind {
	case "text":
		b := &term.TextBox{}
		b.WriteString(t.Text, styles[1].sty)
		return b
	case "prompt":
		v, w, _ := settle(cells.New(1, 1))
		return &promptLeaf{v, func() { w.EraseScreen(); w.CursorGoTo(0, 0); w.WriteStr(t.Text) }}
	case "graph":
		set := plot.SeriesSet{}
		for i, ps := range t.Points {
			s := &series{id: plot.SeriesId(i + 1)}
			for _, p := range ps {
				s.pts = append(s.pts, pt{int64(p[0]), number(p[1])})
			}
			set = append(set, s)
		}
		return &term.GraphView{
			Graph:         plot.DataToPlatonicGraph(set, plot.AutoAxes()),
			DomainLabeler: func(x int64) string { return label(t.Labels[0]-int(uint64(x)%3), t.Unit) },
			RangeLabeler:  func(y float64) string { return label(t.Labels[1]-int(uint64(math.Abs(y))%2), t.Unit) },
		}
	}
	hlib.Fail("unknown leaf %q", t.Kind)
	return nil
}

// promptLeaf writes the same text again after each resize, as the prompt does.
type promptLeaf struct {
	*term.PromptView
	write func()
}

func (p *promptLeaf) SetBox(b term.PositionBox) {
	p.PromptView.SetBox(b)
	p.write()
}

func layout() {
	hlib.Mode("split", func(raw json.RawMessage) interface{} {
		var t struct {
			Tree  *tree
			Boxes [][4]int
		}
		hlib.Must(raw, &t)
		var leaves []*term.StaticResizable
		var build func(t *tree) term.Resizable
		build = func(t *tree) term.Resizable {
			if t.Kind != "split" {
				l := &term.StaticResizable{}
				leaves = append(leaves, l)
				return l
			}
			v := &term.SplitView{Dock: docks[t.Dock], DockSize: t.Size, DockMaxPercent: t.Pct}
			v.Docked = build(t.Docked)
			v.Flexed = build(t.Flexed)
			return v
		}
		root := build(t.Tree)
		outs := []interface{}{}
		for _, b := range t.Boxes {
			root.SetBox(term.PositionBox{StartCol: b[0], StartRow: b[1], Cols: b[2], Rows: b[3]})
			o := [][4]int{}
			for _, l := range leaves {
				o = append(o, [4]int{l.StartCol, l.StartRow, l.Cols, l.Rows})
			}
			outs = append(outs, o)
		}
		return outs
	})
	hlib.Mode("layout", func(raw json.RawMessage) interface{} {
		var t struct {
			Tree   *tree
			Boxes  [][4]int
			Leaves [][]struct{ Box [4]int }
		}
		hlib.Must(raw, &t)
		var leaves []*leaf
		who := -1 // which leaf draws
		drawn := map[int]int{}
		var build func(t *tree) term.Resizable
		build = func(t *tree) term.Resizable {
			if t.Kind != "split" {
				l := &leaf{makeLeaf(t), len(leaves), func(n int) { who = n; drawn[n]++ }, func() { who = -1 }}
				leaves = append(leaves, l)
				return l
			}
			v := &term.SplitView{Dock: docks[t.Dock], DockSize: t.Size, DockMaxPercent: t.Pct}
			v.Docked = build(t.Docked)
			v.Flexed = build(t.Flexed)
			return v
		}
		root := build(t.Tree).(term.View)
		outs := []interface{}{}
		for i, b := range t.Boxes {
			scr := cells.New(b[0]+b[2]+margin, b[1]+b[3]+margin)
			root.SetBox(term.PositionBox{StartCol: b[0], StartRow: b[1], Cols: b[2], Rows: b[3]})
			bad := ""
			scr.OnWrite = func(x, y int) {
				if who < 0 {
					bad = fmt.Sprintf("something other than a widget wrote at (%d, %d)", x, y)
					return
				}
				a := t.Leaves[i][who].Box
				if x < a[0] || y < a[1] || x >= a[0]+a[2] || y >= a[1]+a[3] {
					bad = fmt.Sprintf("widget %d with area %v wrote at (%d, %d)", who, a, x, y)
				}
			}
			drawn = map[int]int{}
			root.FlushTo(scr)
			if scr.Off > 0 && bad == "" {
				bad = "written outside of the screen"
			}
			// each widget alone has to draw the same as in the layout
			total := 0
			for n, l := range leaves {
				if drawn[n] != 1 && bad == "" {
					bad = fmt.Sprintf("widget %d was drawn %d times", n, drawn[n])
				}
				alone := cells.New(scr.W, scr.H)
				l.View.FlushTo(alone)
				a := t.Leaves[i][n].Box
				p, wide := alone.Grid(a[0], a[1], a[2], a[3], styleName)
				q, _ := scr.Grid(a[0], a[1], a[2], a[3], styleName)
				if bad == "" && wide != "" {
					bad = fmt.Sprintf("widget %d: %s", n, wide)
				}
				for y := range p {
					for x := range p[y] {
						if p[y][x] != "" {
							total++
						}
						if bad == "" && p[y][x] != q[y][x] {
							bad = fmt.Sprintf("widget %d: cell (%d, %d) of area %v is %q in the layout, and %q alone", n, x, y, a, q[y][x], p[y][x])
						}
					}
				}
			}
			outs = append(outs, hlib.J{"bad": bad, "cells": total})
		}
		return outs
	})
}
