package main

import (
	"encoding/json"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/zzverif/cells"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

func box() {
	hlib.Mode("box", func(raw json.RawMessage) interface{} {
		var t struct {
			Ops []struct {
				Op         string
				T          string
				S          int
				N          int // written as often
				Cols, Rows int
				Keep       bool // draw over what the last draw left
			}
		}
		hlib.Must(raw, &t)
		mw, mh := 0, 0
		for _, o := range t.Ops {
			if o.Cols > mw {
				mw = o.Cols
			}
			if o.Rows > mh {
				mh = o.Rows
			}
		}
		scr := cells.New(mw+2*margin, mh+2*margin)
		b := &term.TextBox{}
		cols, rows, x0, y0 := 0, 0, margin, margin
		outs := []interface{}{}
		for i, o := range t.Ops {
			switch o.Op {
			case "write":
				for k := 0; k < o.N || k == 0; k++ {
					b.WriteString(o.T, styles[o.S-1].sty)
				}
			case "resize":
				cols, rows = o.Cols, o.Rows
				x0, y0 = margin-i%2, margin-i%3
				b.SetBox(term.PositionBox{StartCol: x0, StartRow: y0, Cols: cols, Rows: rows})
				scr.Untouch()
			case "draw":
				if !o.Keep {
					scr.Untouch()
				}
				b.FlushTo(scr)
				g, bad := scr.Grid(x0, y0, cols, rows, styleName)
				if cols == 0 || rows == 0 {
					g = [][]string{}
				}
				outs = append(outs, hlib.J{"grid": g, "bad": bad})
			}
		}
		return outs
	})
}
