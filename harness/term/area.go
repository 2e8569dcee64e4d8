package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/zzverif/cells"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

// repaints is what a PromptView needs of its screen.
type promptScreen interface {
	ShowCursor(int, int)
	HideCursor()
	RequestRepaint()
}

// settle runs the view with a context that is done already: it is set up, and
// then drawn and given keys like any other widget.  The writer and parser it
// hands to the prompt are returned.
func settle(screen promptScreen) (*term.PromptView, prompt.ConsoleWriter, prompt.ConsoleParser) {
	var w prompt.ConsoleWriter
	var r prompt.ConsoleParser
	view := &term.PromptView{
		Screen: screen,
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			p := &prompt.Prompt{}
			rend := reflect.ValueOf(p).Elem().FieldByName("renderer")
			open := func(v reflect.Value) reflect.Value {
				return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
			}
			open(rend).Set(reflect.New(rend.Type().Elem()))
			for _, o := range opts {
				if err := o(p); err != nil {
					hlib.Fail("option: %v", err)
				}
			}
			r, _ = open(reflect.ValueOf(p).Elem().FieldByName("in")).Interface().(prompt.ConsoleParser)
			w, _ = open(open(rend).Elem().FieldByName("out")).Interface().(prompt.ConsoleWriter)
			return p
		},
		HandleInput: func(string) (*string, bool) { return nil, false },
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if err := view.Run(ctx, nil, func() {}); err != nil {
		hlib.Fail("running a cancelled prompt: %v", err)
	}
	if w == nil || r == nil {
		hlib.Fail("the view did not give its prompt a writer and a parser")
	}
	return view, w, r
}

type style struct {
	fg, bg prompt.Color
	bold   bool
	sty    tcell.Style
}

var styles = []style{
	{prompt.DefaultColor, prompt.DefaultColor, false, tcell.StyleDefault},
	{prompt.Black, prompt.White, true, tcell.StyleDefault.Bold(true).Foreground(tcell.ColorBlack).Background(tcell.ColorWhite)},
	{prompt.DarkRed, prompt.DefaultColor, false, tcell.StyleDefault.Foreground(tcell.ColorMaroon)},
}

func styleName(s tcell.Style) string {
	for i, x := range styles {
		if x.sty == s {
			return fmt.Sprint(i)
		}
	}
	return fmt.Sprintf("style(%x)", int(s))
}

type areaOp struct {
	Op   string `json:"op"`
	X, Y int
	T    string
}

func perform(view *term.PromptView, w prompt.ConsoleWriter, o areaOp, x0, y0 int) {
	switch o.Op {
	case "resize":
		view.SetBox(term.PositionBox{StartCol: x0, StartRow: y0, Cols: o.X, Rows: o.Y})
	case "write":
		w.WriteStr(o.T)
	case "newline":
		w.WriteRaw([]byte{'\n'})
	case "style":
		s := styles[o.X-1]
		w.SetColor(s.fg, s.bg, s.bold)
	case "forward":
		w.CursorForward(o.X)
	case "backward":
		w.CursorBackward(o.X)
	case "up":
		w.CursorUp(o.X)
	case "down":
		w.CursorDown(o.X)
	case "goto":
		w.CursorGoTo(o.X, o.Y)
	case "erase":
		w.EraseScreen()
	case "eraseup":
		w.EraseUp()
	case "erasedown":
		w.EraseDown()
	case "erasestart":
		w.EraseStartOfLine()
	case "eraseend":
		w.EraseEndOfLine()
	case "eraseline":
		w.EraseLine()
	case "scrolldown":
		w.ScrollDown()
	case "scrollup":
		w.ScrollUp()
	default:
		hlib.Fail("unknown operation %q", o.Op)
	}
}

const margin = 3

func area() {
	hlib.Mode("area", func(raw json.RawMessage) interface{} {
		var t struct{ Ops []areaOp }
		hlib.Must(raw, &t)
		mw, mh := 0, 0
		for _, o := range t.Ops {
			if o.Op == "resize" && o.X > mw {
				mw = o.X
			}
			if o.Op == "resize" && o.Y > mh {
				mh = o.Y
			}
		}
		scr := cells.New(mw+2*margin, mh+2*margin)
		view, w, _ := settle(scr)
		cols, rows := 0, 0
		x0, y0 := margin, margin
		outs := []interface{}{}
		for i, o := range t.Ops {
			if o.Op == "resize" {
				cols, rows = o.X, o.Y
				x0, y0 = margin-i%2, margin-i%3
			}
			perform(view, w, o, x0, y0)
			w.ShowCursor()
			scr.Untouch()
			view.FlushTo(scr)
			g, bad := scr.Grid(x0, y0, cols, rows, styleName)
			outs = append(outs, hlib.J{"grid": g, "bad": bad, "col": scr.CurX - x0, "row": scr.CurY - y0})
		}
		return outs
	})
	// the prompt's operations while another goroutine draws, as the event loop
	// does; resizes are done between them by the drawing one
	hlib.Mode("areaconc", func(raw json.RawMessage) interface{} {
		var t struct{ Ops []areaOp }
		hlib.Must(raw, &t)
		scr := cells.New(60, 30)
		view, w, _ := settle(scr)
		var cols, rows int
		type step struct {
			op   areaOp
			done chan struct{}
		}
		ops := make(chan step)
		go func() {
			for s := range ops {
				perform(view, w, s.op, margin, margin)
				w.ShowCursor()
				close(s.done)
			}
		}()
		for _, o := range t.Ops {
			if o.Op == "resize" {
				cols, rows = o.X, o.Y
				perform(view, w, o, margin, margin)
				continue
			}
			s := step{o, make(chan struct{})}
			ops <- s
			for busy := true; busy; {
				view.FlushTo(scr)
				view.SetBox(term.PositionBox{StartCol: margin, StartRow: margin, Cols: cols, Rows: rows})
				select {
				case <-s.done:
					busy = false
				default:
				}
			}
		}
		close(ops)
		w.ShowCursor()
		scr.Untouch()
		view.FlushTo(scr)
		g, bad := scr.Grid(margin, margin, cols, rows, styleName)
		return []interface{}{hlib.J{"grid": g, "bad": bad, "col": scr.CurX - margin, "row": scr.CurY - margin}}
	})
}
