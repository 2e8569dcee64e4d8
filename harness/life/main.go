// Driver for the life of the interactive prompt (C25).
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/zzverif/cells"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

type key struct {
	K    string   `json:"k"`
	Text []string `json:"text"`
	Stop bool     `json:"stop"`
	Hold bool     `json:"hold"`
}

type op struct {
	Op  string `json:"op"`
	Box struct{ Col, Row, Cols, Rows int }
	Initial []key `json:"initial"`
	Keys    []key `json:"keys"`
	// what to wait for
	Want  seen `json:"want"`
	Quiet bool `json:"quiet"`
}

// seen is what can be observed at a time.
type seen struct {
	Handled   []string `json:"handled"`
	Shutdowns int      `json:"shutdowns"`
	Ran       string   `json:"ran"` // "", "running", "done" or an error
	Rows      []string `json:"rows"`
	Cur       int      `json:"cur"` // column of the cursor in the line, or -1
	Bad       string   `json:"bad"`
}

// life is one prompt.
type life struct {
	view   *term.PromptView
	screen *cells.Screen
	box    term.PositionBox
	mu     sync.Mutex
	// under mu:
	handled   []string
	shutdowns int
	ran       string
	answers   []key // of the handler, in order of the lines
	curX, curY int
	bad       string

	repaint chan struct{}
	release chan struct{}
}

func (l *life) ShowCursor(x, y int) { l.mu.Lock(); l.curX, l.curY = x, y; l.mu.Unlock() }
func (l *life) HideCursor()         {}
func (l *life) RequestRepaint() {
	select {
	case l.repaint <- struct{}{}:
	default:
	}
}

// draw draws the prompt if that was asked for.
func (l *life) draw() {
	select {
	case <-l.repaint:
		l.screen.Untouch()
		l.view.FlushTo(l.screen)
	default:
	}
}

func (l *life) look(o op) seen {
	l.draw()
	s := seen{Cur: -1, Rows: []string{}}
	row := make([]string, l.box.StartRow+l.box.Rows)
	n := 0
	for y := l.box.StartRow; y < l.box.StartRow+l.box.Rows; y++ {
		var b strings.Builder
		for x := l.box.StartCol; x < l.box.StartCol+l.box.Cols; x++ {
			c := l.screen.At(x, y)
			if !c.Touched {
				continue
			}
			if c.Main != 0 {
				b.WriteRune(c.Main)
			}
			for _, r := range c.Comb {
				b.WriteRune(r)
			}
			if runewidth.RuneWidth(c.Main) == 2 {
				x++
			}
		}
		row[y] = strings.TrimRight(b.String(), " ")
		if row[y] != "" {
			n = y + 1
		}
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	s.Handled = append([]string{}, l.handled...)
	s.Shutdowns, s.Ran, s.Bad = l.shutdowns, l.ran, l.bad
	if o.Want.Cur >= 0 && l.curY == n-1 {
		s.Cur = l.curX - l.box.StartCol
	}
	// as many of the last rows as are wanted
	for k := n - len(o.Want.Rows); k < n; k++ {
		if k >= l.box.StartRow && k >= 0 {
			s.Rows = append(s.Rows, row[k])
		}
	}
	return s
}

func same(a, b seen) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func main() {
	withTerminal()
	hlib.Mode("life", func(raw json.RawMessage) interface{} {
		if hlib.Slow >= 3 {
			return hlib.Skipped
		}
		var t struct {
			Ops []op `json:"ops"`
		}
		hlib.Must(raw, &t)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		w, h := 80, 24
		for _, o := range t.Ops {
			if n := o.Box.Col + o.Box.Cols; n > w {
				w = n
			}
			if n := o.Box.Row + o.Box.Rows; n > h {
				h = n
			}
		}
		l := &life{screen: cells.New(w, h), repaint: make(chan struct{}, 1), release: make(chan struct{})}
		setup := make(chan struct{})
		l.view = &term.PromptView{
			Screen: l,
			SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
				return prompt.New(nil, func(prompt.Document) []prompt.Suggest { return nil }, opts...)
			},
			HandleInput: func(in string) (*string, bool) {
				l.mu.Lock()
				l.handled = append(l.handled, in)
				if len(l.answers) == 0 {
					l.mu.Unlock()
					return nil, false
				}
				a := l.answers[0]
				l.answers = l.answers[1:]
				l.mu.Unlock()
				if a.Hold {
					<-l.release
				}
				if len(a.Text) == 0 {
					return nil, a.Stop
				}
				s := strings.Join(a.Text, "\n") + "\n"
				return &s, a.Stop
			},
			OnSetup: func() { close(setup) },
		}
		press := func(ks []key) {
			for _, k := range ks {
				if k.K == "enter" {
					l.mu.Lock()
					l.answers = append(l.answers, k)
					l.mu.Unlock()
				}
				code, ok := map[string]tcell.Key{"enter": tcell.KeyEnter, "left": tcell.KeyLeft, "right": tcell.KeyRight,
					"back": tcell.KeyBackspace2, "home": tcell.KeyCtrlA, "end": tcell.KeyCtrlE}[k.K]
				r := rune(0)
				if !ok {
					code, r = tcell.KeyRune, []rune(k.K)[0]
				}
				l.view.HandleKey(tcell.NewEventKey(code, r, tcell.ModNone))
			}
		}
		var obs []seen
		quiet, ran := false, false
		failed := false
		wait := func(o op) {
			if o.Quiet {
				quiet = true
				time.Sleep(35 * time.Millisecond)
			}
			deadline := time.Now().Add(4 * time.Second)
			s := l.look(o)
			for ; !same(s, o.Want) && time.Now().Before(deadline); s = l.look(o) {
				time.Sleep(time.Millisecond)
			}
			if !same(s, o.Want) {
				failed = true
				hlib.Slow++
			}
			obs = append(obs, s)
		}
		for _, o := range t.Ops {
			if failed {
				break
			}
			switch o.Op {
			case "place":
				l.box = term.PositionBox{StartCol: o.Box.Col, StartRow: o.Box.Row, Cols: o.Box.Cols, Rows: o.Box.Rows}
				l.view.SetBox(l.box)
			case "run":
				ran = true
				var ini *string
				if o.Initial != nil {
					s := ""
					for _, k := range o.Initial {
						if k.K == "enter" {
							l.answers = append(l.answers, k)
						} else {
							s += k.K
						}
					}
					ini = &s
				}
				l.mu.Lock()
				l.ran = "running"
				l.mu.Unlock()
				go func() {
					err := l.view.Run(ctx, ini, func() {
						l.mu.Lock()
						l.shutdowns++
						l.mu.Unlock()
					})
					l.mu.Lock()
					l.ran = "done"
					if err != nil {
						l.ran = fmt.Sprint("error: ", err)
					}
					l.mu.Unlock()
				}()
				select {
				case <-setup:
				case <-time.After(5 * time.Second):
					l.bad = "not set up after 5s"
				}
			case "type":
				press(o.Keys)
			case "release":
				l.release <- struct{}{}
			case "cancel":
				cancel()
			}
			wait(o)
		}
		// nothing more happens
		if quiet && !failed {
			time.Sleep(40 * time.Millisecond)
		}
		if len(t.Ops) > 0 && !failed {
			// (what is wanted may be there for a moment before the last keys are seen)
			o := t.Ops[len(t.Ops)-1]
			o.Quiet = false
			wait(o)
		}
		cancel()
		close(l.release)
		if ran { // let it end
			go l.view.HandleKey(tcell.NewEventKey(tcell.KeyEnter, 0, tcell.ModNone))
		}
		return obs
	})
	hlib.Main()
}
