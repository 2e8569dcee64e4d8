// Package cells has a screen that records what is drawn on it.
package cells

import (
	"fmt"
	"sync"

	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"
)

// Cell is a cell of the screen.
type Cell struct {
	Main    rune
	Comb    []rune
	Style   tcell.Style
	Touched bool
}

// Screen records; screen functions it does not have panic.
type Screen struct {
	tcell.Screen
	mu      sync.Mutex
	W, H    int
	Cells   []Cell
	Off     int                         // writes outside of the screen
	OnWrite func(x, y int)              // called for each write
	OnEvent func(kind string, a, b int) // show, clear, cursor, fini ...
	CurX    int
	CurY    int
	events  chan tcell.Event
	quit    chan struct{}
	fini    bool
	Polling chan struct{} // receives when PollEvent waits
}

// New makes a screen of the given size.
func New(w, h int) *Screen { return NewQueue(w, h, 64) }

// NewQueue makes a screen with room for some events not polled yet.
func NewQueue(w, h, events int) *Screen {
	s := &Screen{W: w, H: h, CurX: -1, CurY: -1}
	s.events = make(chan tcell.Event, events)
	s.quit = make(chan struct{})
	s.reset()
	return s
}

func (s *Screen) reset() { s.Cells = make([]Cell, s.W*s.H) }

// SetSize changes the size, dropping the content.
func (s *Screen) SetSize(w, h int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.W, s.H = w, h
	s.reset()
}

// Untouch marks all cells as not written, with content no one writes.
func (s *Screen) Untouch() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reset()
	s.Off = 0
}

func (s *Screen) event(kind string, a, b int) {
	if s.OnEvent != nil {
		s.OnEvent(kind, a, b)
	}
}

func (s *Screen) SetContent(x, y int, main rune, comb []rune, style tcell.Style) {
	if s.OnWrite != nil {
		s.OnWrite(x, y)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if x < 0 || y < 0 || x >= s.W || y >= s.H {
		s.Off++
		return
	}
	s.Cells[y*s.W+x] = Cell{main, append([]rune{}, comb...), style, true}
}

func (s *Screen) SetCell(x, y int, style tcell.Style, ch ...rune) {
	if len(ch) > 0 {
		s.SetContent(x, y, ch[0], ch[1:], style)
	} else {
		s.SetContent(x, y, ' ', nil, style)
	}
}

func (s *Screen) GetContent(x, y int) (rune, []rune, tcell.Style, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if x < 0 || y < 0 || x >= s.W || y >= s.H {
		return 0, nil, 0, 1
	}
	c := s.Cells[y*s.W+x]
	w := runewidth.RuneWidth(c.Main)
	if w == 0 {
		w = 1
	}
	return c.Main, c.Comb, c.Style, w
}

func (s *Screen) Fill(r rune, style tcell.Style) {
	s.mu.Lock()
	w, h := s.W, s.H
	s.mu.Unlock()
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			s.SetContent(x, y, r, nil, style)
		}
	}
}

func (s *Screen) Clear() {
	s.event("clear", 0, 0)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reset()
}

func (s *Screen) Size() (int, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.W, s.H
}

func (s *Screen) ShowCursor(x, y int) {
	s.mu.Lock()
	s.CurX, s.CurY = x, y
	s.mu.Unlock()
	s.event("cursor", x, y)
}
func (s *Screen) HideCursor()           { s.ShowCursor(-1, -1) }
func (s *Screen) RequestRepaint()       { s.event("repaint", 0, 0) }
func (s *Screen) Show()                 { s.event("show", 0, 0) }
func (s *Screen) Sync()                 { s.event("show", 0, 0) }
func (s *Screen) Init() error           { s.event("init", 0, 0); return nil }
func (s *Screen) SetStyle(tcell.Style)  {}
func (s *Screen) EnableMouse()          {}
func (s *Screen) DisableMouse()         {}
func (s *Screen) HasMouse() bool        { return false }
func (s *Screen) Colors() int           { return 256 }
func (s *Screen) CharacterSet() string  { return "UTF-8" }
func (s *Screen) HasKey(tcell.Key) bool { return true }
func (s *Screen) CanDisplay(rune, bool) bool {
	return true
}
func (s *Screen) RegisterRuneFallback(rune, string) {}
func (s *Screen) UnregisterRuneFallback(rune)       {}
func (s *Screen) Resize(int, int, int, int)         {}

func (s *Screen) Fini() {
	s.mu.Lock()
	was := s.fini
	s.fini = true
	s.mu.Unlock()
	s.event("fini", 0, 0)
	if !was {
		close(s.quit)
	}
}

func (s *Screen) PollEvent() tcell.Event {
	if s.Polling != nil {
		select {
		case s.Polling <- struct{}{}:
		case <-s.quit:
			return nil
		}
	}
	select {
	case <-s.quit:
		return nil
	case ev := <-s.events:
		return ev
	}
}

func (s *Screen) PostEvent(ev tcell.Event) error {
	select {
	case s.events <- ev:
		return nil
	default:
		return tcell.ErrEventQFull
	}
}
func (s *Screen) PostEventWait(ev tcell.Event) { s.events <- ev }

// Text is the cell's content as text ("" if it was not written).
func (c Cell) Text() string {
	if !c.Touched {
		return ""
	}
	m := c.Main
	if m == 0 {
		m = ' '
	}
	return string(m) + string(c.Comb)
}

// Wide tells whether the cell's character needs two columns.
func (c Cell) Wide() bool { return c.Touched && runewidth.RuneWidth(c.Main) == 2 }

// At returns a cell.
func (s *Screen) At(x, y int) Cell {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Cells[y*s.W+x]
}

// Grid returns what is shown in an area: a string per cell, of its text and
// the name of its style; "" for a cell not written, and "?" for a cell covered
// by the wide character before it.  The second result describes the first
// problem: something written outside of the area, or a wide character in the
// area's last column.
func (s *Screen) Grid(x0, y0, w, h int, style func(tcell.Style) string) ([][]string, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	bad := ""
	if s.Off > 0 {
		bad = "written outside of the screen"
	}
	for y := 0; y < s.H; y++ {
		for x := 0; x < s.W; x++ {
			in := x >= x0 && y >= y0 && x < x0+w && y < y0+h
			c := s.Cells[y*s.W+x]
			if !in && c.Touched {
				bad = fmt.Sprintf("cell (%d, %d) outside of the area is written: %q", x-x0, y-y0, c.Text())
			}
			if in && x == x0+w-1 && c.Wide() {
				bad = fmt.Sprintf("wide character in the last column of row %d", y-y0)
			}
		}
	}
	g := [][]string{}
	for y := y0; y < y0+h; y++ {
		r := []string{}
		covered := false
		for x := x0; x < x0+w; x++ {
			c := s.Cells[y*s.W+x]
			was := covered
			covered = !was && c.Wide()
			switch {
			case was:
				r = append(r, "?")
			case !c.Touched:
				r = append(r, "")
			default:
				r = append(r, c.Text()+style(c.Style))
			}
		}
		g = append(g, r)
	}
	return g, bad
}
