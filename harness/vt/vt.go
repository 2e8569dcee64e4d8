package vt

import (
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/mattn/go-runewidth"
)

// Cell is what a place on the screen shows.
type Cell struct {
	Text string // "" is the right half of a wide character
	Fg   string // the parameters of its colour
}

// Screen understands what tcell writes to an xterm.
type Screen struct {
	mu         sync.Mutex
	cols, rows int
	cells      [][]Cell
	x, y       int
	fg         string
	buf        []byte
	// Alt says whether the alternate screen is shown, Cursor whether the cursor is.
	alt, cursor bool
	unknown     []string
}

// NewScreen is a blank screen.
func NewScreen(cols, rows int) *Screen {
	s := &Screen{cursor: true}
	s.Resize(cols, rows)
	return s
}

// Resize makes it a blank screen of another size.
func (s *Screen) Resize(cols, rows int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cols, s.rows = cols, rows
	s.cells = make([][]Cell, rows)
	for y := range s.cells {
		s.cells[y] = make([]Cell, cols)
	}
	s.clear()
}

func (s *Screen) clear() {
	for y := range s.cells {
		for x := range s.cells[y] {
			s.cells[y][x] = Cell{Text: " "}
		}
	}
}

// Write takes output of the program.
func (s *Screen) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.buf = append(s.buf, p...)
	for {
		n := s.step(s.buf)
		if n == 0 {
			return len(p), nil
		}
		s.buf = s.buf[n:]
	}
}

// step handles one thing at the beginning of b, and tells how long it was; 0 if
// it is not all there yet.
func (s *Screen) step(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	switch c := b[0]; {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] >= 0x40 && b[i] <= 0x7e {
					s.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		case '(', ')':
			if len(b) < 3 {
				return 0
			}
			return 3
		case ']':
			for i := 2; i < len(b); i++ {
				if b[i] == 7 {
					return i + 1
				}
			}
			return 0
		case '=', '>':
			return 2
		}
		s.unknown = append(s.unknown, strconv.Quote(string(b[:2])))
		return 2
	case c == '\r':
		s.x = 0
		return 1
	case c == '\n':
		if s.y < s.rows-1 {
			s.y++
		}
		return 1
	case c == '\b':
		if s.x > 0 {
			s.x--
		}
		return 1
	case c < 0x20 || c == 0x7f:
		s.unknown = append(s.unknown, strconv.Quote(string(b[:1])))
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	w := runewidth.RuneWidth(r)
	if w == 0 { // combining
		if s.x > 0 && s.y < s.rows && s.x <= s.cols {
			s.cells[s.y][s.x-1].Text += string(r)
		}
		return n
	}
	if s.y < s.rows && s.x+w <= s.cols {
		s.cells[s.y][s.x] = Cell{string(r), s.fg}
		if w == 2 {
			s.cells[s.y][s.x+1] = Cell{"", s.fg}
		}
	}
	s.x += w
	return n
}

func (s *Screen) csi(args string, end byte) {
	ps := strings.Split(args, ";")
	num := func(i, def int) int {
		if i < len(ps) {
			if n, err := strconv.Atoi(ps[i]); err == nil {
				return n
			}
		}
		return def
	}
	switch end {
	case 'H':
		s.y, s.x = num(0, 1)-1, num(1, 1)-1
		if s.y >= s.rows {
			s.y = s.rows - 1
		}
	case 'J':
		if args == "2" || args == "" {
			s.clear()
		}
	case 'm':
		for i := 0; i < len(ps); i++ {
			switch n := num(i, 0); {
			case n == 0 || n == 39:
				s.fg = ""
			case n >= 30 && n < 38 || n >= 90 && n < 98:
				s.fg = strconv.Itoa(n)
			case n == 38 && num(i+1, 0) == 5:
				s.fg = "38;5;" + strconv.Itoa(num(i+2, 0))
				i += 2
			case n == 48 && num(i+1, 0) == 5:
				i += 2
			}
		}
	case 'h', 'l':
		switch args {
		case "?1049":
			s.alt = end == 'h'
			s.clear()
		case "?25":
			s.cursor = end == 'h'
		}
	case 't': // (the window's title)
	case 'K':
		for x := s.x; x < s.cols && s.y < s.rows; x++ {
			s.cells[s.y][x] = Cell{Text: " "}
		}
	default:
		s.unknown = append(s.unknown, args+string(end))
	}
}

// Snapshot is the screen at a time.
type Snapshot struct {
	Cols, Rows int
	Cells      [][]Cell
	X, Y       int
	Alt        bool
	Unknown    []string
}

// Look copies the screen.
func (s *Screen) Look() *Snapshot {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := &Snapshot{Cols: s.cols, Rows: s.rows, X: s.x, Y: s.y, Alt: s.alt, Unknown: append([]string{}, s.unknown...)}
	for _, row := range s.cells {
		r.Cells = append(r.Cells, append([]Cell{}, row...))
	}
	return r
}

// Text is the text of part of a row.
func (s *Snapshot) Text(y, from, to int) string {
	var b strings.Builder
	for x := from; x < to && x < s.Cols && y < s.Rows; x++ {
		b.WriteString(s.Cells[y][x].Text)
	}
	return b.String()
}
