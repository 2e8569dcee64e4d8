package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"sigs.k8s.io/instrumentation-tools/zzverif/cells"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

// recorder collects what happens, in order.
type recorder struct {
	mu  sync.Mutex
	log []interface{}
}

func (r *recorder) add(x hlib.J) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.log = append(r.log, x)
}
func (r *recorder) take() []interface{} {
	r.mu.Lock()
	defer r.mu.Unlock()
	l := r.log
	r.log = nil
	if l == nil {
		l = []interface{}{}
	}
	return l
}

// numbered is a view that draws its number in a few cells of its own.
type numbered struct {
	n   int
	rec *recorder
}

func (v *numbered) SetBox(b term.PositionBox) {
	x := hlib.J{"e": "setbox", "v": v.n, "c": b.Cols, "r": b.Rows}
	if b.StartCol != 0 || b.StartRow != 0 {
		x["at"] = [2]int{b.StartCol, b.StartRow}
	}
	v.rec.add(x)
}
func (v *numbered) FlushTo(s tcell.Screen) {
	v.rec.add(hlib.J{"e": "flush", "v": v.n})
	w, h := s.Size()
	s.SetContent((v.n-1)%w, 0, rune('0'+v.n), nil, tcell.StyleDefault)
	s.SetContent(0, (v.n-1)%h, rune('0'+v.n), nil, tcell.StyleDefault)
}

// on tells whose drawings are on the screen.
func on(s *cells.Screen) []int {
	seen := map[int]bool{}
	w, h := s.Size()
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if c := s.At(x, y); c.Touched && c.Main != ' ' {
				seen[int(c.Main-'0')] = true
			}
		}
	}
	r := []int{}
	for v := range seen {
		r = append(r, v)
	}
	sort.Ints(r)
	return r
}

const patience = 5 * time.Second

func await(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	case <-time.After(patience):
		hlib.Slow++
		return false
	}
}

type loopEvent struct {
	Op   string
	V    int
	C, R int
	K    int
}

type loopTest struct {
	Ops   []loopEvent
	Burst bool // give all events at once
	Held  bool // stop while a key is being handled
}

func loopMode() {
	hlib.Mode("runner", func(raw json.RawMessage) interface{} {
		var t loopTest
		hlib.Must(raw, &t)
		if hlib.Slow > 3 {
			return hlib.Skipped
		}
		rec := &recorder{}
		scr := cells.New(20, 8)
		scr.Polling = make(chan struct{})
		initialized := false
		scr.OnEvent = func(kind string, a, b int) {
			switch kind {
			case "init":
				initialized = true
			case "show":
				rec.add(hlib.J{"e": "show", "on": on(scr)})
			case "fini":
				rec.add(hlib.J{"e": "fini"})
			}
		}
		held := make(chan struct{})
		holding := make(chan struct{}, 1)
		var hold sync.Mutex
		wantHold := false
		r := &term.Runner{
			MakeScreen: func() (tcell.Screen, error) { return scr, nil },
			KeyHandler: func(k *tcell.EventKey) {
				rec.add(hlib.J{"e": "key", "k": int(k.Rune()-'a') + 1})
				hold.Lock()
				h := wantHold
				hold.Unlock()
				if h {
					holding <- struct{}{}
					<-held
				}
			},
		}
		views := map[int]*numbered{}
		get := func(n int) *numbered {
			if views[n] == nil {
				views[n] = &numbered{n, rec}
			}
			return views[n]
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		done := make(chan error, 1)
		var initial term.View
		if t.Ops[0].V > 0 {
			initial = get(t.Ops[0].V)
		}
		go func() { done <- r.Run(ctx, initial) }()
		outs := []interface{}{}
		if !await(scr.Polling) {
			return hlib.J{"stuck": "the loop does not start", "steps": outs}
		}
		if !initialized {
			return hlib.J{"stuck": "the screen is not initialized", "steps": outs}
		}
		outs = append(outs, rec.take())
		post := func(e loopEvent) {
			switch e.Op {
			case "resize":
				scr.SetSize(e.C, e.R)
				scr.PostEvent(tcell.NewEventResize(e.C, e.R))
			case "change":
				scr.SetSize(e.C, e.R)
			case "update":
				r.RequestUpdate(get(e.V))
			case "repaint":
				r.RequestRepaint()
			case "key":
				scr.PostEvent(tcell.NewEventKey(tcell.KeyRune, rune('a'+e.K-1), 0))
			}
		}
		if t.Burst {
			for _, e := range t.Ops[1:] {
				post(e)
			}
			for range t.Ops[1:] {
				if !await(scr.Polling) {
					return hlib.J{"stuck": "the loop does not ask for the next event", "steps": append(outs, rec.take())}
				}
			}
			outs = append(outs, rec.take())
		} else {
			for _, e := range t.Ops[1:] {
				if post(e); e.Op == "change" {
					outs = append(outs, []interface{}{})
					continue
				}
				if !await(scr.Polling) {
					return hlib.J{"stuck": fmt.Sprintf("the loop does not ask for another event after %v", e), "steps": append(outs, rec.take())}
				}
				outs = append(outs, rec.take())
			}
		}
		end := ""
		if t.Held {
			hold.Lock()
			wantHold = true
			hold.Unlock()
			scr.PostEvent(tcell.NewEventKey(tcell.KeyRune, 'z', 0))
			if !await(holding) {
				return hlib.J{"stuck": "a key is not handled", "steps": outs}
			}
			rec.take()
			cancel()
			select {
			case <-done:
				end = "the run ended while the event loop was still handling a key"
				done <- nil
			case <-time.After(40 * time.Millisecond):
			}
			close(held)
		} else {
			cancel()
		}
		select {
		case err := <-done:
			if err != nil && end == "" {
				end = "the run ended with an error: " + err.Error()
			}
		case <-time.After(patience):
			hlib.Slow++
			end = "the run does not end"
		}
		fin := 0
		for _, x := range rec.take() {
			if x.(hlib.J)["e"] == "fini" {
				fin++
			} else if end == "" {
				end = fmt.Sprintf("after the end: %v", x)
			}
		}
		if fin == 0 && end == "" {
			end = "the screen is not shut down"
		}
		select {
		case <-scr.Polling:
			if end == "" {
				end = "the loop still asks for events after the end"
			}
		default:
		}
		return hlib.J{"stuck": "", "steps": outs, "end": end}
	})
	// several goroutines ask for repaints and move the cursor while the loop
	// runs: every repaint asked for is drawn, without data races
	hlib.Mode("runnerconc", func(raw json.RawMessage) interface{} {
		var t struct{ Workers, Each int }
		hlib.Must(raw, &t)
		rec := &recorder{}
		scr := cells.NewQueue(20, 8, t.Workers*t.Each+10)
		flushes := 0
		scr.OnEvent = func(kind string, a, b int) {
			if kind == "show" {
				flushes++
			}
		}
		started := make(chan struct{})
		end := make(chan struct{}, 1)
		r := &term.Runner{
			MakeScreen: func() (tcell.Screen, error) { return scr, nil },
			KeyHandler: func(*tcell.EventKey) { end <- struct{}{} },
			OnStart:    func() { close(started) },
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		done := make(chan error, 1)
		go func() { done <- r.Run(ctx, &numbered{1, rec}) }()
		if !await(started) {
			return hlib.J{"stuck": "the loop does not start"}
		}
		var wg sync.WaitGroup
		for w := 0; w < t.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < t.Each; i++ {
					switch (w + i) % 3 {
					case 0:
						r.ShowCursor(w, i)
					case 1:
						r.HideCursor()
					}
					if i%5 == 4 {
						r.RequestUpdate(&numbered{2, rec})
					} else {
						r.RequestRepaint()
					}
				}
			}(w)
		}
		wg.Wait()
		scr.PostEvent(tcell.NewEventKey(tcell.KeyRune, 'z', 0))
		if !await(end) {
			return hlib.J{"stuck": "the loop does not handle all events"}
		}
		cancel()
		select {
		case <-done:
		case <-time.After(patience):
			return hlib.J{"stuck": "the run does not end"}
		}
		return hlib.J{"stuck": "", "shown": flushes}
	})
}
