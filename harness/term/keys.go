package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"syscall"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/zzverif/cells"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

type key struct {
	name string
	evt  *tcell.EventKey
	want []prompt.Key // any of them
	kind string
}

var keys []key

func add(name string, k tcell.Key, ch rune, mod tcell.ModMask, want ...prompt.Key) {
	kind := "special"
	if len(want) == 0 {
		kind = "unknown"
	}
	keys = append(keys, key{name, tcell.NewEventKey(k, ch, mod), want, kind})
}

func initKeys() {
	for _, r := range "abz019 ~_{}[]()\"'\\/=é日µ😀ß\u0301\u00a0\u0080\u009b\u07ff\u0800\ud7ff\ue000\ufffd\uffff\U00010000\U0010ffff" {
		keys = append(keys, key{string(r), tcell.NewEventKey(tcell.KeyRune, r, 0), nil, "char"})
	}
	keys = append(keys, key{"shift-A", tcell.NewEventKey(tcell.KeyRune, 'A', tcell.ModShift), nil, "char"})
	keys = append(keys, key{"alt-x", tcell.NewEventKey(tcell.KeyRune, 'x', tcell.ModAlt), nil, "char"})
	keys = append(keys, key{"alt-\u00e9", tcell.NewEventKey(tcell.KeyRune, 'é', tcell.ModAlt|tcell.ModShift), nil, "char"})
	for i := 0; i < 26; i++ {
		k, name := tcell.KeyCtrlA+tcell.Key(i), "ctrl-"+string(rune('a'+i))
		switch name {
		case "ctrl-h":
			add("backspace", k, 0, 0, prompt.Backspace)
		case "ctrl-i":
			add("tab", k, 0, 0, prompt.Tab)
		case "ctrl-j": // has no code of its own
		case "ctrl-m":
			add("enter", k, 0, 0, prompt.ControlM, prompt.Enter)
		default:
			add(name, k, 0, tcell.ModCtrl, prompt.ControlA+prompt.Key(i))
			add(name+" as a byte", tcell.KeyRune, rune(i+1), 0, prompt.ControlA+prompt.Key(i))
		}
	}
	add("enter as a rune", tcell.KeyRune, '\r', 0, prompt.ControlM, prompt.Enter)
	add("tab as a rune", tcell.KeyRune, '\t', 0, prompt.Tab)
	add("escape as a rune", tcell.KeyRune, 27, 0, prompt.Escape)
	add("delete as a rune", tcell.KeyRune, 127, 0, prompt.Backspace)
	add("escape", tcell.KeyEscape, 0, 0, prompt.Escape)
	add("backspace2", tcell.KeyBackspace2, 0, 0, prompt.Backspace)
	add("ctrl-space", tcell.KeyCtrlSpace, 0, tcell.ModCtrl, prompt.ControlSpace)
	add("ctrl-backslash", tcell.KeyCtrlBackslash, 0, tcell.ModCtrl, prompt.ControlBackslash)
	add("ctrl-]", tcell.KeyCtrlRightSq, 0, tcell.ModCtrl, prompt.ControlSquareClose)
	add("ctrl-^", tcell.KeyCtrlCarat, 0, tcell.ModCtrl, prompt.ControlCircumflex)
	add("ctrl-_", tcell.KeyCtrlUnderscore, 0, tcell.ModCtrl, prompt.ControlUnderscore)
	for i, k := range []prompt.Key{prompt.F1, prompt.F2, prompt.F3, prompt.F4, prompt.F5, prompt.F6, prompt.F7, prompt.F8,
		prompt.F9, prompt.F10, prompt.F11, prompt.F12, prompt.F13, prompt.F14, prompt.F15, prompt.F16, prompt.F17,
		prompt.F18, prompt.F19, prompt.F20, prompt.F21, prompt.F22, prompt.F23, prompt.F24} {
		add(fmt.Sprintf("F%d", i+1), tcell.KeyF1+tcell.Key(i), 0, 0, k)
	}
	for _, x := range []struct {
		name             string
		k                tcell.Key
		plain, ctl, shft prompt.Key
	}{
		{"left", tcell.KeyLeft, prompt.Left, prompt.ControlLeft, prompt.ShiftLeft},
		{"right", tcell.KeyRight, prompt.Right, prompt.ControlRight, prompt.ShiftRight},
		{"up", tcell.KeyUp, prompt.Up, prompt.ControlUp, prompt.ShiftUp},
		{"down", tcell.KeyDown, prompt.Down, prompt.ControlDown, prompt.ShiftDown},
		{"delete", tcell.KeyDelete, prompt.Delete, prompt.ControlDelete, prompt.ShiftDelete},
	} {
		add(x.name, x.k, 0, 0, x.plain)
		add("ctrl-"+x.name, x.k, 0, tcell.ModCtrl, x.ctl)
		add("shift-"+x.name, x.k, 0, tcell.ModShift, x.shft)
		add("ctrl-shift-"+x.name, x.k, 0, tcell.ModShift|tcell.ModCtrl, x.ctl, x.shft)
		// alt and meta mean nothing to the prompt
		add("alt-"+x.name, x.k, 0, tcell.ModAlt, x.plain)
		add("alt-ctrl-"+x.name, x.k, 0, tcell.ModAlt|tcell.ModCtrl, x.ctl)
		add("alt-shift-"+x.name, x.k, 0, tcell.ModAlt|tcell.ModShift, x.shft)
		add("meta-shift-"+x.name, x.k, 0, tcell.ModMeta|tcell.ModShift, x.shft)
	}
	add("home", tcell.KeyHome, 0, 0, prompt.Home)
	add("end", tcell.KeyEnd, 0, 0, prompt.End)
	add("page up", tcell.KeyPgUp, 0, 0, prompt.PageUp)
	add("page down", tcell.KeyPgDn, 0, 0, prompt.PageDown)
	add("insert", tcell.KeyInsert, 0, 0, prompt.Insert)
	add("backtab", tcell.KeyBacktab, 0, 0, prompt.BackTab)
	// keys with one code, whatever is held down with them
	for _, m := range []tcell.ModMask{tcell.ModShift, tcell.ModCtrl, tcell.ModAlt, tcell.ModMeta | tcell.ModShift} {
		add(fmt.Sprintf("home with %d", m), tcell.KeyHome, 0, m, prompt.Home)
		add(fmt.Sprintf("page down with %d", m), tcell.KeyPgDn, 0, m, prompt.PageDown)
		add(fmt.Sprintf("F5 with %d", m), tcell.KeyF5, 0, m, prompt.F5)
	}
	for _, k := range []tcell.Key{tcell.KeyHelp, tcell.KeyExit, tcell.KeyClear, tcell.KeyCancel, tcell.KeyPrint, tcell.KeyPause,
		tcell.KeyUpLeft, tcell.KeyDownRight, tcell.KeyCenter, tcell.KeyF25, tcell.KeyF40, tcell.KeyF64} {
		add(fmt.Sprintf("unknown %d", k), k, 0, 0)
	}
}

func ints(b []byte) []int {
	r := []int{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

func keyModes() {
	initKeys()
	// the table of keys, as the prompt's library defines their codes
	hlib.Mode("keytable", func(raw json.RawMessage) interface{} {
		outs := []interface{}{}
		for _, k := range keys {
			codes := [][]int{}
			bytes := []int{}
			for _, w := range k.want {
				for _, s := range prompt.ASCIISequences {
					if s.Key == w && prompt.GetKey(s.ASCIICode) == w {
						codes = append(codes, ints(s.ASCIICode))
					}
				}
			}
			if k.kind == "char" {
				bytes = ints([]byte(string(k.evt.Rune())))
			}
			if k.kind == "special" && len(codes) == 0 {
				hlib.Fail("the prompt has no code for %s", k.name)
			}
			outs = append(outs, hlib.J{"name": k.name, "kind": k.kind, "codes": codes, "bytes": bytes})
		}
		return outs
	})
	read := func(r prompt.ConsoleParser) (interface{}, bool) {
		b, err := r.Read()
		switch {
		case len(b) > 0 && err == nil:
			return hlib.J{"b": ints(b)}, true
		case len(b) == 0 && err == syscall.EWOULDBLOCK:
			return hlib.J{"b": []int{}}, false
		}
		return hlib.J{"b": append(ints(b), -1), "err": fmt.Sprint(err)}, true
	}
	hlib.Mode("keys", func(raw json.RawMessage) interface{} {
		var t struct{ Ops []int }
		hlib.Must(raw, &t)
		view, _, r := settle(cells.New(10, 10))
		h := []interface{}{}
		n := 0
		for _, o := range t.Ops {
			if o > 0 {
				view.HandleKey(keys[o-1].evt)
				h = append(h, hlib.J{"k": o})
				n++
				continue
			}
			x, _ := read(r)
			h = append(h, x)
		}
		// whatever is left arrives now, each read taking at least one key
		for i := 0; i < n+2; i++ {
			x, _ := read(r)
			h = append(h, x)
		}
		return hlib.J{"h": h}
	})
	// pressing and reading at the same time; reads without input are left out
	hlib.Mode("keysconc", func(raw json.RawMessage) interface{} {
		var t struct{ Ops []int }
		hlib.Must(raw, &t)
		view, _, r := settle(cells.New(10, 10))
		h := []interface{}{}
		var wg sync.WaitGroup
		wg.Add(1)
		for _, o := range t.Ops {
			if o > 0 {
				h = append(h, hlib.J{"k": o})
			}
		}
		var mu sync.Mutex
		pressed := false
		go func() {
			defer wg.Done()
			for i, o := range t.Ops {
				if o > 0 {
					view.HandleKey(keys[o-1].evt)
				} else if i%7 == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			}
			mu.Lock()
			pressed = true
			mu.Unlock()
		}()
		idle := 0
		for idle < len(t.Ops)+2 {
			mu.Lock()
			all := pressed
			mu.Unlock()
			x, some := read(r)
			if some {
				h = append(h, x)
				idle = 0
			} else if all {
				idle++
			} else {
				time.Sleep(10 * time.Microsecond)
			}
		}
		wg.Wait()
		return hlib.J{"h": h}
	})
}
