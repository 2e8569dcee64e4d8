// Driver for interactive sessions of the command (C32).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
	"sigs.k8s.io/instrumentation-tools/zzverif/vt"
)

const period = 200 * time.Millisecond

type config struct {
	Hosts  []string
	Query  string
	Window time.Duration
}

// session is the command itself, in a process and on a terminal of its own.
func session() {
	var c config
	hlib.Must([]byte(os.Getenv("VERIF_LIVE")), &c)
	os.Unsetenv("VERIF_LIVE")
	res := os.NewFile(3, "result")
	out := &bytes.Buffer{}
	cmd := metrics.MetricsCommand{
		PromQCommand: cli.PromQCommand{RestConfig: &rest.Config{}, Streams: genericclioptions.IOStreams{In: os.Stdin, Out: out, ErrOut: out}},
		Period:       period,
		Window:       c.Window,
	}
	verdict := "ok"
	if err := cmd.Run(cli.PromQFlags{Continuous: true, HostNames: c.Hosts, PromQuery: c.Query, Output: "json"}); err != nil {
		verdict = "error"
	}
	if out.Len() > 0 {
		verdict += " and printed " + out.String()
	}
	fmt.Fprint(res, verdict)
	os.Exit(0)
}

type op struct {
	Op, Line, Offer string
	Doc             []int
	Bad             []int
	Cols, Lines     int
	Back            int
	Width           int
	Stale           bool // nothing new is plotted
	Always          bool // the query has results at all times
	Strict          bool // lines do not hide each other
	Want            seen
}

// seen is what can be observed at a time.
type seen struct {
	Rows  []string `json:"rows"`  // the last ones of the conversation
	Key   []string `json:"key"`   // entries of the key
	Lo    string   `json:"lo"`    // label of the lower end of the axis
	Hi    string   `json:"hi"`    // and of the upper end, if there is a tick
	Dom   string   `json:"dom"`   // format of the labels of the time axis
	Lines string   `json:"lines"` // whether the graph has the colours of the key
	Done  string   `json:"done"`
	Cur   int      `json:"cur"`
	Popup string   `json:"popup"`
	Alt   bool     `json:"alt"`
	Bad   string   `json:"bad"`
}

var series = []struct {
	target     int
	name, zone string
}{{0, "mem_used", "x"}, {0, "mem_used", "y"}, {1, "mem_used", "z"}, {1, "mem_used", "w"}, {1, "net_total", ""}, {0, "zeta", "x"}, {1, "mem_free", "y"}, {0, "disk_used", "x"}}

type live struct {
	window  time.Duration
	screen  *vt.Screen
	urls    []string
	began   time.Time
	scale   float64
	stalled bool // the targets are no longer scraped
	colours map[string]string

	mu     sync.Mutex
	doc    []int
	bad    []int
	counts []int // requests
	times  []time.Time
}

func (l *live) serve(w http.ResponseWriter, target int) {
	l.mu.Lock()
	doc, bad := l.doc, l.bad
	l.counts[target]++
	l.times[target] = time.Now()
	n := l.counts[target]
	l.mu.Unlock()
	var b strings.Builder
	for i, s := range series {
		if s.target == target && doc[i] > 0 {
			if s.zone == "" {
				fmt.Fprintf(&b, "%s %v\n", s.name, float64(doc[i])*l.scale)
			} else {
				label := "zone"
				if s.name == "disk_used" {
					label = "kind"
				}
				fmt.Fprintf(&b, "%s{%s=%q} %v\n", s.name, label, s.zone, float64(doc[i])*l.scale)
			}
		}
	}
	for _, k := range bad {
		if k == target {
			switch n % 3 {
			case 0:
				w.WriteHeader(500)
			case 1:
				fmt.Fprint(w, b.String(), "}} malformed\n")
				return
			case 2:
				w.WriteHeader(404)
			}
		}
	}
	w.Write([]byte(b.String()))
}

func (l *live) count(target int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.counts[target]
}

// sweeps waits for so many more requests to a target.
func (l *live) sweeps(target, n int) bool {
	n += l.count(target)
	for d := time.Now().Add(10 * time.Second); !l.stalled && time.Now().Before(d); time.Sleep(2 * time.Millisecond) {
		if l.count(target) >= n {
			return true
		}
	}
	l.stalled = true
	return false
}

// tick is how often labels of times change at most.
func tick(window time.Duration) time.Duration {
	switch {
	case window >= time.Hour:
		return time.Minute
	case window >= time.Minute:
		return time.Second
	}
	return time.Millisecond
}

func fmtTime(t time.Time, window time.Duration) string {
	switch {
	case window >= time.Hour:
		return t.UTC().Format("15:04")
	case window >= time.Minute:
		return t.UTC().Format("04:05")
	}
	return strconv.FormatInt(t.UnixNano()/1000000, 10) + "ms"
}

func tidy(s string) string { return strings.TrimRight(s, " ") }

// look reads the screen, knowing how wide the key should be.
func (l *live) look(o op, done string) seen {
	sn := l.screen.Look()
	s := seen{Rows: []string{}, Key: []string{}, Done: done, Alt: sn.Alt, Cur: -1}
	if len(sn.Unknown) > 0 {
		s.Bad = "unknown control codes " + strings.Join(sn.Unknown, " ")
	}
	if done != "" {
		return s
	}
	top := sn.Rows - 9
	// the conversation
	if len(o.Want.Rows) > 0 {
		n := 0
		for y := top; y < sn.Rows; y++ {
			if tidy(sn.Text(y, 0, sn.Cols)) != "" {
				n = y + 1
			}
		}
		for y := n - len(o.Want.Rows); y < n; y++ {
			if y < top {
				continue
			}
			r := tidy(sn.Text(y, 0, sn.Cols))
			if k := len(s.Rows); k < len(o.Want.Rows) {
				if w := o.Want.Rows[k]; strings.HasSuffix(w, "*") && strings.HasPrefix(r, w[:len(w)-1]) {
					r = w
				}
			}
			s.Rows = append(s.Rows, r)
		}
		if sn.Y == n-1 {
			s.Cur = sn.X
		}
	}
	// the key
	key := map[string]bool{}
	for y := 0; y < top; y++ {
		row := sn.Text(y, 0, o.Width)
		if tidy(row) == "" {
			continue
		}
		if strings.HasPrefix(row, "•") {
			s.Key = append(s.Key, "")
			key[sn.Cells[y][0].Fg] = true
		} else if y == 0 || len(s.Key) == 0 || tidy(sn.Text(y-1, 0, o.Width)) == "" {
			s.Bad = "in the key: " + row
			continue
		}
		s.Key[len(s.Key)-1] += row
	}
	for i, k := range s.Key {
		k = tidy(k)
		if strings.HasPrefix(k, "• ") {
			k = k[len("• "):]
		} else if k == "•" {
			k = ""
		}
		for j, u := range l.urls {
			k = strings.Replace(k, u, "@"+strconv.Itoa(j), -1)
		}
		s.Key[i] = k
	}
	sort.Strings(s.Key)
	// the axes
	cx, cy := -1, -1
	for y := 0; y < top && cx < 0; y++ {
		for x := o.Width; x < sn.Cols; x++ {
			if sn.Cells[y][x].Text == "┗" {
				cx, cy = x, y
				break
			}
		}
	}
	if cx < 0 || cy < 1 || o.Want.Lo == "" {
		return s
	}
	label := func(y int) string {
		return strings.TrimSpace(sn.Text(y, o.Width, cx))
	}
	if sn.Cells[cy-1][cx].Text == "┨" {
		s.Lo = label(cy - 1)
	}
	if sn.Cells[0][cx].Text == "┨" {
		s.Hi = label(0)
	}
	dom := ""
	for y := cy + 1; y < top; y++ {
		dom += sn.Cells[y][cx].Text
	}
	dom = tidy(dom)
	// (the first tick is at the first sample in the window)
	now := time.Now()
	from := now.Add(-l.window - 3*time.Second)
	begin := l.began
	if o.Always {
		begin = begin.Add(-l.window)
	}
	if o.Stale || from.Before(begin) {
		from = begin
	}
	s.Dom = dom + " is not from " + from.UTC().Format("15:04:05.000") + " to " + now.UTC().Format("15:04:05.000")
	step := tick(l.window)
	for t := from.Add(-period).Truncate(step); !t.After(now); t = t.Add(step) {
		if fmtTime(t, l.window) == dom {
			s.Dom = "in the window"
			break
		}
	}
	// the lines
	lit := map[string]bool{}
	for y := 0; y < cy; y++ {
		for x := cx + 1; x < sn.Cols; x++ {
			if r, _ := utf8.DecodeRuneInString(sn.Cells[y][x].Text); r > 0x2800 && r <= 0x28ff {
				lit[sn.Cells[y][x].Fg] = true
			}
		}
	}
	s.Lines = "as in the key"
	for c := range lit {
		if !key[c] {
			s.Lines = "of another colour than in the key: " + c
		}
	}
	for c := range key {
		if !lit[c] && (o.Strict || len(lit) == 0) {
			s.Lines = "none of the colour in the key " + c
		}
	}
	return s
}

// recolour tells whether an entry of the key changed its colour.
func (l *live) recolour(o op) string {
	sn := l.screen.Look()
	for y := 0; y < sn.Rows-9; y++ {
		if row := sn.Text(y, 0, o.Width); strings.HasPrefix(row, "•") {
			t, c := tidy(row), sn.Cells[y][0].Fg
			for x := 2; x < len([]rune(t)) && x < sn.Cols; x++ {
				if sn.Cells[y][x].Text != " " && sn.Cells[y][x].Fg != c {
					return "entry in several colours: " + t
				}
			}
			if o.Width > 4 && t == "• x" { // (there are two of them)
				t += map[bool]string{true: "", false: " again"}[l.colours[t] == "" || l.colours[t] == c]
			}
			if old, ok := l.colours[t]; ok && old != c && o.Width > 4 {
				return "entry changed its colour: " + t
			}
			l.colours[t] = c
		}
	}
	return ""
}

func same(a, b seen) bool {
	if a.Hi == "" { // (there may be no tick)
		a.Hi = b.Hi
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func main() {
	if os.Getenv("VERIF_LIVE") != "" {
		session()
	}
	hlib.Mode("live", run)
	hlib.Main()
}

func run(raw json.RawMessage) interface{} {
	if hlib.Slow >= 4 {
		return hlib.Skipped
	}
	var t struct {
		Window int
		Scale  int
		Ops    []op
	}
	hlib.Must(raw, &t)
	l := &live{window: time.Duration(t.Window) * time.Second, counts: make([]int, 2), times: make([]time.Time, 2), colours: map[string]string{},
		scale: math.Pow10(t.Scale)}
	for k := 0; k < 2; k++ {
		k := k
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { l.serve(w, k) }))
		defer srv.Close()
		l.urls = append(l.urls, srv.URL+"/metrics")
		if len(srv.URL) != 22 {
			hlib.Fail("unexpected length of %s", srv.URL)
		}
	}
	first := t.Ops[0]
	l.doc, l.bad = first.Doc, first.Bad
	master, slave := vt.Open(first.Cols, first.Lines)
	l.screen = vt.NewScreen(first.Cols, first.Lines)
	modes := vt.Modes(master)
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := master.Read(buf)
			if n > 0 {
				l.screen.Write(buf[:n])
			}
			if err != nil {
				return
			}
		}
	}()
	defer master.Close()
	r, w, err := os.Pipe()
	if err != nil {
		hlib.Fail("%v", err)
	}
	cfg, _ := json.Marshal(config{Hosts: l.urls, Query: first.Line, Window: l.window})
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "LC_") && !strings.HasPrefix(e, "LANG") && !strings.HasPrefix(e, "TERM=") && !strings.HasPrefix(e, "COLORTERM") && !strings.HasPrefix(e, "LINES=") && !strings.HasPrefix(e, "COLUMNS=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "TERM=xterm-256color", "LC_ALL=en_US.UTF-8", "TZ=UTC", "VERIF_LIVE="+string(cfg))
	var crash bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, &crash
	cmd.ExtraFiles = []*os.File{w}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
	l.began = time.Now()
	if err := cmd.Start(); err != nil {
		hlib.Fail("%v", err)
	}
	w.Close()
	var mu sync.Mutex
	verdict := ""
	ended := make(chan struct{})
	go func() {
		b, _ := ioutil.ReadAll(r)
		err := cmd.Wait()
		mu.Lock()
		verdict = string(b)
		if err != nil || verdict == "" {
			c := crash.String()
			if len(c) > 1500 {
				c = c[:1500]
			}
			verdict = fmt.Sprintf("crashed: %v %s %s", err, verdict, c)
		}
		mu.Unlock()
		close(ended)
	}()
	over := func() string {
		mu.Lock()
		defer mu.Unlock()
		return verdict
	}
	defer func() {
		cmd.Process.Kill()
		<-ended
		slave.Close()
	}()

	// keys pressed when the scraper has just begun to wait again
	press := func(s string) {
		l.sweeps(1, 0)
		l.mu.Lock()
		bad := len(l.bad) > 0
		l.mu.Unlock()
		if !bad && l.sweeps(1, 1) {
			time.Sleep(period / 3)
		}
		master.Write([]byte(s))
	}
	var obs []seen
	failed := false
	wait := func(o op, popup string) {
		deadline := time.Now().Add(6 * time.Second)
		if l.stalled {
			s := l.look(o, over())
			s.Bad = "the targets are not scraped any more"
			obs, failed = append(obs, s), true
			hlib.Slow += 2
			return
		}
		var s seen
		for {
			s = l.look(o, over())
			s.Popup = popup
			if s.Bad == "" && same(s, o.Want) {
				s.Bad = l.recolour(o)
			}
			if same(s, o.Want) {
				s.Hi = o.Want.Hi
				break
			}
			if time.Now().After(deadline) {
				failed = true
				hlib.Slow++
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		obs = append(obs, s)
	}
	settle := func(bad []int) {
		k := 1
		if len(bad) > 0 && bad[0] == 0 || len(bad) == 2 {
			k = 0
		}
		l.sweeps(k, 3)
		if len(bad) == 0 && t.Window <= 1 {
			time.Sleep(l.window + 2*period)
		}
	}
	for _, o := range t.Ops {
		popup := ""
		switch o.Op {
		case "start":
			if len(o.Bad) == 0 {
				settle(nil)
			}
		case "serve":
			l.mu.Lock()
			l.doc, l.bad = o.Doc, o.Bad
			l.mu.Unlock()
			settle(o.Bad)
		case "enter", "quit":
			time.Sleep(100 * time.Millisecond) // (what is typed right after enter may be lost)
			press(o.Line + "\r")
			if o.Op == "enter" {
				time.Sleep(3 * period)
			}
		case "recall":
			time.Sleep(100 * time.Millisecond)
			for i := 0; i < o.Back; i++ {
				master.Write([]byte("\x1b[A"))
				time.Sleep(50 * time.Millisecond)
			}
			press("\r")
			time.Sleep(3 * period)
		case "abort":
			time.Sleep(100 * time.Millisecond)
			master.Write([]byte(o.Line + "\x03"))
		case "complete":
			time.Sleep(100 * time.Millisecond)
			master.Write([]byte(o.Line))
			for d := time.Now().Add(4 * time.Second); ; time.Sleep(10 * time.Millisecond) {
				if time.Now().Add(3800*time.Millisecond).Before(d) && o.Offer == "" {
					continue
				}
				sn := l.screen.Look()
				typed := false
				popup = ""
				for y := sn.Rows - 9; y < sn.Rows; y++ {
					row := tidy(sn.Text(y, 0, sn.Cols))
					if row == ">>> "+o.Line {
						typed, popup = true, ""
					} else if i := strings.Index(row, o.Offer); typed && i >= 0 && o.Offer != "" {
						popup = o.Offer
					} else if typed && o.Offer == "" && row != "" {
						popup = row
					}
				}
				if typed && popup == o.Offer || time.Now().After(d) {
					break
				}
			}
			master.Write([]byte("\t"))
			time.Sleep(150 * time.Millisecond)
			press("\r")
			time.Sleep(3 * period)
		case "resize":
			l.screen.Resize(o.Cols, o.Lines)
			vt.SetSize(master, o.Cols, o.Lines)
			time.Sleep(3 * period)
		}
		if o.Want.Done != "" {
			select {
			case <-ended:
			case <-time.After(8 * time.Second):
			}
			time.Sleep(20 * time.Millisecond)
		}
		wait(o, popup)
		if o.Want.Done != "" && over() != "" && vt.Modes(master) != modes {
			obs[len(obs)-1].Bad = "the modes of the terminal were not restored"
		}
		if failed {
			break
		}
	}
	return obs
}
