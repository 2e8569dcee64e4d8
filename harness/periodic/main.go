// Driver for PeriodicData: executes schedules of Periodic.tla with a data
// source and a callback that only proceed when told to.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

var series = []labels.Labels{
	nil,
	labels.FromStrings("__name__", "m1", "a", "x"),
	labels.FromStrings("__name__", "m1", "a", "y"),
	labels.FromStrings("__name__", "m2"),
}

// queryText gives the text of a query; n selects among several of the same
// meaning, some of them long.
func queryText(q int, rng bool, n int) string {
	long := []int{0, 0, 1, 100, 2000}[n%5]
	if q == 9 {
		if long == 0 {
			return []string{"sum(m1", "m1 +", "nosuchfunction(m1)", "m1{a=}", "1 + m1[10m]"}[n/5%5]
		}
		return strings.Repeat("m2 + ", long) + "sum(m1"
	}
	t := plainQueryText(q, rng)
	if long > 0 && t != "" {
		t += strings.Repeat("  # "+strings.Repeat("nothing ", 10)+"\n", long)
	}
	return t
}

func plainQueryText(q int, rng bool) string {
	switch q {
	case 1:
		if rng {
			return "m1"
		}
		return "m1[10m]"
	case 2:
		if rng {
			return `{__name__=~"m.*"}`
		}
		return `{__name__=~"m.*"}[10m]`
	case 3:
		return `label_replace({__name__=~".+"}, "a", "b", "c", "(") or vector(1)`
	case 8:
		return ""
	}
	hlib.Fail("query", q)
	return ""
}

type fetchAnswer struct {
	data []prom.ParsedSeries
	err  error
}

var (
	errFetch    = errors.New("the source failed")
	errCallback = errors.New("the callback failed")
)

type key struct{}

type event struct {
	e     string
	p     int
	r     interface{}
	names []string
	ok    bool
}

func (e event) String() string {
	b, _ := json.Marshal([]interface{}{e.e, e.p, e.r, e.names, e.ok})
	return string(b)
}

// world runs one PeriodicData whose source and callback wait for the schedule.
type world struct {
	events  chan event
	fetch   map[int]chan fetchAnswer
	report  map[int]chan error
	data    *prom.PeriodicData
	rng     bool
	current int32 // scraper whose fetch was entered last
	evalErr sync.Map // of each scraper's last result
}

func (w *world) ScrapePrometheusEndpoint(ctx context.Context, _ time.Time) ([]prom.ParsedSeries, error) {
	p := ctx.Value(key{}).(int)
	atomic.StoreInt32(&w.current, int32(p))
	w.events <- event{e: "fetch", p: p}
	a := <-w.fetch[p]
	return a.data, a.err
}

func readResult(res *promql.Result, rng bool) interface{} {
	mat, err := res.Matrix()
	if err != nil {
		return "not a matrix: " + err.Error()
	}
	out := [][]interface{}{}
	for _, s := range mat {
		k := 0
		for i := 1; i < len(series); i++ {
			if labels.Equal(series[i], s.Metric) {
				k = i
			}
		}
		ids := []int{}
		for i, pt := range s.Points {
			if rng {
				if i > 0 && pt.T-s.Points[i-1].T != 1000 {
					return fmt.Sprintf("points at odd times: %v", s.Points)
				}
				if len(ids) > 0 && ids[len(ids)-1] == int(pt.V) {
					continue
				}
			}
			ids = append(ids, int(pt.V))
		}
		if rng && (len(s.Points) < 9 || len(s.Points) > 11) {
			return fmt.Sprintf("%d points in a window of ten intervals", len(s.Points))
		}
		out = append(out, []interface{}{k, ids})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0].(int) < out[j][0].(int) })
	return out
}

func (w *world) callback(res *promql.Result) error {
	if res.Err != nil {
		w.evalErr.Store(int(atomic.LoadInt32(&w.current)), res.Err)
		return res.Err
	}
	p := int(atomic.LoadInt32(&w.current))
	w.events <- event{e: "report", p: p, r: readResult(res, w.rng)}
	return <-w.report[p]
}

func (w *world) names() []string {
	res := []string{}
	for n := range w.data.GetIndex().GetMetricNames() {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

func (w *world) classify(p int, err error) string {
	cause, evaluated := w.evalErr.Load(p)
	w.evalErr.Delete(p)
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, errFetch):
		return "fetch"
	case errors.Is(err, errCallback):
		return "callback"
	}
	if evaluated && !errors.Is(err, cause.(error)) {
		return "an error that does not wrap its cause: " + err.Error()
	}
	return "query"
}

func newWorld(n int, rng bool) *world {
	w := &world{events: make(chan event, 1000), fetch: map[int]chan fetchAnswer{}, report: map[int]chan error{}, rng: rng}
	for p := 1; p <= n; p++ {
		w.fetch[p] = make(chan fetchAnswer)
		w.report[p] = make(chan error)
	}
	w.data = prom.NewPeriodicData(w, prom.DefaultEngineOptions(time.Minute, 100000))
	w.data.Callback = w.callback
	w.data.Times = prom.Range{Window: 10 * time.Second, Interval: time.Second, Instant: !rng}
	return w
}

func batch(b []int, id int, t0 int64) []prom.ParsedSeries {
	var data []prom.ParsedSeries
	for k, s := range b {
		data = append(data, prom.ParsedSeries{Labels: series[s].Copy(), Value: float64(id + k), Timestamp: t0 + int64(id+k)})
	}
	return data
}

type step struct {
	Op string
	P  int
	B  []int
	ID int
	OK bool
	Q  int
	N  int // how many events must follow
}

func schedule(raw json.RawMessage) interface{} {
	var t struct {
		H     []step
		N     int
		Range bool
	}
	hlib.Must(raw, &t)
	if hlib.Slow >= 2 {
		return hlib.Skipped
	}
	w := newWorld(t.N, t.Range)
	t0 := time.Now().Add(-50*time.Second).UnixNano() / 1e6
	var out []interface{}
	cancels := map[int]context.CancelFunc{}
	for i, s := range t.H {
		switch s.Op {
		case "cancel":
			cancels[s.P]()
		case "start":
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, s.P))
			defer cancel()
			cancels[s.P] = cancel
			go func(p int) {
				err := w.data.Scrape(ctx)
				w.events <- event{e: "ret", p: p, r: w.classify(p, err), names: w.names()}
			}(s.P)
		case "fetched":
			a := fetchAnswer{data: batch(s.B, s.ID, t0)}
			if !s.OK {
				a.err = errFetch
			}
			select {
			case w.fetch[s.P] <- a:
			case <-time.After(5 * time.Second):
				hlib.Slow++
				return append(out, fmt.Sprintf("scraper %d is not fetching", s.P))
			}
		case "reported":
			var err error
			if !s.OK {
				err = errCallback
			}
			select {
			case w.report[s.P] <- err:
			case <-time.After(5 * time.Second):
				hlib.Slow++
				return append(out, fmt.Sprintf("scraper %d is not reporting", s.P))
			}
		case "set":
			go func(q, n int) {
				err := w.data.SetQuery(context.Background(), queryText(q, w.rng, n))
				w.events <- event{e: "set", ok: err == nil}
			}(s.Q, i+len(t.H))
		}
		evs := []event{}
		settle := 300 * time.Microsecond
		if s.N == 0 {
			settle = 3 * time.Millisecond
		}
	collect:
		for {
			var timeout <-chan time.Time
			if len(evs) < s.N {
				timeout = time.After(6 * time.Second)
			} else {
				timeout = time.After(settle)
			}
			select {
			case e := <-w.events:
				evs = append(evs, e)
			case <-timeout:
				break collect
			}
		}
		sort.Slice(evs, func(i, j int) bool { return evs[i].String() < evs[j].String() })
		o := []interface{}{}
		for _, e := range evs {
			j := hlib.J{"e": e.e}
			switch e.e {
			case "fetch":
				j["p"] = e.p
			case "report":
				j["p"], j["r"] = e.p, e.r
			case "ret":
				j["p"], j["r"], j["names"] = e.p, e.r, e.names
			case "set":
				j["ok"] = e.ok
			}
			o = append(o, j)
		}
		out = append(out, o)
		if len(evs) < s.N {
			hlib.Slow++
			return append(out, "timed out waiting for the rest")
		}
	}
	return out
}

// free: scrapers and setters run freely; everything is recorded in one order.
func free(raw json.RawMessage) interface{} {
	var t struct {
		Scrapers, Scrapes, Setters, Sets int
		Seed                             int64
		Record                           bool
	}
	hlib.Must(raw, &t)
	f := &freeRun{record: t.Record, fail: rand.New(rand.NewSource(t.Seed))}
	f.t0 = time.Now().Add(-50*time.Second).UnixNano() / 1e6
	f.id = 1
	f.data = prom.NewPeriodicData(f, prom.DefaultEngineOptions(time.Minute, 100000))
	f.data.Callback = f.callback
	f.data.Times = prom.Range{Window: 10 * time.Second, Interval: time.Second, Instant: true}
	f.log(hlib.J{"e": "reset"})
	var wg sync.WaitGroup
	var calls int32
	for p := 1; p <= t.Scrapers; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(t.Seed + int64(p)*7))
			for i := 0; i < t.Scrapes; i++ {
				err := f.data.Scrape(context.WithValue(context.Background(), key{}, p))
				r := "ok"
				if errors.Is(err, errFetch) {
					r = "fetch"
				} else if err != nil {
					r = "query"
				}
				f.log(hlib.J{"e": "ret", "p": p, "r": r})
				time.Sleep(time.Duration(rnd.Intn(200)) * time.Microsecond)
			}
		}(p)
	}
	for s := 0; s < t.Setters; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(t.Seed + int64(s)*13 + 5))
			qs := []int{1, 2, 9, 1, 2, 3, 8}
			for i := 0; i < t.Sets; i++ {
				k := atomic.AddInt32(&calls, 1)
				q := qs[rnd.Intn(len(qs))]
				f.log(hlib.J{"e": "setcall", "k": k, "q": q})
				err := f.data.SetQuery(context.Background(), queryText(q, false, rnd.Intn(25)))
				f.log(hlib.J{"e": "setret", "k": k, "ok": err == nil})
				f.data.GetIndex().GetMetricNames()
				time.Sleep(time.Duration(rnd.Intn(300)) * time.Microsecond)
			}
		}(s)
	}
	wg.Wait()
	if f.overlap != 0 {
		return "fetching or reporting overlapped"
	}
	return f.events
}

type freeRun struct {
	mu      sync.Mutex
	events  []interface{}
	record  bool
	data    *prom.PeriodicData
	busy    int32
	overlap int32
	id      int // only used while fetching, so only by one scraper at a time
	t0      int64
	fail    *rand.Rand
	current int
}

func (f *freeRun) log(j hlib.J) {
	if !f.record {
		return
	}
	f.mu.Lock()
	f.events = append(f.events, j)
	f.mu.Unlock()
}

func (f *freeRun) ScrapePrometheusEndpoint(ctx context.Context, _ time.Time) ([]prom.ParsedSeries, error) {
	p := ctx.Value(key{}).(int)
	f.log(hlib.J{"e": "fetch", "p": p})
	if f.record && atomic.AddInt32(&f.busy, 1) != 1 {
		atomic.StoreInt32(&f.overlap, 1)
	}
	f.current = p
	b := [][]int{{1, 3}, {2}, {1, 2, 3}, {3}}[f.fail.Intn(4)]
	ok := f.fail.Intn(5) != 0
	id := f.id
	f.id += len(b)
	data := batch(b, id, f.t0)
	if f.record {
		atomic.AddInt32(&f.busy, -1)
	}
	f.log(hlib.J{"e": "fetched", "p": p, "b": b, "id": id, "ok": ok})
	if !ok {
		return data, errFetch
	}
	return data, nil
}

func (f *freeRun) callback(res *promql.Result) error {
	if res.Err != nil {
		return res.Err
	}
	p := f.current
	if f.record && atomic.AddInt32(&f.busy, 1) != 1 {
		atomic.StoreInt32(&f.overlap, 1)
	}
	f.log(hlib.J{"e": "report", "p": p, "r": readResult(res, false)})
	if f.record {
		atomic.AddInt32(&f.busy, -1)
	}
	f.log(hlib.J{"e": "reported", "p": p})
	return nil
}

// source delivers what it is given.
type source struct{ next []prom.ParsedSeries }

func (s *source) ScrapePrometheusEndpoint(context.Context, time.Time) ([]prom.ParsedSeries, error) {
	return s.next, nil
}

// window: when queries are evaluated.  Unit is a quarter of an interval.
func window(raw json.RawMessage) interface{} {
	var t struct {
		W       int64
		Instant bool
		Unit    int64 // ms
		H       [][]struct {
			S  int
			T  int64
			ID int
		}
	}
	hlib.Must(raw, &t)
	ms := time.Millisecond
	var out interface{}
	// a run that took too long to tell the units apart is repeated
	for try := 0; try < 5; try++ {
		src := &source{}
		data := prom.NewPeriodicData(src, prom.DefaultEngineOptions(time.Minute, 100000))
		data.Times = prom.Range{Window: time.Duration(t.W*t.Unit) * ms, Interval: time.Duration(4*t.Unit) * ms, Instant: t.Instant}
		if err := data.SetQuery(context.Background(), "m1"); err != nil {
			return err.Error()
		}
		now := func() int64 { return time.Now().UnixNano() / 1e6 }
		t0 := now()
		slow := false
		var results []interface{}
		for _, b := range t.H {
			src.next = nil
			for _, x := range b {
				src.next = append(src.next, prom.ParsedSeries{Labels: series[x.S].Copy(), Value: float64(x.ID), Timestamp: t0 + x.T*t.Unit})
			}
			var result interface{}
			before := now()
			data.Callback = func(res *promql.Result) error {
				after := now()
				if after-t0 >= t.Unit {
					slow = true
				}
				type pt struct{ t int64; v float64 }
				all := map[int][]pt{}
				which := func(l labels.Labels) int {
					for i := 1; i < len(series); i++ {
						if labels.Equal(series[i], l) {
							return i
						}
					}
					return 0
				}
				if t.Instant {
					vec, err := res.Vector()
					if err != nil {
						result = err.Error()
						return nil
					}
					for _, s := range vec {
						all[which(s.Metric)] = append(all[which(s.Metric)], pt{s.T, s.V})
					}
				} else {
					mat, err := res.Matrix()
					if err != nil {
						result = err.Error()
						return nil
					}
					for _, s := range mat {
						for _, p := range s.Points {
							all[which(s.Metric)] = append(all[which(s.Metric)], pt{p.T, p.V})
						}
					}
				}
				start := int64(0)
				if !t.Instant {
					start = -t.W * t.Unit
				}
				got := [][]interface{}{}
				for s, pts := range all {
					ps := [][]int64{}
					for _, p := range pts {
						// evaluated between before and after, k intervals later
						k := (p.t - before - start) / (4 * t.Unit)
						if off := p.t - start - k*4*t.Unit; off < before || off > after {
							result = fmt.Sprintf("evaluated %d ms off", off-before)
							return nil
						}
						ps = append(ps, []int64{k, int64(p.v)})
					}
					got = append(got, []interface{}{s, ps})
				}
				sort.Slice(got, func(i, j int) bool { return got[i][0].(int) < got[j][0].(int) })
				result = got
				return nil
			}
			if err := data.Scrape(context.Background()); err != nil {
				result = err.Error()
			}
			results = append(results, result)
		}
		out = results
		if !slow {
			return out
		}
	}
	return hlib.Skipped
}

func main() {
	hlib.Mode("window", window)
	hlib.Mode("schedule", schedule)
	hlib.Mode("free", free)
	hlib.Main()
}
