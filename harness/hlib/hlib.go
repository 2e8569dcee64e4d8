// Package hlib is the frame shared by the drivers that execute the
// repository's real code on behaviours of the specification.
package hlib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

// J is any JSON object.
type J = map[string]interface{}

// Handler executes one test and returns what was observed.
type Handler func(raw json.RawMessage) interface{}

var modes = map[string]Handler{}

// Mode registers a handler.
func Mode(name string, h Handler) { modes[name] = h }

type skipped struct{}

// Skipped is the answer of a handler that did not run the test, because
// earlier ones took too long already.
var Skipped interface{} = skipped{}

// Slow counts tests that failed by waiting in vain; see Skipped.
var Slow int

// Seed is the seed of this run.
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// Main reads the tests, runs each and writes an answer line per test.
func Main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: driver MODE IN OUT")
		os.Exit(4)
	}
	h, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(4)
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	outf, err := os.Create(os.Args[3])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	w := bufio.NewWriterSize(outf, 1<<16)
	limit := 20.0
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_TEST_TIMEOUT"), 64); err == nil {
		limit = v
	}
	var (
		mu      sync.Mutex // guards w, and cur*
		cur     = -1
		started time.Time
	)
	emit := func(v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot encode answer:", err)
			w.Flush()
			os.Exit(4)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	// the watchdog: a test that does not return, or eats all memory, ends the run
	go func() {
		var ms runtime.MemStats
		for n := 0; ; n++ {
			time.Sleep(100 * time.Millisecond)
			why := ""
			mu.Lock()
			if cur >= 0 && time.Since(started).Seconds() > limit {
				why = fmt.Sprintf("did not return within %vs", limit)
			} else if cur >= 0 && time.Since(started) > time.Second {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					why = "used more than 3 GiB of memory without returning"
				}
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				emit(J{"i": cur, "hang": why, "stacks": string(buf)})
				w.Flush()
				os.Exit(3)
			}
			mu.Unlock()
		}
	}()
	sc := bufio.NewReaderSize(in, 1<<20)
	for i := 0; ; i++ {
		line, err := sc.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		mu.Lock()
		cur, started = i, time.Now()
		w.Flush()
		mu.Unlock()
		var ans J
		func() {
			defer func() {
				if r := recover(); r != nil {
					ans = J{"i": i, "crash": fmt.Sprintf("panic: %v", r), "stack": string(debug.Stack())}
				}
			}()
			out := h(line)
			ans = J{"i": i, "out": out}
			if _, ok := out.(skipped); ok {
				ans = J{"i": i, "skipped": true}
			}
		}()
		mu.Lock()
		cur = -1
		emit(ans)
		mu.Unlock()
	}
	mu.Lock()
	w.Flush()
	outf.Close()
	os.Exit(0)
}

// Must decodes the test.
func Must(raw json.RawMessage, into interface{}) {
	if err := json.Unmarshal(raw, into); err != nil {
		fmt.Fprintln(os.Stderr, "bad test:", err, string(raw))
		os.Exit(4)
	}
}

// Fail ends the driver: the harness, not the code under test, is at fault.
func Fail(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"harness failure:"}, args...)...)
	os.Exit(4)
}
