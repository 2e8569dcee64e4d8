// Driver for debug logging: runs processes of its own with different
// environments.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/debug"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

const envName = "PQ_DEBUG_LOG_DIRECTORY"
const many = 60

// child does what it is asked to do and answers on a file of its own, so that
// anything on its standard output or error is somebody else's.
func child() {
	var ops []string
	if err := json.Unmarshal([]byte(os.Args[2]), &ops); err != nil {
		os.Exit(5)
	}
	out := os.NewFile(3, "answers")
	ix := prom.NewIndex()
	c := earley.NewPromQLCompleter(ix)
	answers := []int{}
	var bad []string
	n := 0
	unnamed := func() {
		n++
		ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings("a", fmt.Sprint(n)), Value: 1, Timestamp: 1})
	}
	names := 0
	for _, op := range ops {
		answer := 0
		switch op {
		case "named":
			n++
			names++
			ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings("__name__", fmt.Sprintf("zz%d", names), "a", fmt.Sprint(n)), Value: 1, Timestamp: 1})
		case "unnamed":
			unnamed()
		case "unnamed-many", "unnamed-flood":
			many := many
			if op == "unnamed-flood" {
				many *= 100
			}
			var wg sync.WaitGroup
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < many/3; i++ {
						ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings("b", fmt.Sprintf("%d-%d", g, i)), Value: 1, Timestamp: 1})
					}
				}(g)
			}
			wg.Wait()
		case "complete":
			for _, m := range c.GenerateSuggestions("sum(zz", 6) {
				if strings.HasPrefix(m.GetValue(), "zz") {
					answer++
				}
			}
			if got := len(c.GenerateSuggestions("sum(", 4)); got <= answer {
				bad = append(bad, "too few offers")
			}
		case "own":
			debug.NewDebugLogger("own.log").Print("something of its own")
		case "teardown":
			debug.Teardown()
		}
		answers = append(answers, answer)
	}
	b, _ := json.Marshal(hlib.J{"answers": answers, "bad": bad})
	out.Write(b)
	out.Close()
}

var (
	server = httptest.NewServer
	stamp  = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d (.*)$`)
)

type process struct {
	Place string
	Cmd   bool
	Ops   []string
}

func listing(dir string) string {
	var names []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		names = append(names, fmt.Sprintf("%s %v", rel, info.IsDir()))
		return nil
	})
	sort.Strings(names)
	return strings.Join(names, "\n")
}

var furnished map[string]string

// furniture is what processes need to run in a directory of their own: the
// binaries and the libraries they are linked with, as links to scratch copies.
func furniture() map[string]string {
	if furnished != nil {
		return furnished
	}
	furnished = map[string]string{}
	dir, err := ioutil.TempDir(filepath.Dir(os.Args[3]), "furniture")
	if err != nil {
		hlib.Fail("%v", err)
	}
	add := func(from, to string) {
		b, err := ioutil.ReadFile(from)
		if err != nil {
			hlib.Fail("%v", err)
		}
		f := filepath.Join(dir, fmt.Sprint(len(furnished)))
		if err := ioutil.WriteFile(f, b, 0755); err != nil {
			hlib.Fail("%v", err)
		}
		furnished[f] = to
	}
	libs := map[string]bool{}
	self, _ := os.Executable()
	for name, bin := range map[string]string{"dbg": self, "pq": os.Getenv("VERIF_PQ")} {
		add(bin, "/bin/"+name)
		out, _ := exec.Command("ldd", bin).Output()
		for _, w := range strings.Fields(string(out)) {
			if strings.HasPrefix(w, "/") {
				libs[w] = true
			}
		}
	}
	for l := range libs {
		add(l, l)
	}
	return furnished
}

func history(raw json.RawMessage) interface{} {
	var t struct {
		Hist []struct {
			Op    string
			D     string
			Procs []process
			Old   map[string]int
		}
	}
	hlib.Must(raw, &t)
	top, err := ioutil.TempDir("", "verif-dbg")
	if err != nil {
		hlib.Fail("%v", err)
	}
	defer os.RemoveAll(top)
	for from, to := range furniture() {
		if err := os.MkdirAll(filepath.Dir(top+to), 0755); err != nil {
			hlib.Fail("%v", err)
		}
		if err := os.Link(from, top+to); err != nil {
			hlib.Fail("%v", err)
		}
	}
	for _, d := range []string{"d1", "d2"} {
		if err := os.Mkdir(filepath.Join(top, d), 0755); err != nil {
			hlib.Fail("%v", err)
		}
	}
	ioutil.WriteFile(filepath.Join(top, "file"), []byte("as it was"), 0644)
	srv := server(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { fmt.Fprint(w, "m{t=\"1\"} 1\n") }))
	defer srv.Close()
	before := listing(top)
	held := map[string][]byte{}
	counts := map[string][2]int{} // headers and records in them
	var obs []interface{}
	for _, e := range t.Hist {
		var bad []string
		complain := func(f string, args ...interface{}) { bad = append(bad, fmt.Sprintf(f, args...)) }
		answers := make([][]int, len(e.Procs))
		if e.Op == "old" {
			for d, n := range e.Old {
				if n > 0 {
					lines := bytes.Repeat([]byte("2020/02/02 02:02:02 "+strings.Repeat("of old ", 25)+"\n"), n)
					for _, f := range []string{"debug.log", "error.log"} {
						if err := ioutil.WriteFile(filepath.Join(top, d, f), lines, 0644); err != nil {
							hlib.Fail("%v", err)
						}
					}
				}
			}
		} else if e.Op == "rotate" {
			for _, f := range []string{"debug.log", "error.log", "own.log"} {
				p := filepath.Join(top, e.D, f)
				os.Remove(p)
				delete(held, p)
			}
		} else {
			var wg sync.WaitGroup
			var mu sync.Mutex
			completed := map[string]bool{}
			for i, p := range e.Procs {
				wg.Add(1)
				go func(i int, p process) {
					defer wg.Done()
					words, _ := json.Marshal(p.Ops)
					// nothing the process does can get out of the scratch directory
					inside := []string{"-Ur", "/usr/sbin/chroot", top, "/bin/dbg", "child", string(words)}
					if p.Cmd {
						inside = append(inside[:3], "/bin/pq", "-l", "-t", srv.URL)
					}
					cmd := exec.Command("unshare", inside...)
					for _, kv := range os.Environ() {
						if !strings.HasPrefix(kv, envName+"=") {
							cmd.Env = append(cmd.Env, kv)
						}
					}
					switch p.Place {
					case "unset":
					case "empty":
						cmd.Env = append(cmd.Env, envName+"=")
					case "missing":
						cmd.Env = append(cmd.Env, envName+"="+"/no/where")
					default:
						cmd.Env = append(cmd.Env, envName+"=/"+p.Place)
					}
					r, w, err := os.Pipe()
					if err != nil {
						hlib.Fail("%v", err)
					}
					cmd.ExtraFiles = []*os.File{w}
					var stdout, stderr bytes.Buffer
					cmd.Stdout, cmd.Stderr = &stdout, &stderr
					if err := cmd.Start(); err != nil {
						hlib.Fail("%v", err)
					}
					w.Close()
					timer := time.AfterFunc(15*time.Second, func() { cmd.Process.Kill() })
					said, _ := ioutil.ReadAll(r)
					err = cmd.Wait()
					timer.Stop()
					r.Close()
					mu.Lock()
					defer mu.Unlock()
					if msg := stderr.String(); err != nil && (strings.HasPrefix(msg, "unshare:") || strings.HasPrefix(msg, "/usr/sbin/chroot:")) {
						hlib.Fail("%s", msg)
					}
					if err != nil {
						complain("process %d: %v: %.300s", i, err, stderr.String())
						return
					}
					want := ""
					if p.Cmd {
						want = "--m { t }\n"
					}
					if stdout.String() != want || stderr.Len() > 0 {
						complain("process %d printed %.200q and %.200q", i, stdout.String(), stderr.String())
					}
					if !p.Cmd {
						var a struct {
							Answers []int
							Bad     []string
						}
						if err := json.Unmarshal(said, &a); err != nil {
							complain("process %d answered %q", i, said)
						}
						answers[i] = a.Answers
						for _, b := range a.Bad {
							complain("process %d: %s", i, b)
						}
					}
					for _, op := range p.Ops {
						if op == "teardown" {
							break
						}
						if op == "complete" {
							completed[p.Place] = true
						}
					}
				}(i, p)
			}
			wg.Wait()
			for d := range completed {
				if d != "d1" && d != "d2" {
					continue
				}
				b, _ := ioutil.ReadFile(filepath.Join(top, d, "debug.log"))
				if len(b) <= len(held[filepath.Join(top, d, "debug.log")])+100 {
					complain("%s: nothing was logged about completions", d)
				}
			}
		}
		logs := hlib.J{}
		for _, d := range []string{"d1", "d2"} {
			count := func(f string, strict bool) (headers, records int, there bool) {
				p := filepath.Join(top, d, f)
				b, err := ioutil.ReadFile(p)
				if err != nil {
					if len(held[p]) > 0 {
						complain("%s/%s is gone", d, f)
					}
					return 0, 0, false
				}
				if !bytes.HasPrefix(b, held[p]) {
					complain("%s/%s lost what it had", d, f)
				}
				was := held[p]
				if len(was) > len(b) {
					was = nil
				}
				if len(was) == 0 {
					counts[p] = [2]int{}
				}
				headers, records = counts[p][0], counts[p][1]
				held[p] = b
				if len(b) > 0 && b[len(b)-1] != '\n' {
					complain("%s/%s does not end in a whole line", d, f)
				}
				if len(b) == len(was) {
					return headers, records, true
				}
				for _, line := range strings.Split(strings.TrimSuffix(string(b[len(was):]), "\n"), "\n") {
					m := stamp.FindStringSubmatch(line)
					switch {
					case m != nil && m[1] == f+" enabled":
						headers++
					case m != nil:
						records++
					case strict:
						complain("%s/%s has the line %.100q", d, f, line)
					}
				}
				counts[p] = [2]int{headers, records}
				return headers, records, true
			}
			headers, records, there := count("error.log", true)
			dh, _, dthere := count("debug.log", false)
			oh, or, _ := count("own.log", true)
			if dh != headers || there != dthere {
				complain("%s: %d headers in debug.log, %d in error.log", d, dh, headers)
			}
			if oh != or {
				complain("%s: %d headers in own.log, %d records", d, oh, or)
			}
			logs[d] = hlib.J{"there": there, "errors": records, "runs": headers, "own": or}
			fs, _ := ioutil.ReadDir(filepath.Join(top, d))
			for _, f := range fs {
				switch f.Name() {
				case "error.log", "debug.log":
				case "own.log":
					if oh == 0 {
						complain("%s/own.log is there", d)
					}
				default:
					complain("%s/%s is there", d, f.Name())
				}
			}
		}
		// nothing else has changed
		rest := []string{}
		for _, l := range strings.Split(listing(top), "\n") {
			if !strings.HasPrefix(l, "d1/") && !strings.HasPrefix(l, "d2/") {
				rest = append(rest, l)
			}
		}
		if strings.Join(rest, "\n") != before {
			complain("elsewhere there is now %q", strings.Join(rest, "\n"))
		}
		if b, _ := ioutil.ReadFile(filepath.Join(top, "file")); string(b) != "as it was" {
			complain("wrote into a file that is no directory")
		}
		for i := range answers {
			if answers[i] == nil {
				answers[i] = []int{}
			}
		}
		obs = append(obs, hlib.J{"answers": answers, "logs": logs, "bad": bad})
	}
	return obs
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "child" {
		child()
		return
	}
	hlib.Mode("history", history)
	hlib.Main()
}
