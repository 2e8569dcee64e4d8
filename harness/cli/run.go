package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fatih/color"
	"k8s.io/cli-runtime/pkg/genericclioptions"

	"sigs.k8s.io/instrumentation-tools/cmd"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
	"sigs.k8s.io/instrumentation-tools/zzverif/rb"
)

type answer struct {
	Text   []string
	Status int
}

type run struct {
	List          bool
	Query, F      string
	Config, Color bool
	Rep           int // every document this many times over
	Targets       []struct{ First, Later answer }

	mu     sync.Mutex
	counts []int
	urls   []string
	out    *lockedBuffer
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// name replaces @n by the URL of target n.
func (r *run) name(s string) string {
	for i, u := range r.urls {
		s = strings.Replace(s, "@"+strconv.Itoa(i), u, -1)
	}
	return s
}

func (r *run) serve(w http.ResponseWriter, req *http.Request, target int) {
	r.mu.Lock()
	r.counts[target]++
	a := r.Targets[target].First
	if r.counts[target] > 1 {
		a = r.Targets[target].Later
	}
	r.mu.Unlock()
	body := r.name(strings.Join(a.Text, "\n") + "\n")
	if r.Rep > 1 {
		body = strings.Repeat(body, r.Rep-1) + strings.Repeat("# nothing in particular to be said here\n", 5*r.Rep) + body
	}
	switch {
	case a.Status == 1 || a.Status == 2:
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			hlib.Fail("%v", err)
		}
		if a.Status == 2 {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", len(body)+10, body)
		}
		c.Close()
	case a.Status == 204 || a.Status == 304:
		w.WriteHeader(a.Status)
	default:
		w.Header().Set("Content-Type", "text/plain; version=0.0.4")
		w.WriteHeader(a.Status)
		w.Write([]byte(body))
	}
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// batch executes runs one after the other, and then waits for what may still
// come of them.
func batch(raw json.RawMessage) interface{} {
	var t struct{ Runs []*run }
	hlib.Must(raw, &t)
	dir, err := ioutil.TempDir("", "verif-cli")
	if err != nil {
		hlib.Fail("%v", err)
	}
	defer os.RemoveAll(dir)
	closed, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hlib.Fail("%v", err)
	}
	refused := "http://" + closed.Addr().String()
	closed.Close()
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		var i, j int
		if n, _ := fmt.Sscanf(req.URL.Path, "/r%d/t%d/metrics", &i, &j); n != 2 || req.URL.RawQuery != "" && req.URL.RawQuery != "x=1" {
			http.Error(w, "no such target "+req.URL.String(), 404)
			return
		}
		t.Runs[i].serve(w, req, j)
	}))
	defer srv.Close()
	if err := os.Setenv("HOME", dir); err != nil {
		hlib.Fail("%v", err)
	}
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()

	type verdict struct {
		err          bool
		msg, out     string
		counts       []int
		stdout       string
		began, ended int64
	}
	var verdicts []verdict
	for i, r := range t.Runs {
		r.counts = make([]int, len(r.Targets))
		r.out = &lockedBuffer{}
		for j, tg := range r.Targets {
			base := srv.URL
			if tg.First.Status == 0 {
				base = refused
			}
			u := fmt.Sprintf("%s/r%d/t%d", base, i, j)
			if !r.Config || j > 0 {
				r.urls = append(r.urls, u+"/metrics"+[]string{"", "?x=1"}[(i+j)%2])
			} else {
				r.urls = append(r.urls, u+"/metrics")
			}
		}
		server := refused
		if r.Config {
			server = strings.TrimSuffix(r.urls[0], "/metrics")
		}
		cfg := filepath.Join(dir, fmt.Sprintf("config%d", i))
		if err := ioutil.WriteFile(cfg, []byte("apiVersion: v1\nkind: Config\nclusters:\n- name: c\n  cluster:\n    server: "+server+
			"\ncontexts:\n- name: x\n  context:\n    cluster: c\n    user: u\ncurrent-context: x\nusers:\n- name: u\n  user: {}\n"), 0600); err != nil {
			hlib.Fail("%v", err)
		}
		os.Setenv("KUBECONFIG", cfg)
		color.NoColor = !r.Color
		args := []string{}
		if r.List {
			args = append(args, "-l")
		}
		if r.Query != "" {
			args = append(args, "-q", r.name(r.Query))
		}
		if r.F != "json" || i%2 == 0 {
			args = append(args, "-o", r.F)
		}
		if !r.Config {
			for _, u := range r.urls {
				args = append(args, "-t", u)
			}
		}
		c := cmd.NewCmdPromQ(genericclioptions.IOStreams{In: strings.NewReader(""), Out: r.out, ErrOut: ioutil.Discard})
		c.SetArgs(args)
		c.SetOut(ioutil.Discard)
		c.SetErr(ioutil.Discard)
		capture, err := os.Create(filepath.Join(dir, "stdout"))
		if err != nil {
			hlib.Fail("%v", err)
		}
		os.Stdout = capture
		v := verdict{began: time.Now().UnixNano() / 1e6}
		err = c.Execute()
		v.ended = time.Now().UnixNano() / 1e6
		os.Stdout = stdout
		capture.Close()
		printed, _ := ioutil.ReadFile(filepath.Join(dir, "stdout"))
		v.err, v.stdout, v.out = err != nil, string(printed), r.out.String()
		if err != nil {
			v.msg = err.Error()
		}
		r.mu.Lock()
		v.counts = append([]int{}, r.counts...)
		r.mu.Unlock()
		verdicts = append(verdicts, v)
	}
	color.NoColor = true
	time.Sleep(1300 * time.Millisecond)

	res := []interface{}{}
	for i, r := range t.Runs {
		v := verdicts[i]
		o := hlib.J{"err": v.err, "counts": v.counts, "msg": v.msg, "urls": r.urls}
		res = append(res, o)
		r.mu.Lock()
		later := append([]int{}, r.counts...)
		r.mu.Unlock()
		switch {
		case fmt.Sprint(later) != fmt.Sprint(v.counts):
			o["bad"] = fmt.Sprintf("requests after the command had returned: %v, then %v", v.counts, later)
		case r.out.String() != v.out:
			o["bad"] = fmt.Sprintf("printed after the command had returned: %q", strings.TrimPrefix(r.out.String(), v.out))
		case v.stdout != "":
			o["bad"] = fmt.Sprintf("printed on the standard output: %q", v.stdout)
		case v.err && v.out != "":
			o["bad"] = fmt.Sprintf("error %s, but printed %q", v.msg, v.out)
		case v.err:
		case r.List:
			o["lines"] = strings.Split(ansi.ReplaceAllString(v.out, ""), "\n")
		default:
			got, err := rb.Read(strings.TrimSuffix(v.out, "\n"), r.F, r.Color)
			if err != nil {
				o["bad"] = fmt.Sprintf("cannot read %q back: %v", v.out, err)
				break
			}
			all := []interface{}{}
			for _, s := range got {
				if len(s.T) != 1 || len(s.V) != 1 {
					o["bad"] = fmt.Sprintf("not one sample per series: %q", v.out)
					break
				}
				if s.T[0] < v.began || s.T[0] > v.ended {
					o["bad"] = fmt.Sprintf("result of time %d, but run from %d to %d", s.T[0], v.began, v.ended)
				}
				ls := s.Labels
				if ls == nil {
					ls = map[string]string{"scalar": "scalar"}
				}
				all = append(all, hlib.J{"ls": ls, "v": strconv.FormatFloat(s.V[0], 'g', -1, 64)})
			}
			o["samples"] = all
		}
	}
	return res
}
