package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
	"sigs.k8s.io/instrumentation-tools/zzverif/rb"
)

type conf struct {
	Where     string
	Current   int
	HTTPS     bool
	TLS, Auth string
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// cmdline runs the binary itself, with its own kubeconfig and environment.
func cmdline(raw json.RawMessage) interface{} {
	var t struct {
		Words  []string
		Conf   conf
		Format string // to read the output in
	}
	hlib.Must(raw, &t)
	dir, err := ioutil.TempDir("", "verif-cmd")
	if err != nil {
		hlib.Fail("%v", err)
	}
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	asked, auths := map[string]bool{}, map[string]bool{}
	handler := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		mu.Lock()
		auths[req.Header.Get("Authorization")] = true
		mu.Unlock()
		switch req.URL.Path {
		case "/a":
			http.Error(w, "m 1", 500)
			return
		case "/b", "/e":
			c, _, err := w.(http.Hijacker).Hijack()
			if err != nil {
				hlib.Fail("%v", err)
			}
			if req.URL.Path == "/e" {
				fmt.Fprint(c, "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 40\r\n\r\nm 1\n")
			}
			c.Close()
			return
		case "/d":
			fmt.Fprint(w, "m 1\n{\n")
			return
		}
		var i int
		if n, _ := fmt.Sscanf(req.URL.Path, "/t%d/metrics", &i); n != 1 || req.URL.Path != fmt.Sprintf("/t%d/metrics", i) || req.URL.RawQuery != "" || req.Method != "GET" {
			mu.Lock()
			asked[req.Method+" "+req.URL.String()] = true
			mu.Unlock()
			http.Error(w, "no such target", 404)
			return
		}
		mu.Lock()
		asked[strconv.Itoa(i)] = true
		mu.Unlock()
		fmt.Fprintf(w, "m{t=\"%d\"} %d\n", i, 10*i)
		if i%2 == 0 {
			fmt.Fprintf(w, "n{t=\"%d\"} 1\n", i)
		}
	})
	plain := httptest.NewServer(handler)
	defer plain.Close()
	tls := httptest.NewUnstartedServer(handler)
	tls.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	tls.StartTLS()
	defer tls.Close()
	url := func(i int) string {
		base := plain.URL
		if i == 5 || i == 6 || i >= 7 && t.Conf.HTTPS {
			base = tls.URL
		}
		return fmt.Sprintf("%s/t%d", base, i)
	}

	cluster := func(i int) string {
		s := "- name: c" + strconv.Itoa(i) + "\n  cluster:\n    server: " + url(6+i) + "\n"
		mode := t.Conf.TLS
		if i != t.Conf.Current {
			mode = "unset"
		}
		switch mode {
		case "ca":
			s += "    certificate-authority-data: " + b64(string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: tls.Certificate().Raw}))) + "\n"
		case "insecure":
			s += "    insecure-skip-tls-verify: true\n"
		}
		return s
	}
	user := func(i int) string {
		s := "- name: u" + strconv.Itoa(i) + "\n  user:"
		mode := t.Conf.Auth
		if i != t.Conf.Current {
			mode = "other"
		}
		switch mode {
		case "token":
			s += "\n    token: right\n"
		case "basic":
			s += "\n    username: me\n    password: right\n"
		case "none":
			s += " {}\n"
		default:
			s += "\n    token: wrong\n"
		}
		return s
	}
	want := map[string]string{"token": "Bearer right", "basic": "Basic " + b64("me:right"), "none": ""}[t.Conf.Auth]
	if !t.Conf.HTTPS {
		want = "" // client-go keeps credentials to itself unless the cluster speaks TLS
	}
	head := "apiVersion: v1\nkind: Config\n"
	clusters := "clusters:\n" + cluster(1) + cluster(2)
	users := "users:\n" + user(1) + user(2)
	contexts := "contexts:\n- name: x1\n  context:\n    cluster: c1\n    user: u1\n- name: x2\n  context:\n    cluster: c2\n    user: u2\n"
	current := fmt.Sprintf("current-context: x%d\n", t.Conf.Current)
	home := filepath.Join(dir, "home")
	if err := os.MkdirAll(filepath.Join(home, ".kube"), 0700); err != nil {
		hlib.Fail("%v", err)
	}
	write := func(name, text string) string {
		p := filepath.Join(dir, name)
		if err := ioutil.WriteFile(p, []byte(text), 0600); err != nil {
			hlib.Fail("%v", err)
		}
		return p
	}
	env := []string{"HOME=" + home, "TMPDIR=" + dir, "PATH=/nonexistent", "TERM=xterm", "TZ=UTC"}
	switch t.Conf.Where {
	case "env":
		env = append(env, "KUBECONFIG="+write("config", head+clusters+contexts+current+users))
		write("home/.kube/config", "broken: [")
	case "home":
		write("home/.kube/config", head+clusters+contexts+current+users)
	case "two":
		a := write("config1", head+current+contexts)
		b := write("config2", head+fmt.Sprintf("current-context: x%d\n", 3-t.Conf.Current)+clusters+users)
		env = append(env, "KUBECONFIG="+a+":"+b)
	case "none":
		want = ""
	case "broken":
		env = append(env, "KUBECONFIG="+write("config", head+clusters+"contexts: ["))
	case "dangling":
		env = append(env, "KUBECONFIG="+write("config", head+clusters+contexts+"current-context: x3\n"+users))
	}

	closed, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hlib.Fail("%v", err)
	}
	closed.Close()
	var args []string
	for _, w := range t.Words {
		for i := 1; i <= 6; i++ {
			w = strings.Replace(w, "@"+strconv.Itoa(i), url(i)+"/metrics", -1)
		}
		for _, d := range []string{"a", "b", "d", "e"} {
			w = strings.Replace(w, "@"+d, plain.URL+"/"+d, -1)
		}
		args = append(args, strings.Replace(w, "@c", "http://"+closed.Addr().String()+"/metrics", -1))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VERIF_PQ"), args...)
	c.Env, c.Dir = env, dir
	var out, errOut bytes.Buffer
	c.Stdout, c.Stderr = &out, &errOut
	err = c.Run()
	if ctx.Err() != nil {
		return "did not end within 20 seconds"
	}
	code := 0
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			hlib.Fail("%v", err)
		}
		code = x.ExitCode()
	}
	mu.Lock()
	defer mu.Unlock()
	o := hlib.J{"failed": code != 0, "code": code, "stderr": errOut.String(), "stdout": out.String()}
	names := []string{}
	for a := range asked {
		names = append(names, a)
	}
	sort.Strings(names)
	o["asked"] = names
	delete(auths, want)
	if len(auths) > 0 {
		o["auths"] = fmt.Sprintf("credentials %v instead of %q", auths, want)
	}
	if code == 0 && t.Format != "" {
		got, err := rb.Read(strings.TrimSuffix(out.String(), "\n"), t.Format, false)
		if err != nil {
			o["samples"] = fmt.Sprintf("cannot be read back: %v", err)
			return o
		}
		all := []interface{}{}
		for _, s := range got {
			if len(s.V) != 1 {
				o["samples"] = "not one sample per series"
				return o
			}
			n, tg, inst := s.Labels["__name__"], s.Labels["t"], s.Labels["instance"]
			k, _ := strconv.Atoi(tg)
			wantLabels := 0
			if n != "" {
				wantLabels++
			}
			if k > 0 {
				wantLabels += 2
				if inst != url(k)+"/metrics" {
					n = "of instance " + inst + ": " + n
				}
			}
			if len(s.Labels) != wantLabels {
				n = fmt.Sprint("with labels ", s.Labels)
			}
			all = append(all, hlib.J{"n": n, "t": k, "v": s.V[0]})
		}
		o["samples"] = all
	}
	return o
}
