package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/utils"
	"github.com/DaoCloud/ckube/utils/prommonitor"
)

func init() {
	register("C30", "exploration", c30)
}

// usage is what the process holds at a quiet moment.
type usage struct {
	heap, goroutines, fds int64
}

func openFiles() int64 {
	fs, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return int64(len(fs))
}

func measure() usage {
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return usage{int64(m.HeapAlloc), int64(runtime.NumGoroutine()), openFiles()}
}

// quiet waits for goroutines and files to be as few as they were (and little more), up to 45 s.
func quiet(base usage, slack int64) usage {
	var u usage
	for end := time.Now().Add(45 * time.Second); ; time.Sleep(100 * time.Millisecond) {
		u = measure()
		if u.goroutines <= base.goroutines+slack && u.fds <= base.fds+slack || time.Now().After(end) {
			return u
		}
	}
}

type leakPhase struct {
	name string
	n    int // operations per window
	op   func(i int)
	// perOp is the number of bytes an operation hands over: holding on to it is visible
	perOp int64
}

// longUnique is text nobody has seen before.
func longUnique(i, n int) string {
	g := rand.New(rand.NewSource(int64(i)*7919 + 13))
	b := make([]byte, n)
	for j := range b {
		b[j] = "abcdefghijklmnopqrstuvwxyz0123456789"[g.Intn(36)]
	}
	return string(b)
}

func c30(c *Ctx) {
	c.Rule("a case is one window of operations (all with content never seen before) after which goroutines, open files and live heap of the process are compared with those before the window; a violation needs goroutines or files that do not go away, or a heap that grows by more than a quarter of what every operation handed over in three windows in a row; distinct are the (kind of operation, window) combinations; all are non-trivial")
	c.Assume("namespaces, types and clusters come from a bounded set; a bounded cache is filled by the first window; memory counts after garbage collection; goroutines and files have 45 s to go away")
	quietLogs()
	dmn := make(chan struct{})
	go func() { defer close(dmn); c30daemon(c) }()
	<-dmn // alone: its client would disturb the measurements
	defs := []*gvrDef{defPods, defSvcs, defWidgets}
	w := NewWorld(defs, []string{"c1", "c2"}, "c1", "")
	defer w.Close()
	g := c.Rand(1)
	for _, u := range w.Ups {
		u := u
		u.Hook = func(rw http.ResponseWriter, req *http.Request, body []byte) bool {
			u.mu.Lock()
			u.reqs = nil
			u.mu.Unlock()
			switch {
			case strings.Contains(req.URL.Path, "/fails/"):
				http.Error(rw, `{"kind":"Status","apiVersion":"v1","status":"Failure","code":409,"message":"x"}`, 409)
				return true
			case strings.Contains(req.URL.Path, "/aborts/"):
				panic(http.ErrAbortHandler)
			case isWatch(req):
				rw.Header().Set("Content-Type", "application/json")
				rw.WriteHeader(200)
				_, _ = io.WriteString(rw, `{"type":"ADDED","object":{}}`+"\n")
				rw.(http.Flusher).Flush()
				if !strings.Contains(req.URL.Path, "ends") {
					<-req.Context().Done()
				}
				return true
			}
			return false
		}
	}
	w.StartWatcher()
	if !w.SyncStreams() {
		c.Violate("start", "the watches are not open", nil)
		return
	}
	w.genPopulation(g, 6)
	if !w.Sync() {
		c.Violate("start", "the cache is not filled", nil)
		return
	}
	hs := startServer(w.Router)
	defer hs.Close()
	tr := &http.Transport{MaxIdleConnsPerHost: 8}
	cli := &http.Client{Transport: tr}
	get := func(method, target string, hdr map[string]string, body string) {
		r := do(w.Router, method, target, hdr, []byte(body))
		if r.Hang || r.Aborted != "" {
			c.Violate("failed", fmt.Sprintf("%s %.200s: %s", method, target, r.Aborted), nil)
		}
	}
	st := newStore(defs)
	table := map[string]string{"Accept": "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"}
	phases := []leakPhase{
		{"list", 1500, func(i int) {
			p := page.Paginate{Page: 1, PageSize: int64(i%50 + 1), Sort: "namespace,name desc", Search: "name=" + longUnique(i, 600)}
			get("GET", defs[i%3].root()+"?labelSelector="+selectorOf(p), nil, "")
		}, 600},
		{"label-selector", 1500, func(i int) {
			get("GET", defs[i%3].root()+"?labelSelector=app%3D"+longUnique(i, 60)+",env+notin+("+longUnique(i+1, 60)+","+longUnique(i+2, 60)+")", nil, "")
		}, 200},
		{"table", 800, func(i int) {
			p := page.Paginate{Search: "name!=" + longUnique(i, 600)}
			get("GET", defs[i%3].root()+"?labelSelector="+selectorOf(p), table, "")
		}, 600},
		{"refused", 1500, func(i int) {
			p := page.Paginate{Sort: longUnique(i, 600)}
			get("GET", defs[i%3].root()+"?labelSelector="+selectorOf(p), nil, "")
		}, 600},
		{"read", 3000, func(i int) {
			get("GET", defPods.path("default")+"/"+longUnique(i, 400), nil, "")
		}, 400},
		{"deployment", 1500, func(i int) {
			get("GET", "/custom/v1/clusters/c1/namespaces/default/deployments/"+longUnique(i, 400)+"/services", nil, "")
		}, 400},
		{"forward", 800, func(i int) {
			m := []string{"GET", "POST", "PUT", "PATCH", "DELETE"}[i%5]
			get(m, "/api/v1/namespaces/default/configmaps/"+longUnique(i, 200)+"?x="+longUnique(i, 200), map[string]string{"Content-Type": "application/json"}, `{"data":"`+longUnique(i, 600)+`"}`)
		}, 400},
		{"forward-fails", 800, func(i int) {
			get([]string{"GET", "POST"}[i%2], "/api/v1/fails/"+longUnique(i, 400), nil, `{"data":"`+longUnique(i, 600)+`"}`)
		}, 400},
		{"forward-breaks", 200, func(i int) {
			get("POST", "/api/v1/aborts/"+longUnique(i, 1000), nil, `{"data":"`+longUnique(i, 1000)+`"}`)
		}, 1000},
		{"unknown-cluster", 3000, func(i int) {
			get("GET", "/api/v1/secrets?cluster="+longUnique(i, 400), nil, "")
		}, 400},
		{"watch-left", 150, func(i int) {
			ctx, cancel := context.WithCancel(context.Background())
			req, _ := http.NewRequestWithContext(ctx, "GET", hs.URL+"/api/v1/watch/secrets/"+longUnique(i, 2000)+"?watch=true&cluster=c"+fmt.Sprint(1+i%2), nil)
			resp, err := cli.Do(req)
			if err == nil {
				b := make([]byte, 10)
				_, _ = io.ReadFull(resp.Body, b)
				_ = resp.Body.Close()
				c.Count("watches_left", 1)
			}
			cancel()
		}, 2000},
		{"watch-ended", 150, func(i int) {
			resp, err := cli.Get(hs.URL + "/api/v1/watch/ends/" + longUnique(i, 2000) + "?watch=true")
			if err == nil {
				_, _ = io.Copy(io.Discard, resp.Body)
				_ = resp.Body.Close()
			}
		}, 2000},
		{"sdk", 1500, func(i int) {
			p := page.Paginate{Page: 1, PageSize: 10, Search: longUnique(i, 600)}
			_ = p.Clusters([]string{"c1", longUnique(i, 50)})
			_ = p.Namespaces([]string{longUnique(i, 50)})
			if _, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: "a=" + longUnique(i, 60)}, p); err != nil {
				panic(refused(err.Error()))
			}
			_, _ = p.Match(map[string]string{"name": longUnique(i, 100), "cluster": "c1", "namespace": "x"})
		}, 600},
		{"churn", 1500, func(i int) { // objects that come and go in the cache
			d := defs[i%3]
			o := genObj(g, d, "c1", "default", "n-"+longUnique(i, 200))
			x := decoded(d, o.Bytes)
			_ = st.OnResourceAdded(d.gvr(), "c1", x)
			_ = st.OnResourceModified(d.gvr(), "c1", decoded(d, o.Bytes))
			if i%7 == 0 {
				_ = st.Clean(d.gvr(), "c1")
			} else {
				_ = st.OnResourceDeleted(d.gvr(), "c1", decoded(d, o.Bytes))
			}
		}, 1000},
		{"overwrite", 2000, func(i int) { // one object in ever new versions
			o := genObj(g, defWidgets, "c1", "default", "same")
			_ = st.OnResourceModified(defWidgets.gvr(), "c1", decoded(defWidgets, o.Bytes))
		}, 500},
		{"events", 400, func(i int) { // the same through the watcher
			o := genObj(g, defWidgets, "c1", "default", "n-"+longUnique(i, 200))
			w.Put(o)
			w.Del(o)
			if i%100 == 99 {
				w.Sync()
			}
		}, 1000},
		{"resync", 2, func(i int) {
			opened := w.Ups["c1"].Opened(defWidgets.root())
			w.Ups["c1"].endStreams(defWidgets.root(), []string{"close", "abort"}[i%2])
			for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && w.Ups["c1"].Opened(defWidgets.root()) == opened; time.Sleep(10 * time.Millisecond) {
			}
		}, 100000},
		{"file", 40, func(i int) {
			f := filepath.Join(c.Tmp, "f")
			_ = os.WriteFile(f, []byte("x"), 0o600)
			fw, err := utils.NewFixedFileWatcher([]string{f})
			if err != nil {
				c.Violate("file", err.Error(), nil)
				return
			}
			if i%4 != 0 {
				_ = fw.Start()
			}
			_ = fw.Close()
		}, 4000},
	}
	var ww = w.W
	phases = append(phases, leakPhase{"reload", 12, func(i int) {
		nw, ns, nc := newPair(defs, w)
		_ = ww.Stop()
		prommonitor.Resources.Reset()
		ww = nw
		_ = ww.Start()
		// ballast shows caches which are kept
		for j := 0; j < 30; j++ {
			o := genObj(g, defWidgets, "c2", "default", fmt.Sprintf("b%d", j))
			x := decoded(defWidgets, o.Bytes)
			x.SetAnnotations(map[string]string{"ballast": longUnique(i*100+j, 4000)})
			_ = ns.OnResourceAdded(defWidgets.gvr(), "gone", x)
		}
		w.Server.ResetStore(ns, nc)
		get("GET", defWidgets.root(), nil, "")
		w.W = ww
	}, 100000})
	k := 0
	for _, p := range phases {
		n := p.n * c.N(1, 4)
		window := func() {
			for j := 0; j < n; j++ {
				p.op(k)
				k++
			}
			if p.name == "events" {
				w.Sync()
			}
			tr.CloseIdleConnections()
		}
		window() // fills what is filled once
		settle := func() {
			if p.name == "reload" { // all watches of the pair in service are open
				for end := time.Now().Add(45 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
					ok := true
					for _, u := range w.Ups {
						for _, d := range defs {
							ok = ok && u.OpenStreams(d.root()) == 1
						}
					}
					if ok {
						return
					}
				}
			}
		}
		settle()
		prev := quiet(measure(), 0)
		grown := 0
		var trail []usage
		trail = append(trail, prev)
		for t := 0; t < 3; t++ {
			window()
			settle()
			u := quiet(prev, 3)
			trail = append(trail, u)
			c.Count("windows", 1)
			c.Count("operations", int64(n))
			c.Eval(fmt.Sprintf("%s %d", p.name, t))
			if d := u.goroutines - prev.goroutines; d > 10 || d > int64(n)/2 && d > 3 {
				c.Violate("goroutines/"+p.name, fmt.Sprintf("%d goroutines more after %d operations", d, n), map[string]interface{}{"usage": fmt.Sprintf("%+v", trail), "stacks": allStacks()})
				break
			}
			if d := u.fds - prev.fds; d > 10 || d > int64(n)/2 && d > 3 {
				c.Violate("files/"+p.name, fmt.Sprintf("%d open files more after %d operations", d, n), fmt.Sprintf("%+v", trail))
				break
			}
			growth := u.heap - prev.heap
			if growth > int64(n)*p.perOp/4 && growth > 60000 {
				grown++
			} else {
				break // what was filled once, or nothing
			}
			prev.heap = u.heap
		}
		if grown == 3 {
			c.Violate("memory/"+p.name, fmt.Sprintf("the heap grew in each of three windows of %d operations which handed over %d bytes each", n, p.perOp), fmt.Sprintf("%+v", trail))
		}
		c.Count("kinds_of_operations", 1)
		c.Sample(map[string]interface{}{"operation": p.name, "per_window": n, "usage": fmt.Sprintf("%+v", trail)})
	}
	c.Need("windows", int64(len(phases)))
	c.Need("watches_left", 200)
	c.Need("daemon_windows", 2)
	var _ store.Store = st
}

// c30daemon compares goroutines and open files of the daemon after some and after many reloads under traffic.
func c30daemon(c *Ctx) {
	g := c.Rand(2)
	w := newDWorld(c, g, "leak", "in-place")
	defer w.close()
	w.ctxs, w.cur, w.defs = []string{"c1", "prod-2"}, "c1", w.all[:3]
	if !w.start(true) || !w.settle("start") {
		return
	}
	gauge := func(name string) int64 {
		for _, l := range strings.Split(string(w.d.Get("/metrics").Body), "\n") {
			var v float64
			if n, _ := fmt.Sscanf(l, name+" %g", &v); n == 1 {
				return int64(v)
			}
		}
		return -1
	}
	cycle := func(reloads int) bool {
		for i := 0; i < reloads; i++ {
			ok := w.d.reloads("success")
			if i%2 == 0 {
				w.cur = w.ctxs[i/2%2]
				_ = w.change(w.kubePath(), w.kube(w.ctxs, w.cur))
			} else {
				w.defs = w.all[i%3 : i%3+3]
				_ = w.change(w.confPath(), w.conf())
			}
			if !w.awaitReload("success", ok) {
				return false
			}
			for j := 0; j < 10; j++ {
				ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
				req, _ := http.NewRequestWithContext(ctx, "GET", "http://"+w.d.Addr+"/api/v1/pods?watch=true", nil)
				if resp, err := w.d.cli.Do(req); err == nil {
					_ = resp.Body.Close()
				}
				cancel()
				_ = w.d.Get("/api/v1/configmaps?cluster=c1")
			}
		}
		w.defs, w.cur = w.all[:3], "c1"
		_ = w.change(w.confPath(), w.conf())
		_ = w.change(w.kubePath(), w.kube(w.ctxs, w.cur))
		w.mutate(3)
		return w.settle("reloads")
	}
	// low is the smallest number over a while, when nothing is going on
	low := func(name string, limit int64) int64 {
		min := int64(1 << 40)
		for end := time.Now().Add(45 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Millisecond) {
			w.d.cli.CloseIdleConnections()
			if v := gauge(name); v >= 0 && v < min {
				min = v
			}
			if min <= limit {
				break
			}
		}
		return min
	}
	if !cycle(4) {
		return
	}
	time.Sleep(2 * time.Second)
	g0, f0 := gauge("go_goroutines"), gauge("process_open_fds")
	if g0 < 0 || f0 < 0 {
		c.Inconclusive("the daemon reports no goroutines or open files")
		return
	}
	for t := 0; t < c.N(2, 6); t++ {
		if !cycle(10) {
			return
		}
		g1, f1 := low("go_goroutines", g0+6), low("process_open_fds", f0+6)
		c.Count("daemon_windows", 1)
		c.Eval(fmt.Sprintf("daemon %d", t))
		b, _ := json.Marshal(map[string]int64{"goroutines_before": g0, "goroutines_after": g1, "files_before": f0, "files_after": f1})
		if g1 > g0+8 || f1 > f0+8 {
			w.violate("daemon", fmt.Sprintf("after %d more reloads under traffic the daemon holds more: %s", 10*(t+1), b))
			return
		}
		c.Sample("daemon: " + string(b))
	}
}

// allStacks counts the goroutines by where they are.
func allStacks() []string {
	b := make([]byte, 8<<20)
	b = b[:runtime.Stack(b, true)]
	n := map[string]int{}
	for _, s := range strings.Split(string(b), "\n\n") {
		var fs []string
		for _, l := range strings.Split(s, "\n")[1:] {
			if !strings.HasPrefix(l, "\t") {
				if i := strings.LastIndex(l, "("); i > 0 && !strings.HasPrefix(l, "created by") {
					l = l[:i]
				}
				fs = append(fs, strings.TrimPrefix(strings.Split(l, " in goroutine")[0], "created by "))
			}
		}
		if len(fs) > 9 {
			fs = append(fs[:7], fs[len(fs)-1])
		}
		n[strings.Join(fs, " < ")]++
	}
	var res []string
	for k, v := range n {
		if v > 2 {
			res = append(res, fmt.Sprintf("%d of %s", v, k))
		}
	}
	sort.Strings(res)
	return res
}
