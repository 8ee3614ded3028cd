package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/utils/prommonitor"
	"github.com/DaoCloud/ckube/watcher"
)

func init() {
	register("C22", "exploration", c22)
}

// traffic sends every kind of request at once until stop is closed; it counts what it sent by kind.
type traffic struct {
	c     *Ctx
	h     http.Handler
	base  string
	cli   *http.Client
	defs  func() []*gvrDef
	cs    []string
	token string
	n     [8]int64
	bad   func(kind, what string)
}

var trafficKinds = []string{"list", "table", "get", "write", "watch", "metrics", "custom", "reload"}

func (t *traffic) run(g *rand.Rand, kind int, stop <-chan struct{}, wg *sync.WaitGroup) {
	defer wg.Done()
	for i := 0; ; i++ {
		select {
		case <-stop:
			return
		default:
		}
		ds := t.defs()
		d := ds[g.Intn(len(ds))]
		ns := ""
		if d.Namespaced && g.Intn(2) == 0 {
			ns = pick(g, nsNames)
		}
		method, target, body := "GET", d.path(ns), ""
		hdr := map[string]string{}
		switch kind {
		case 0, 1:
			target += "?" + listQuery(g, t.cs)
			if kind == 1 {
				hdr["Accept"] = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"
			}
		case 2:
			if d.Namespaced {
				ns = pick(g, nsNames)
			}
			target = d.path(ns) + "/" + pick(g, objNames)
			if g.Intn(2) == 0 {
				target += "?resourceVersion=" + marker + pick(g, t.cs)
			}
		case 3:
			method = pick(g, []string{"POST", "PUT", "PATCH", "DELETE"})
			body = `{"metadata":{"name":"x"}}`
			if method == "DELETE" {
				body = `{"dryRun":["dsm-cluster-` + pick(g, t.cs) + `"]}`
			}
			if g.Intn(2) == 0 {
				target = "/api/v1/namespaces/a/secrets/x?fieldManager=" + marker + pick(g, t.cs)
			}
		case 4:
			target += "?watch=true&cluster=" + pick(g, t.cs)
		case 5:
			target = "/metrics"
		case 6:
			target = "/custom/v1/clusters/" + pick(g, t.cs) + "/namespaces/" + pick(g, nsNames) + "/deployments/app/services"
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		if t.token != "" {
			hdr["Authorization"] = "Bearer " + t.token
		}
		if t.h != nil && g.Intn(2) == 0 && kind != 4 {
			r := do(t.h, method, target, hdr, []byte(body))
			if r.Hang || r.Aborted != "" || r.Status >= 500 && kind != 6 {
				t.bad(trafficKinds[kind], fmt.Sprintf("%s %s: %d %s %s", method, target, r.Status, trunc(r.Body), r.Aborted))
			}
		} else {
			req, err := http.NewRequestWithContext(ctx, method, t.base+target, bytes.NewReader([]byte(body)))
			if err != nil {
				cancel()
				continue
			}
			for k, v := range hdr {
				req.Header.Set(k, v)
			}
			if kind == 4 {
				go func(d time.Duration) { time.Sleep(d); cancel() }(time.Duration(g.Intn(60)) * time.Millisecond)
			}
			resp, err := t.cli.Do(req)
			if err == nil {
				_, err = io.Copy(io.Discard, resp.Body)
				_ = resp.Body.Close()
				if resp.StatusCode >= 500 && kind != 6 && kind != 4 {
					t.bad(trafficKinds[kind], fmt.Sprintf("%s %s: %d", method, target, resp.StatusCode))
				}
			}
			if err != nil && kind != 4 {
				t.bad(trafficKinds[kind], fmt.Sprintf("%s %s: %v", method, target, err))
			}
		}
		cancel()
		atomic.AddInt64(&t.n[kind], 1)
		if g.Intn(8) == 0 {
			time.Sleep(time.Duration(g.Intn(3)) * time.Millisecond)
		} else {
			runtime.Gosched()
		}
	}
}

func listQuery(g *rand.Rand, cs []string) string {
	switch g.Intn(5) {
	case 0:
		return ""
	case 1:
		return "labelSelector=app%3Dweb"
	case 2:
		return "limit=10"
	}
	p := page.Paginate{Page: 1, PageSize: 5, Sort: "namespace desc,name", Search: "name=a"}
	if g.Intn(2) == 0 {
		p = page.Paginate{Sort: "created_at"}
	}
	if g.Intn(2) == 0 {
		if err := p.Clusters([]string{pick(g, cs)}); err != nil {
			panic(refused(err.Error()))
		}
	}
	return "labelSelector=" + selectorOf(p)
}

// pair is one configuration of the server under test: a cache, its watcher and clients.
func newPair(defs []*gvrDef, w *World) (watcher.Watcher, store.Store, map[string]kubernetes.Interface) {
	cfgs := map[string]rest.Config{}
	clis := map[string]kubernetes.Interface{}
	for i, cl := range w.Clusters {
		cfgs[cl] = restConfig(w.Ups[cl], w.Ups[cl].WatchURL(), i%2 == 0)
		clis[cl] = mkClient(restConfig(w.Ups[cl], w.Ups[cl].URL(), i%2 == 0))
	}
	initConfig(defs, w.Default, "")
	st := newStore(defs)
	var gvrs []store.GroupVersionResource
	for _, d := range defs {
		gvrs = append(gvrs, d.gvr())
	}
	return watcher.NewWatcher(cfgs, gvrs, st), st, clis
}

func reset(srv server.Server, st store.Store, clis map[string]kubernetes.Interface) {
	srv.ResetStore(st, clis)
}

func newKind(i int) *gvrDef {
	return &gvrDef{G: fmt.Sprintf("g%d.example.io", i), V: "v1", R: "things", Kind: fmt.Sprintf("Thing%d", i), Namespaced: true, Custom: true, Index: baseIndex}
}

func c22(c *Ctx) {
	c.Rule("a case is one operation performed while all other kinds were running, under the race detector; distinct are the (kind, round) combinations; every report of a data race or concurrent map access with a frame of the repository is a violation, also in the daemon")
	c.Assume("the race detector sees the accesses this workload performs; races of the dependencies alone do not count")
	g := c.Rand(1)
	done := make(chan struct{})
	go func() { defer close(done); c22daemon(c) }()
	c22colds(c)
	rounds := c.N(3, 30)
	for r := 0; r < rounds && !c.Stop(); r++ {
		c22round(c, g, r)
	}
	<-done
	for _, k := range trafficKinds {
		c.Need("ops_"+k, 20)
		if k != "reload" {
			c.Need("daemon_ops_"+k, 20)
		}
	}
	c.Need("upstream_events", 2000)
	c.Need("never_seen_kinds", 10)
	c.Need("cold_processes", 30)
	c.Need("cold_ops", 2000)
	c.Need("daemon_reloads", 4)
}

func c22round(c *Ctx, g *rand.Rand, r int) {
	base := append([]*gvrDef{}, allDefs...)
	w := NewWorld(base, []string{"c1", "c2", "c3"}, "c2", "")
	defer w.Close()
	for _, u := range w.Ups {
		u := u
		u.Hook = func(rw http.ResponseWriter, req *http.Request, body []byte) bool {
			u.mu.Lock()
			u.reqs = nil
			u.mu.Unlock()
			return false
		}
		for i := 0; i < 40; i++ {
			d := newKind(r*100 + i)
			u.Serve(d.root(), d.api(), d.listKind())
			o := genObj(g, d, u.Name, "a", "first")
			u.Put(d.root(), o.key(), o.Bytes)
		}
	}
	ww, st, clis := newPair(base, w)
	_ = ww.Start()
	var router http.Handler
	router, srv := func() (http.Handler, server.Server) { x, s := newRouter(clis, st); return x, s }()
	hs := startServer(router)
	var mu sync.Mutex
	cur := base
	t := &traffic{c: c, h: router, base: hs.URL, cli: &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 30}}, cs: w.Clusters,
		defs: func() []*gvrDef { mu.Lock(); defer mu.Unlock(); return cur }}
	t.bad = func(kind, what string) { c.Violate("failed/"+kind, "while everything was running: "+what, nil) }
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for kind := 0; kind < 7; kind++ {
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go t.run(rand.New(rand.NewSource(g.Int63())), kind, stop, &wg)
		}
	}
	// events on every type of every cluster, and broken streams
	for _, cl := range w.Clusters {
		eg := rand.New(rand.NewSource(g.Int63()))
		u := w.Ups[cl]
		cl := cl
		seq := make(map[string]*Obj)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				ds := t.defs()
				d := ds[eg.Intn(len(ds))]
				mu.Lock() // genObj counts
				o := genObj(eg, d, cl, pick(eg, nsNames), pick(eg, objNames))
				mu.Unlock()
				if eg.Intn(4) == 0 {
					u.Del(d.root(), o.key())
				} else {
					u.Put(d.root(), o.key(), o.Bytes)
					seq[o.key()] = o
				}
				if eg.Intn(400) == 0 {
					u.endStreams(d.root(), pick(eg, []string{"close", "abort"}))
				}
				c.Count("upstream_events", 1)
				if eg.Intn(4) == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	// reloads with kinds never seen before, in the daemon's order
	end := time.Now().Add(time.Duration(c.N(5, 12)) * time.Second)
	fresh := r * 100
	for time.Now().Before(end) {
		time.Sleep(time.Duration(100+g.Intn(300)) * time.Millisecond)
		defs := append([]*gvrDef{}, base...)
		mu.Lock()
		for i := 0; i < 2; i++ {
			defs = append(defs, newKind(fresh%100%40+r*100))
			fresh++
		}
		if g.Intn(3) == 0 {
			defs = defs[1:]
		}
		mu.Unlock()
		nw, ns, nc := newPair(defs, w)
		_ = ww.Stop()
		prommonitor.Resources.Reset()
		ww = nw
		_ = ww.Start()
		reset(srv, ns, nc)
		prommonitor.ConfigReload.WithLabelValues("success").Inc()
		mu.Lock()
		cur = defs
		mu.Unlock()
		atomic.AddInt64(&t.n[7], 1)
		c.Count("never_seen_kinds", 2)
	}
	// the last watcher is stopped while everything runs
	_ = ww.Stop()
	close(stop)
	if !waitTimeout(&wg, 120*time.Second) {
		c.Violate("blocked", "the workload did not end", stacks())
	}
	hs.CloseClientConnections()
	hs.Close()
	for i, k := range trafficKinds {
		c.Count("ops_"+k, t.n[i])
		for j := int64(0); j < t.n[i]; j++ {
			c.Eval(fmt.Sprintf("%s round %d", k, r))
		}
	}
}

// c22daemon runs the daemon built with the race detector under traffic while its files change.
func c22daemon(c *Ctx) {
	g := c.Rand(2)
	dir := filepath.Join(c.Tmp, "daemon")
	_ = os.MkdirAll(dir, 0o755)
	ups := map[string]*Upstream{}
	var ks []kctx
	for _, n := range []string{"c1", "c2"} {
		u := NewUpstream(n)
		defer u.Close()
		for _, d := range allDefs {
			u.Serve(d.root(), d.api(), d.listKind())
		}
		for i := 0; i < 30; i++ {
			d := newKind(5000 + i)
			u.Serve(d.root(), d.api(), d.listKind())
		}
		u.Hook = func(rw http.ResponseWriter, req *http.Request, body []byte) bool {
			u.mu.Lock()
			u.reqs = nil
			u.mu.Unlock()
			return false
		}
		ups[n] = u
		ks = append(ks, kctx{Name: n, URL: u.URL()})
	}
	conf, kube := filepath.Join(dir, "conf.json"), filepath.Join(dir, "kube")
	_ = os.WriteFile(conf, configJSON(allDefs, ""), 0o644)
	_ = os.WriteFile(kube, kubeYAML(ks, "c1", false), 0o644)
	// reports land beside those of this process
	d, err := startDaemon(dir, conf, kube, "GORACE=halt_on_error=0 log_path="+filepath.Join(filepath.Dir(c.Tmp), "race-daemon"))
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	defer d.Stop()
	if err := d.Ready(90 * time.Second); err != nil {
		c.Violate("daemon-start", err.Error(), nil)
		return
	}
	t := &traffic{c: c, base: "http://" + d.Addr, cli: &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 30}}, cs: []string{"c1", "c2"}, defs: func() []*gvrDef { return allDefs }}
	t.bad = func(kind, what string) {
		if d.Alive() {
			c.Violate("failed/daemon-"+kind, "while everything was running: "+what, nil)
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for kind := 0; kind < 7; kind++ {
		wg.Add(1)
		go t.run(rand.New(rand.NewSource(g.Int63())), kind, stop, &wg)
	}
	for _, cl := range t.cs {
		eg := rand.New(rand.NewSource(g.Int63()))
		cl := cl
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				case <-time.After(2 * time.Millisecond):
				}
				df := allDefs[eg.Intn(len(allDefs))]
				ns := ""
				if df.Namespaced {
					ns = pick(eg, nsNames)
				}
				o := finishObj(df, cl, ns, pick(eg, objNames), map[string]interface{}{"apiVersion": df.api(), "kind": df.Kind,
					"metadata": map[string]interface{}{"name": pick(eg, objNames), "namespace": ns, "resourceVersion": fmt.Sprint(i)}})
				if eg.Intn(4) == 0 {
					ups[cl].Del(df.root(), o.key())
				} else {
					ups[cl].Put(df.root(), o.key(), o.Bytes)
				}
			}
		}()
	}
	for i := 0; i < c.N(5, 30) && d.Alive(); i++ {
		n := d.reloads("success")
		defs := append(append([]*gvrDef{}, allDefs...), newKind(5000+i))
		if i%2 == 0 {
			_ = replaceByRename(conf, configJSON(defs, ""))
		} else {
			_ = replaceByRename(kube, kubeYAML(ks, t.cs[i%2], false))
		}
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && d.Alive(); time.Sleep(50 * time.Millisecond) {
			if d.reloads("success") > n {
				c.Count("daemon_reloads", 1)
				break
			}
		}
	}
	if !d.Alive() {
		l := d.Log()
		if i := strings.Index(l, "fatal error"); i >= 0 {
			l = l[i:]
		} else if i := strings.Index(l, "panic:"); i >= 0 {
			l = l[i:]
		}
		if len(l) > 5000 {
			l = l[:5000]
		}
		c.Violate("daemon-died", "the daemon ended under load", l)
	}
	close(stop)
	if !waitTimeout(&wg, 120*time.Second) {
		c.Violate("blocked", "the daemon's workload did not end", stacks())
	}
	for i, k := range trafficKinds {
		c.Count("daemon_ops_"+k, t.n[i])
	}
}

// c22cold is a process of its own: the first requests of a server arrive together, before anything has been used once.
func c22cold(seed int64) {
	g := rand.New(rand.NewSource(seed))
	defs := append([]*gvrDef{}, allDefs...)
	cs := []string{"c1", "c2"}
	initConfig(defs, "c1", "")
	st := newStore(defs)
	var objs []*Obj
	for _, d := range defs {
		for _, cl := range cs {
			for i := 0; i < 4; i++ {
				o := genObj(g, d, cl, pick(g, nsNames), pick(g, objNames))
				x := &watcher.ObjType{}
				if err := x.UnmarshalJSON(o.Bytes); err != nil {
					panic(err)
				}
				_ = st.OnResourceAdded(d.gvr(), cl, x)
				objs = append(objs, o)
			}
		}
	}
	clis := map[string]kubernetes.Interface{}
	for _, cl := range cs {
		clis[cl] = mkClient(rest.Config{Host: "http://127.0.0.1:1"})
	}
	router, _ := newRouter(clis, st)
	type op struct {
		target string
		hdr    map[string]string
	}
	const n, each = 12, 6
	var plan [n][]op
	for i := range plan {
		for j := 0; j < each; j++ {
			d := defs[g.Intn(len(defs))]
			o := op{target: d.root(), hdr: map[string]string{}}
			switch g.Intn(8) {
			case 0, 1, 2:
				o.target += "?" + listQuery(g, cs)
			case 3:
				o.target += "?" + listQuery(g, cs)
				o.hdr["Accept"] = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"
			case 4:
				x := objs[g.Intn(len(objs))]
				for _, d := range defs {
					if strings.HasSuffix(d.root(), "/"+d.R) && x.Raw["kind"] == d.Kind {
						o.target = d.path(x.NS) + "/" + x.Name + "?resourceVersion=" + marker + x.Cluster
					}
				}
			case 5:
				o.target = pick(g, []string{"/metrics", "/api", "/apis", "/version", "/healthy"})
			case 6:
				o.target = "/custom/v1/clusters/" + pick(g, cs) + "/namespaces/" + pick(g, nsNames) + "/deployments/app/services"
			}
			plan[i] = append(plan[i], o)
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range plan {
		wg.Add(1)
		go func(ops []op) {
			defer wg.Done()
			<-start
			for _, o := range ops {
				if r := do(router, "GET", o.target, o.hdr, nil); r.Hang || r.Aborted != "" {
					fmt.Printf("COLD %s: %s\n", o.target, r.Aborted)
				}
			}
		}(plan[i])
	}
	time.Sleep(20 * time.Millisecond)
	close(start)
	wg.Wait()
	fmt.Printf("COLD DONE %d\n", n*each)
}

// c22colds starts many of these processes.
func c22colds(c *Ctx) {
	self, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	g := c.Rand(3)
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for i := 0; i < c.N(36, 400) && !c.Stop(); i++ {
		seed := g.Int63()
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, self, "-cold", fmt.Sprint(seed))
			out, _ := cmd.CombinedOutput()
			s := string(out)
			if i := strings.Index(s, "COLD /"); i >= 0 {
				c.Violate("cold-failed", "one of the first requests of a server failed: "+strings.SplitN(s[i:], "\n", 2)[0], seed)
			}
			if !strings.Contains(s, "COLD DONE") {
				if len(s) > 4000 {
					s = s[len(s)-4000:]
				}
				c.Violate("cold-died", "a server died of its first requests, which came together", map[string]interface{}{"seed": seed, "output": s})
				return
			}
			c.Count("cold_processes", 1)
			c.Count("cold_ops", 72)
			c.Eval(fmt.Sprint("cold ", seed))
		}()
	}
	wg.Wait()
}
