package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

func init() {
	register("C23", "exploration", c23)
}

// slowStore delays every call, so that switches fall between the calls of one request.
type slowStore struct {
	store.Store
	n *int64
}

func (s slowStore) wait() {
	switch n := atomic.AddInt64(s.n, 1); n % 7 {
	case 0, 3:
		time.Sleep(time.Duration(n%5) * 400 * time.Microsecond)
	case 1, 5:
		runtime.Gosched()
	}
}

func (s slowStore) IsStoreGVR(g store.GroupVersionResource) bool {
	s.wait()
	r := s.Store.IsStoreGVR(g)
	s.wait()
	return r
}

func (s slowStore) Query(g store.GroupVersionResource, q store.Query) store.QueryResult {
	s.wait()
	r := s.Store.Query(g, q)
	s.wait()
	return r
}

func (s slowStore) Get(g store.GroupVersionResource, cluster, ns, name string) interface{} {
	s.wait()
	r := s.Store.Get(g, cluster, ns, name)
	s.wait()
	return r
}

// a generation is one pair of cache and clients; everything either of them says names it.
const c23Dyn = "/apis/example.io/v1/namespaces/a/widgets" // cached by even generations only

func c23size(gen int) int { return 3 + gen%5 }

func c23pair(gen int, ups map[string]*Upstream, calls *int64) (store.Store, map[string]kubernetes.Interface) {
	defs := []*gvrDef{defPods, defSvcs}
	if gen%2 == 0 {
		defs = append(defs, defWidgets)
	}
	st := newStore(defs)
	tag := strconv.Itoa(gen)
	mk := func(d *gvrDef, cluster, name string, labels, extra map[string]interface{}) {
		o := map[string]interface{}{"apiVersion": d.api(), "kind": d.Kind, "metadata": map[string]interface{}{"name": name, "namespace": "a", "uid": tag,
			"labels": labels, "annotations": map[string]interface{}{"gen": tag}}}
		for k, v := range extra {
			if k == "owner" {
				o["metadata"].(map[string]interface{})["ownerReferences"] = []interface{}{map[string]interface{}{"kind": "ReplicaSet", "name": v, "apiVersion": "apps/v1", "uid": "u"}}
			} else {
				o[k] = v
			}
		}
		b, _ := json.Marshal(o)
		if err := st.OnResourceAdded(d.gvr(), cluster, decoded(d, b)); err != nil {
			panic(err)
		}
	}
	for _, cl := range []string{"c1", "c2"} {
		for i := 0; i < c23size(gen); i++ {
			mk(defPods, cl, fmt.Sprintf("p%d", i), map[string]interface{}{"gen": tag, "app": "x"}, map[string]interface{}{"owner": "dep-5f"})
			if gen%2 == 0 {
				mk(defWidgets, cl, fmt.Sprintf("p%d", i), nil, nil)
			}
		}
		mk(defSvcs, cl, "svc", nil, map[string]interface{}{"spec": map[string]interface{}{"selector": map[string]interface{}{"gen": tag}}})
		mk(defSvcs, cl, "svc-"+tag, nil, map[string]interface{}{"spec": map[string]interface{}{"selector": map[string]interface{}{"app": "x", "gen": tag}}})
	}
	clis := map[string]kubernetes.Interface{}
	for cl, u := range ups {
		if cl == "odd" && gen%2 == 0 {
			continue
		}
		cfg := restConfig(u, u.URL(), false)
		cfg.BearerToken = "gen-" + tag
		if calls == nil {
			cfg.Transport = c23stub{}
		}
		clis[cl] = mkClient(cfg)
	}
	if calls == nil {
		return st, clis
	}
	return slowStore{st, calls}, clis
}

// c23stub answers in place of a cluster, at once.
type c23stub struct{}

func (c23stub) RoundTrip(r *http.Request) (*http.Response, error) {
	gen := strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer gen-")
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(`{"kind":"Echo","apiVersion":"v1","gen":"` + gen + `"}`))}, nil
}

// c23burst switches without pause between prepared pairs while cheap requests run.
func c23burst(c *Ctx, ups map[string]*Upstream) {
	const pairs = 64
	var sts [pairs]store.Store
	var clis [pairs]map[string]kubernetes.Interface
	for i := range sts {
		sts[i], clis[i] = c23pair(i, ups, nil)
	}
	router, srv := newRouter(clis[0], sts[0])
	var started, returned int64
	var wg sync.WaitGroup
	stop := make(chan struct{})
	go func() {
		for n := int64(1); ; n++ {
			select {
			case <-stop:
				return
			default:
			}
			atomic.StoreInt64(&started, n)
			srv.ResetStore(sts[n%pairs], clis[n%pairs])
			atomic.StoreInt64(&returned, n)
			if n%1024 == 0 {
				runtime.Gosched()
			}
			c.Count("burst_switches", 1)
		}
	}()
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < c.N(2500, 100000) && !c.Stop(); j++ {
				kind, target := "dyn-get", c23Dyn+"/p1?resourceVersion="+marker+"c1"
				switch j % 8 {
				case 3:
					kind, target = "odd-cluster", "/api/v1/namespaces/a/secrets/x?resourceVersion="+marker+"odd"
				case 5:
					kind, target = "dyn-list", c23Dyn
				case 7:
					kind, target = "deploy", "/custom/v1/clusters/c2/namespaces/a/deployments/dep/services"
				}
				lo := atomic.LoadInt64(&returned)
				r := do(router, "GET", target, nil, nil)
				hi := atomic.LoadInt64(&started)
				where := fmt.Sprintf("GET %s between switch %d and %d of %d prepared pairs", target, lo, hi, pairs)
				if r.Hang || r.Aborted != "" {
					c.Violate("failed/"+kind, where+" was not answered: "+r.Aborted, nil)
					return
				}
				gens, even, odd, problem := c23gens(kind, r)
				if problem == "" && len(gens) > 1 {
					problem = fmt.Sprintf("names %d generations", len(gens))
				}
				for n := range gens {
					if even && n%2 == 1 || odd && n%2 == 0 {
						problem = fmt.Sprintf("pair %d: cached and proxied answers are swapped", n)
					}
					ok := hi-lo >= pairs
					for k := lo; k <= hi && !ok; k++ {
						ok = k%pairs == int64(n)
					}
					if !ok {
						c.Violate("stale/"+kind, fmt.Sprintf("%s was answered by pair %d", where, n), trunc(r.Body))
					}
				}
				if problem != "" {
					c.Violate("mixed/"+kind, where+": "+problem, trunc(r.Body))
				}
				c.Eval(fmt.Sprintf("burst %s %d %v", kind, len(gens), hi > lo))
				c.Count("burst_requests", 1)
			}
		}(i)
	}
	if !waitTimeout(&wg, 300*time.Second) {
		c.Violate("blocked", "requests did not end", stacks())
	}
	close(stop)
}

// c23edges switches to pairs which have little in common with the one before: no clusters (nil or empty), some of
// them, nothing cached, the same cache with other clusters and the same clusters with another cache.
func c23edges(c *Ctx, ups map[string]*Upstream, g *rand.Rand) {
	st, clis := c23pair(0, ups, nil)
	stGen, cliGen := 0, 0
	router, srv := newRouter(clis, st)
	for n := 1; n <= c.N(400, 4000) && !c.Stop(); n++ {
		st2, clis2 := c23pair(n, ups, nil)
		how := pick(g, []string{"nil clusters", "empty clusters", "one cluster", "empty cache", "same cache", "same clusters", "same pair", "all new"})
		switch how {
		case "nil clusters":
			st, clis = st2, nil
		case "empty clusters":
			st, clis = st2, map[string]kubernetes.Interface{}
		case "one cluster":
			st, clis = st2, map[string]kubernetes.Interface{"c2": clis2["c2"]}
		case "empty cache":
			st, clis = newStore(nil), clis2
		case "same cache":
			clis = clis2
		case "same clusters":
			st = st2
		case "all new":
			st, clis = st2, clis2
		}
		if how != "same cache" && how != "same pair" {
			stGen = n
			if how == "empty cache" {
				stGen = -1
			}
		}
		if how != "same clusters" && how != "same pair" {
			cliGen = n
		}
		srv.ResetStore(st, clis)
		for _, cl := range []string{"c1", "c2"} {
			for _, target := range []string{"/api/v1/namespaces/a/pods/p1", "/api/v1/namespaces/a/secrets/x"} {
				r := do(router, "GET", target+"?resourceVersion="+marker+cl, nil, nil)
				m := r.json()
				want, got := "", ""
				switch {
				case strings.Contains(target, "pods") && stGen >= 0:
					want, got = fmt.Sprint("200 cached by ", stGen), fmt.Sprint(r.Status, " cached by ", text(at(m, "metadata", "annotations", "gen")))
				case clis[cl] != nil:
					want, got = fmt.Sprint("200 forwarded by ", cliGen), fmt.Sprint(r.Status, " forwarded by ", text(m["gen"]))
				default:
					want, got = "404 Status", fmt.Sprint(r.Status, " ", m["kind"])
				}
				if got != want {
					c.Violate("edge/"+how, fmt.Sprintf("after a switch to %s, GET %s of cluster %s gave %q instead of %q: %s", how, target, cl, got, want, trunc(r.Body)), nil)
				}
				c.Eval("edge " + how + " " + strings.SplitN(want, " by", 2)[0])
			}
		}
		c.Count("edge_switches", 1)
	}
	c.Need("edge_switches", 200)
}

var c23kinds = []string{"list", "query", "table", "get", "dyn-list", "dyn-get", "write", "watch", "deploy", "odd-cluster"}

// c23gens extracts the generations an answer names; err describes an answer no single generation gives.
func c23gens(kind string, r *Resp) (gens map[int]bool, even, odd bool, problem string) {
	gens = map[int]bool{}
	add := func(s string) {
		n, err := strconv.Atoi(strings.TrimPrefix(s, "gen-"))
		if err != nil {
			problem = "no generation in " + trunc(r.Body)
		}
		gens[n] = true
	}
	if kind == "odd-cluster" && r.Status != 200 {
		if r.Status != 404 {
			return gens, false, false, fmt.Sprintf("status %d: %s", r.Status, trunc(r.Body))
		}
		return gens, true, false, ""
	}
	if r.Status != 200 {
		return gens, false, false, fmt.Sprintf("status %d: %s", r.Status, trunc(r.Body))
	}
	m := r.json()
	switch kind {
	case "write", "odd-cluster":
		odd = kind == "odd-cluster"
		add(text(m["gen"]))
	case "watch":
		n := 0
		for _, l := range bytes.Split(bytes.TrimSpace(r.Body), []byte("\n")) {
			e := map[string]interface{}{}
			if json.Unmarshal(l, &e) != nil {
				return gens, false, false, "bad event " + trunc(l)
			}
			add(text(at(e, "object", "gen")))
			n++
		}
		if n != 2 {
			problem = fmt.Sprintf("%d events: %s", n, trunc(r.Body))
		}
	case "get", "dyn-get":
		if g := m["gen"]; g != nil {
			if kind == "get" {
				return gens, false, false, "a cached object was read from the cluster"
			}
			odd = true
			add(text(g))
		} else {
			even = kind == "dyn-get"
			add(text(at(m, "metadata", "annotations", "gen")))
		}
	case "deploy":
		var l []map[string]interface{}
		if json.Unmarshal(r.Body, &l) != nil || len(l) != 2 {
			return gens, false, false, "expected 2 services: " + trunc(r.Body)
		}
		for _, s := range l {
			add(text(at(s, "metadata", "annotations", "gen")))
			add(text(at(s, "spec", "selector", "gen")))
		}
	default: // list, query, table, dyn-list
		if g := m["gen"]; g != nil {
			if kind != "dyn-list" {
				return gens, false, false, "a cached type was listed from the cluster"
			}
			odd = true
			add(text(g))
			return
		}
		even = kind == "dyn-list"
		items, _ := m["items"].([]interface{})
		if kind == "table" {
			items = nil
			rows, _ := m["rows"].([]interface{})
			cols, _ := m["columnDefinitions"].([]interface{})
			for i, col := range cols {
				for _, x := range rows {
					if cells, _ := at(x, "cells").([]interface{}); at(col, "name") == "uid" && i < len(cells) {
						items = append(items, map[string]interface{}{"metadata": map[string]interface{}{"annotations": map[string]interface{}{"gen": cells[i]}}})
					}
				}
			}
		}
		if len(items) == 0 {
			return gens, false, false, "no items: " + trunc(r.Body)
		}
		for _, x := range items {
			add(text(at(x, "metadata", "annotations", "gen")))
		}
		if problem != "" {
			return
		}
		total := len(items)
		if kind == "query" {
			total = 2
			if len(items) == 2 {
				n, _ := strconv.Atoi(text(at(m, "metadata", "remainingItemCount")))
				total = 2 + n
			}
		}
		for g := range gens {
			if total != c23size(g) {
				problem = fmt.Sprintf("%d objects in all, generation %d has %d", total, g, c23size(g))
			}
		}
	}
	return
}

func c23(c *Ctx) {
	c.Rule("a case is one request answered while caches and clients are switched; distinct are the combinations of kind of request, parity of the generation which answered, number of switches that overlapped it (up to 5) and transport")
	c.Assume("the schedules are those of the Go scheduler with delays injected into the caches' and clusters' answers; a request started after ResetStore returned counts as later")
	g := c.Rand(1)
	var bad sync.Map
	ups := map[string]*Upstream{}
	for _, n := range []string{"c1", "c2", "odd"} {
		u := NewUpstream(n)
		defer u.Close()
		u.Hook = func(w http.ResponseWriter, r *http.Request, body []byte) bool {
			u.mu.Lock()
			u.reqs = nil
			u.mu.Unlock()
			gen := strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer gen-")
			if n, err := strconv.Atoi(gen); err != nil || r.Method == "GET" && !isWatch(r) && strings.Contains(r.URL.Path, "widgets") && n%2 == 0 {
				bad.Store(r.Method+" "+r.URL.Path+" generation "+gen, true)
			}
			w.Header().Set("Content-Type", "application/json")
			if isWatch(r) {
				for i := 0; i < 2; i++ {
					_, _ = io.WriteString(w, `{"type":"ADDED","object":{"kind":"Pod","apiVersion":"v1","gen":"`+gen+`"}}`+"\n")
					w.(http.Flusher).Flush()
					time.Sleep(time.Millisecond)
				}
				return true
			}
			if len(body)%3 == 0 {
				time.Sleep(time.Millisecond)
			}
			_, _ = io.WriteString(w, `{"kind":"Echo","apiVersion":"v1","gen":"`+gen+`"}`)
			return true
		}
		ups[n] = u
	}
	initConfig([]*gvrDef{defPods, defSvcs, defWidgets}, "c1", "")
	c23edges(c, ups, g)
	c23burst(c, ups)
	var calls int64
	st, clis := c23pair(0, ups, &calls)
	router, srv := newRouter(clis, st)
	hs := startServer(router)
	defer hs.Close()
	cli := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 40}}
	var started, returned int64 // generation whose switch began, and whose switch returned
	stop := make(chan struct{})
	var wg sync.WaitGroup
	worker := func(g *rand.Rand, kind string) {
		defer wg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			cl := pick(g, []string{"c1", "c2"})
			method, target, body := "GET", "/api/v1/namespaces/a/pods", ""
			hdr := map[string]string{}
			switch kind {
			case "list", "table":
				target = pick(g, []string{target, "/api/v1/pods"})
				if kind == "table" {
					hdr["Accept"] = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"
				}
			case "query":
				target += "?labelSelector=" + selectorOf(page.Paginate{Page: 1, PageSize: 2, Sort: "name"})
			case "get":
				target += "/p1?resourceVersion=" + marker + cl
			case "dyn-list":
				target = c23Dyn
			case "dyn-get":
				target = c23Dyn + "/p1?resourceVersion=" + marker + cl
			case "write":
				method = pick(g, []string{"POST", "PUT", "PATCH"})
				target = pick(g, []string{target, c23Dyn, "/api/v1/namespaces/a/secrets"}) + "/x?fieldManager=" + marker + cl
				body = `{"a":` + strings.Repeat("1", 1+g.Intn(5)) + `}`
			case "watch":
				target += "?watch=true&cluster=" + cl
			case "deploy":
				target = "/custom/v1/clusters/" + cl + "/namespaces/a/deployments/dep/services"
				if g.Intn(2) == 0 {
					target = "/custom/v1/namespaces/a/deployments/dep/services"
				}
			case "odd-cluster":
				target = "/api/v1/namespaces/a/secrets/x?resourceVersion=" + marker + "odd"
			}
			lo := atomic.LoadInt64(&returned)
			var r *Resp
			via := "handler"
			if g.Intn(3) == 0 {
				r = do(router, method, target, hdr, []byte(body))
			} else {
				via = "http"
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				req, _ := http.NewRequestWithContext(ctx, method, hs.URL+target, strings.NewReader(body))
				for k, v := range hdr {
					req.Header.Set(k, v)
				}
				resp, err := cli.Do(req)
				r = &Resp{}
				if err == nil {
					r.Status = resp.StatusCode
					r.Body, err = io.ReadAll(resp.Body)
					_ = resp.Body.Close()
				}
				if err != nil {
					r.Aborted = err.Error()
				}
				cancel()
			}
			hi := atomic.LoadInt64(&started)
			where := fmt.Sprintf("%s %s between switch %d and %d", method, target, lo, hi)
			if r.Hang || r.Aborted != "" {
				c.Violate("failed/"+kind, where+" was not answered: "+r.Aborted, nil)
				continue
			}
			gens, even, odd, problem := c23gens(kind, r)
			over := hi - lo
			if over > 5 {
				over = 5
			}
			par := "any"
			switch {
			case problem != "":
				c.Violate("mixed/"+kind, where+": "+problem, trunc(r.Body))
				continue
			case len(gens) > 1:
				c.Violate("mixed/"+kind, fmt.Sprintf("%s names %d generations", where, len(gens)), trunc(r.Body))
				continue
			case len(gens) == 0: // any even generation
				if hi == lo && lo%2 == 1 {
					c.Violate("stale/"+kind, where+" was answered as by an even generation", trunc(r.Body))
				}
				par = "even"
			default:
				for n := range gens {
					if int64(n) < lo || int64(n) > hi {
						c.Violate("stale/"+kind, fmt.Sprintf("%s was answered by generation %d", where, n), trunc(r.Body))
					}
					if even && n%2 == 1 || odd && n%2 == 0 {
						c.Violate("mixed/"+kind, fmt.Sprintf("%s: generation %d, cached and proxied answers are swapped", where, n), trunc(r.Body))
					}
					par = []string{"even", "odd"}[n%2]
				}
			}
			if hi > lo {
				c.Count("overlapping_"+kind, 1)
			}
			c.Eval(fmt.Sprintf("%s %s %d %s", kind, par, over, via))
		}
	}
	for _, k := range c23kinds {
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go worker(rand.New(rand.NewSource(g.Int63())), k)
		}
	}
	n := c.N(900, 20000)
	for gen := 1; gen <= n && !c.Stop(); gen++ {
		st, clis := c23pair(gen, ups, &calls)
		atomic.StoreInt64(&started, int64(gen))
		srv.ResetStore(st, clis)
		atomic.StoreInt64(&returned, int64(gen))
		switch g.Intn(4) {
		case 0:
			time.Sleep(time.Duration(g.Intn(12)) * time.Millisecond)
		case 1:
			runtime.Gosched()
		case 2: // twice in a row, to an empty pair and back
			time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
		}
		c.Count("switches", 1)
	}
	close(stop)
	if !waitTimeout(&wg, 120*time.Second) {
		c.Violate("blocked", "requests did not end", stacks())
	}
	bad.Range(func(k, v interface{}) bool {
		c.Violate("mixed/upstream", "sent to the cluster although that generation caches the type: "+k.(string), nil)
		return true
	})
	c.Need("burst_switches", 10000)
	for _, k := range c23kinds {
		c.Need("overlapping_"+k, 100)
	}
}

// selectorOf is the escaped label selector which carries a query.
func selectorOf(p page.Paginate) string {
	o, err := page.QueryListOptions(metav1.ListOptions{}, p)
	if err != nil {
		panic(refused(err.Error()))
	}
	return url.QueryEscape(o.LabelSelector)
}
