package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
)

func init() {
	register("C14", "exploration", c14)
	register("C15", "exploration", c15)
	register("C16", "exploration", c16)
}

// watchDefs have kinds whose names are easily mistaken.
func watchDefs() []*gvrDef {
	ix := append([]idx{}, baseIndex...)
	return []*gvrDef{
		{V: "v1", R: "pods", Kind: "Pod", Namespaced: true, Index: ix},
		{V: "v1", R: "services", Kind: "Service", Namespaced: true, Index: ix},
		{V: "v1", R: "namespaces", Kind: "Namespace", Index: ix},
		{V: "v1", R: "limitranges", Kind: "LimitRange", Namespaced: true, Index: ix},
		{G: "apps", V: "v1", R: "deployments", Kind: "Deployment", Namespaced: true, Index: ix},
		{G: "deploy.example.io", V: "v1", R: "deployments", Kind: "Deployment", Namespaced: true, Custom: true, Index: ix},
		{G: "example.io", V: "v1", R: "widgets", Kind: "Widget", Namespaced: true, Custom: true, Index: ix},
		{G: "example.io", V: "v1", R: "playlists", Kind: "PlayList", Custom: true, Index: ix},
		{G: "example.io", V: "v1", R: "tilts", Kind: "Tilt", Namespaced: true, Custom: true, Index: ix},
		{G: "example.io", V: "v2", R: "widgets", Kind: "Widget", Namespaced: true, Custom: true, Index: ix},
		{G: "s.example.io", V: "v1alpha1", R: "lists", Kind: "List", Custom: true, Index: ix},
	}
}

// minObj is a small object every type accepts.
func minObj(g *rand.Rand, d *gvrDef, cluster, ns, name string) *Obj {
	return genObj(g, &gvrDef{G: d.G, V: d.V, R: d.R, Kind: d.Kind, Namespaced: d.Namespaced, Custom: d.Custom}, cluster, ns, name).as(d)
}

// as re-homes the object in a definition; built-in types keep only what every built-in has.
func (o *Obj) as(d *gvrDef) *Obj {
	raw := map[string]interface{}{"apiVersion": d.api(), "kind": d.Kind, "metadata": o.Raw["metadata"]}
	if d.Custom {
		raw["spec"] = o.Raw["spec"]
	}
	return finishObj(d, o.Cluster, o.NS, o.Name, raw)
}

func rv(o map[string]interface{}) string { return text(at(o, "metadata", "resourceVersion")) }

// served is what the proxy serves of one type and cluster: id -> resourceVersion.
func (w *World) served(d *gvrDef, cluster string) (map[string]string, error) {
	l, err := parseList(w.get(d.root() + "?labelSelector=" + url.QueryEscape(clusterQuery(cluster))))
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, it := range l.Items {
		if _, dup := m[it.ID]; dup {
			return nil, fmt.Errorf("%s is listed twice", it.ID)
		}
		m[it.ID] = rv(it.Raw)
	}
	return m, nil
}

// truth is what the cluster holds.
func (w *World) truth(d *gvrDef, cluster string) map[string]string {
	w.mu.Lock()
	defer w.mu.Unlock()
	m := map[string]string{}
	for _, o := range w.Objs[d] {
		if o.Cluster == cluster {
			m[o.id()] = rv(o.Raw)
		}
	}
	return m
}

func mapDiff(got, want map[string]string) string {
	var ds []string
	for k, v := range want {
		if x, ok := got[k]; !ok {
			ds = append(ds, "missing "+k)
		} else if x != v {
			ds = append(ds, fmt.Sprintf("%s in version %s instead of %s", k, x, v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ds = append(ds, "left over "+k)
		}
	}
	sort.Strings(ds)
	if len(ds) > 8 {
		ds = ds[:8]
	}
	return strings.Join(ds, "; ")
}

// converge polls until the cache of every given path equals the truth.
func (w *World) converge(paths [][2]interface{}, limit time.Duration) map[string]string {
	deadline := time.Now().Add(limit)
	bad := map[string]string{}
	left := paths
	for {
		bad = map[string]string{}
		var next [][2]interface{}
		for _, p := range left {
			d, c := p[0].(*gvrDef), p[1].(string)
			got, err := w.served(d, c)
			diff := ""
			if err != nil {
				diff = err.Error()
			} else {
				diff = mapDiff(got, w.truth(d, c))
			}
			if diff != "" {
				bad[d.root()+"@"+c] = diff
				next = append(next, p)
			}
		}
		left = next
		if len(left) == 0 {
			return nil
		}
		if time.Now().After(deadline) {
			return bad
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func (w *World) lockedPut(g *rand.Rand, d *gvrDef, cl, ns, name string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.Put(minObj(g, d, cl, ns, name))
}

func (w *World) lockedDel(g *rand.Rand, d *gvrDef, cl string, all bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	var os []*Obj
	for _, o := range w.objs(d) {
		if o.Cluster == cl {
			os = append(os, o)
		}
	}
	for i, o := range os {
		if all || g.Intn(len(os)) == i || g.Intn(5) == 0 {
			w.Del(o)
		}
	}
}

func (w *World) mutate(g *rand.Rand, d *gvrDef, cl string, n int) {
	for i := 0; i < n; i++ {
		if g.Intn(3) == 0 {
			w.lockedDel(g, d, cl, false)
		} else {
			w.lockedPut(g, d, cl, pick(g, nsNames), pick(g, objNames))
		}
	}
}

var watchFaults = []string{"status500", "status503text", "status403", "status404", "status404json", "status401", "status410", "status429", "drop", "emptyend", "emptyabort", "errevent", "erridle", "garbage", "partial", "bookmark", "junk200"}

func bookmark(d *gvrDef) []byte {
	return eventJSON("BOOKMARK", []byte(fmt.Sprintf(`{"apiVersion":%q,"kind":%q,"metadata":{"resourceVersion":"77","creationTimestamp":null}}`, d.api(), d.Kind)))
}

func c14(c *Ctx) {
	c.Rule("a case is one watch path (type and cluster) driven through a random script of changes and faults and compared with the cluster's state once the faults are over; distinct by script; non-trivial when the script has a fault")
	c.Assume("a new watch stream first sends every present object (as API servers do without a resourceVersion); 60 s after the last fault and change (the reconnect pauses are 3 s and 15 s) the streams have delivered their events")
	epochs := c.N(1, 6)
	for e := 0; e < epochs && !c.Stop(); e++ {
		c14epoch(c, e)
	}
	c.Need("paths_converged", 50)
	c.Need("faults_applied", 50)
	c.Need("stream_ends", 50)
}

func c14epoch(c *Ctx, e int) {
	g := c.Rand(int64(10 + e))
	defs := watchDefs()
	var clusters []string
	for i := 0; i < 8; i++ {
		clusters = append(clusters, fmt.Sprintf("f%d", i))
	}
	healthy := []string{"h1", "h2"}
	clusters = append(clusters, healthy...)
	w := NewWorld(defs, clusters, "h1", "")
	defer w.Close()
	for _, d := range defs {
		for _, cl := range clusters {
			if g.Intn(6) > 0 {
				w.mutate(g, d, cl, g.Intn(8))
			}
		}
	}
	// a cluster that cannot be reached at all, and one whose client cannot be made
	w.Configs["nowhere"] = rest.Config{Host: "http://127.0.0.1:1"}
	w.Configs["broken"] = rest.Config{Host: "http://127.0.0.1:1", TLSClientConfig: rest.TLSClientConfig{CAFile: "/nonexistent/ca"}}
	// a type that one cluster does not have
	w.Ups["f0"].SetFault(defs[8].root(), "status404")
	w.StartWatcher()
	var paths, hpaths [][2]interface{}
	for _, d := range defs {
		for _, cl := range clusters {
			if cl == "f0" && d == defs[8] {
				continue
			}
			paths = append(paths, [2]interface{}{d, cl})
		}
		for _, cl := range healthy {
			hpaths = append(hpaths, [2]interface{}{d, cl})
		}
	}
	report := func(bad map[string]string, phase string, scripts map[string][]string) {
		var ks []string
		for k := range bad {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Violate(phase+"/"+k[:strings.Index(k, "@")], fmt.Sprintf("%s: cache and cluster differ (%s): %s", k, phase, bad[k]), map[string]interface{}{"script": scripts[k], "epoch": e})
		}
	}
	if bad := w.converge(paths, 60*time.Second); bad != nil {
		report(bad, "start", nil)
		return
	}
	c.Count("paths_converged", int64(len(paths)))
	scripts := map[string][]string{}
	var smu sync.Mutex
	var wg sync.WaitGroup
	end := time.Now().Add(time.Duration(c.N(16, 40)) * time.Second)
	for i, p := range paths {
		d, cl := p[0].(*gvrDef), p[1].(string)
		wg.Add(1)
		go func(d *gvrDef, cl string, g *rand.Rand) {
			defer wg.Done()
			var log []string
			u, path := w.Ups[cl], d.root()
			isHealthy := cl[0] == 'h'
			for time.Now().Before(end) {
				n := g.Intn(14)
				if isHealthy {
					n = g.Intn(5)
				}
				switch {
				case n < 4:
					w.mutate(g, d, cl, 1+g.Intn(4))
					log = append(log, "mutate")
				case n == 4:
					u.Raw(path, bookmark(d))
					log = append(log, "bookmark")
				case n == 5:
					u.Raw(path, eventJSON("ERROR", []byte(status410)))
					log = append(log, "error event")
				case n == 6:
					u.Raw(path, []byte("{\"type\":\"ADDED\",\"object\":{{{\n"))
					log = append(log, "garbage event")
				case n < 10:
					how := []string{"close", "abort"}[g.Intn(2)]
					k := u.endStreams(path, how)
					c.Count("stream_ends", int64(k))
					log = append(log, "end "+how)
					if g.Intn(2) == 0 { // while it is away
						w.mutate(g, d, cl, 1+g.Intn(5))
						log = append(log, "mutate while away")
					}
					if g.Intn(3) == 0 {
						w.lockedDel(g, d, cl, true)
						log = append(log, "delete all while away")
					}
				case n < 13:
					f := pick(g, watchFaults)
					u.SetFault(path, f)
					k := u.endStreams(path, []string{"close", "abort"}[g.Intn(2)])
					c.Count("stream_ends", int64(k))
					c.Count("faults_applied", 1)
					c.Count("fault_"+f, 1)
					log = append(log, "fault "+f)
					w.mutate(g, d, cl, g.Intn(4))
					if g.Intn(3) == 0 {
						w.lockedDel(g, d, cl, true)
						log = append(log, "delete all during fault")
					}
					time.Sleep(time.Duration(500+g.Intn(5000)) * time.Millisecond)
					u.SetFault(path, "")
					log = append(log, "fault over")
				default:
					w.lockedDel(g, d, cl, true)
					log = append(log, "delete all")
				}
				time.Sleep(time.Duration(g.Intn(1200)) * time.Millisecond)
			}
			smu.Lock()
			scripts[path+"@"+cl] = log
			smu.Unlock()
			if !isHealthy {
				sig := strings.Join(log, ",")
				if !strings.Contains(sig, "fault") && !strings.Contains(sig, "end ") {
					sig = ""
				}
				c.Eval(sig)
			}
		}(d, cl, rand.New(rand.NewSource(c.Seed*31337+int64(e*1000+i))))
	}
	// whole servers go away
	for _, cl := range clusters[:3] {
		wg.Add(1)
		go func(u *Upstream, g *rand.Rand) {
			defer wg.Done()
			time.Sleep(time.Duration(1000+g.Intn(3000)) * time.Millisecond)
			u.Down()
			time.Sleep(time.Duration(500+g.Intn(4000)) * time.Millisecond)
			u.Up()
			c.Count("server_restarts", 1)
		}(w.Ups[cl], rand.New(rand.NewSource(c.Seed*17+int64(e))))
	}
	// a single late connection failure does not stop the healthy clusters
	wg.Wait()
	if bad := w.converge(hpaths, 60*time.Second); bad != nil {
		report(bad, "healthy", scripts)
	}
	if bad := w.converge(paths, 60*time.Second); bad != nil {
		report(bad, "converge", scripts)
	} else {
		c.Count("paths_converged", int64(len(paths)))
	}
	// and the streams still work
	if !c.Violated() {
		for round, between := range []string{"nothing", "an error event", "a bookmark"} {
			for _, p := range paths {
				d, cl := p[0].(*gvrDef), p[1].(string)
				w.lockedPut(g, d, cl, "default", "keeper")
				w.lockedPut(g, d, cl, "default", "keeper-2")
				k := scripts[d.root()+"@"+cl]
				scripts[d.root()+"@"+cl] = append(k, "mutate after "+between)
				switch round {
				case 1:
					w.Ups[cl].Raw(d.root(), eventJSON("ERROR", []byte([]string{status410, status500}[g.Intn(2)])))
				case 2:
					w.Ups[cl].Raw(d.root(), bookmark(d))
				}
				w.mutate(g, d, cl, 2)
			}
			if bad := w.converge(paths, 60*time.Second); bad != nil {
				report(bad, "afterwards", scripts)
				break
			}
			c.Count("paths_converged", int64(len(paths)))
		}
	}
	for _, u := range w.Ups {
		c.Count("watch_requests", int64(u.Opened("")))
	}
	for k, v := range scripts {
		c.Sample(map[string]interface{}{"path": k, "script": v})
		break
	}
}

// ---- C15

func c15(c *Ctx) {
	c.Rule("a case is one watch path during one outage; every list sampled during it is compared with the list before it; distinct by fault, type and cluster state; all are non-trivial")
	c.Assume("the cluster still has at least one object of each type during the outage, so no list confirms that there are none")
	epochs := c.N(1, 5)
	for e := 0; e < epochs && !c.Stop(); e++ {
		c15epoch(c, e)
	}
	c.Need("samples_judged", 500)
	c.Need("outage_watch_requests", 40)
}

func c15epoch(c *Ctx, e int) {
	g := c.Rand(int64(10 + e))
	defs := watchDefs()[:9]
	faults := append([]string{"down", "downup"}, watchFaults...)
	var clusters []string
	for _, f := range faults {
		clusters = append(clusters, f)
	}
	clusters = append(clusters, "healthy")
	w := NewWorld(defs, clusters, "healthy", "")
	defer w.Close()
	var paths, hpaths [][2]interface{}
	for _, d := range defs {
		for _, cl := range clusters {
			w.lockedPut(g, d, cl, "default", "keeper")
			w.mutate(g, d, cl, g.Intn(8))
			w.lockedPut(g, d, cl, "default", "keeper")
			if cl == "healthy" {
				hpaths = append(hpaths, [2]interface{}{d, cl})
			} else {
				paths = append(paths, [2]interface{}{d, cl})
			}
		}
	}
	w.StartWatcher()
	if bad := w.converge(append(paths, hpaths...), 60*time.Second); bad != nil {
		for k, v := range bad {
			c.Violate("start/"+k, k+" is not cached to begin with: "+v, nil)
		}
		return
	}
	before := map[string]map[string]string{}
	for _, p := range paths {
		m, err := w.served(p[0].(*gvrDef), p[1].(string))
		if err != nil {
			c.Violate("list", err.Error(), nil)
			return
		}
		before[p[0].(*gvrDef).root()+"@"+p[1].(string)] = m
	}
	opened0 := 0
	for _, u := range w.Ups {
		opened0 += u.Opened("")
	}
	var stop int32
	var wg sync.WaitGroup
	for i, cl := range clusters {
		if cl == "healthy" {
			continue
		}
		u := w.Ups[cl]
		switch cl {
		case "down", "downup":
			u.Down()
		default:
			for _, d := range defs {
				u.SetFault(d.root(), cl)
			}
			u.endStreams("", []string{"close", "abort"}[g.Intn(2)])
		}
		c.Count("outages", 1)
		// the cluster changes meanwhile, and keeps changing its mind about how it is broken
		wg.Add(1)
		go func(cl string, u *Upstream, g *rand.Rand) {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				w.mutate(g, defs[g.Intn(len(defs))], cl, 1)
				for _, d := range defs {
					w.lockedPut(g, d, cl, "default", "keeper")
				}
				if cl == "downup" { // comes back broken
					for _, d := range defs {
						u.SetFault(d.root(), pick(g, []string{"emptyend", "status500", "emptyabort", "errevent"}))
					}
					u.Up()
					time.Sleep(time.Duration(1000+g.Intn(3000)) * time.Millisecond)
					if atomic.LoadInt32(&stop) == 0 {
						u.Down()
						time.Sleep(time.Duration(200+g.Intn(500)) * time.Millisecond)
					} else {
						return
					}
				}
				time.Sleep(300 * time.Millisecond)
			}
		}(cl, u, rand.New(rand.NewSource(c.Seed*99+int64(e*100+i))))
	}
	wg.Add(1)
	go func() { // the healthy cluster goes on
		defer wg.Done()
		hg := rand.New(rand.NewSource(c.Seed + int64(e)))
		for atomic.LoadInt32(&stop) == 0 {
			w.mutate(hg, defs[hg.Intn(len(defs))], "healthy", 2)
			time.Sleep(50 * time.Millisecond)
		}
	}()
	// sample
	end := time.Now().Add(time.Duration(c.N(65, 180)) * time.Second)
	reported := map[string]bool{}
	for time.Now().Before(end) && !c.Stop() {
		for _, p := range paths {
			d, cl := p[0].(*gvrDef), p[1].(string)
			k := d.root() + "@" + cl
			if reported[k] {
				continue
			}
			got, err := w.served(d, cl)
			if err == nil {
				if diff := mapDiff(got, before[k]); diff != "" {
					err = fmt.Errorf("%s", diff)
				}
			}
			if err != nil {
				reported[k] = true
				c.Violate("outage/"+cl, fmt.Sprintf("during the outage %q the served list of %s changed: %v", cl, d.root(), err), map[string]interface{}{"before": before[k], "served": got})
			}
			c.Count("samples_judged", 1)
		}
		time.Sleep(30 * time.Millisecond)
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	for _, p := range paths {
		c.Eval(fmt.Sprintf("%d %s@%s %d", e, p[0].(*gvrDef).root(), p[1].(string), len(before[p[0].(*gvrDef).root()+"@"+p[1].(string)])))
	}
	opened1 := 0
	for _, u := range w.Ups {
		opened1 += u.Opened("")
	}
	c.Count("outage_watch_requests", int64(opened1-opened0))
	if bad := w.converge(hpaths, 60*time.Second); bad != nil {
		for k, v := range bad {
			c.Violate("healthy/"+k, "the healthy cluster's cache is behind: "+k+": "+v, nil)
		}
	}
	c.Sample(map[string]interface{}{"faults": faults, "types": len(defs)})
}

// ---- C16

func watcherGoroutines() (int, string) {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	n := 0
	one := ""
	for _, s := range strings.Split(string(b), "\n\n") {
		if strings.Contains(s, repoPkg+"watcher.") {
			n++
			one = s
		}
	}
	return n, one
}

func c16(c *Ctx) {
	c.Rule("a case is one watcher stopped in one state of its streams; streams, new watch requests, cache and goroutines are observed afterwards; distinct by state and stop timing; all are non-trivial")
	c.Assume("a stop that has not taken effect after 45 s never does (the longest pause of the watcher is 15 s); another watcher runs on the same clusters throughout")
	epochs := c.N(1, 5)
	for e := 0; e < epochs && !c.Stop(); e++ {
		c16epoch(c, e)
	}
	c.Need("watchers_stopped", 10)
	c.Need("quiet_observations", 10)
}

func c16epoch(c *Ctx, e int) {
	g := c.Rand(int64(10 + e))
	defs := watchDefs()[:7]
	states := []string{"idle", "busy", "closed", "status500", "drop", "hang", "listhang", "down", "emptyend", "early", "twice", "unstarted", "failing"}
	type inst struct {
		state  string
		w      *World // the watched cluster, this watcher's store
		other  *countStore
		ow     watcher.Watcher
		opened int
		busy   int32
		done   chan struct{}
	}
	var insts []*inst
	var gvrs []store.GroupVersionResource
	for _, d := range defs {
		gvrs = append(gvrs, d.gvr())
	}
	for _, s := range states {
		w := NewWorld(defs, []string{s + "-1", s + "-2"}, s+"-1", "")
		for _, d := range defs {
			for _, cl := range w.Clusters {
				w.mutate(g, d, cl, 1+g.Intn(5))
			}
		}
		in := &inst{state: s, w: w, done: make(chan struct{})}
		w.W = watcher.NewWatcher(w.Configs, gvrs, w.Store)
		if s != "unstarted" {
			if s == "hang" || s == "listhang" || s == "drop" || s == "status500" || s == "emptyend" {
				for _, u := range w.Ups {
					for _, d := range defs {
						u.SetFault(d.root(), s)
					}
				}
			}
			_ = w.W.Start()
		}
		insts = append(insts, in)
	}
	// the other watcher: same clusters as "idle" and "busy", a store of its own
	shared := insts[0]
	shared.other = &countStore{Store: newStore(defs), n: map[string]int{}}
	shared.ow = watcher.NewWatcher(shared.w.Configs, gvrs, shared.other)
	_ = shared.ow.Start()

	time.Sleep(300 * time.Millisecond)
	for _, in := range insts {
		if in.state == "busy" {
			atomic.StoreInt32(&in.busy, 1)
			go func(in *inst, g *rand.Rand) {
				for atomic.LoadInt32(&in.busy) == 1 {
					in.w.mutate(g, defs[g.Intn(len(defs))], pick(g, in.w.Clusters), 3)
				}
				close(in.done)
			}(in, rand.New(rand.NewSource(c.Seed+int64(e))))
		}
	}
	time.Sleep(time.Duration(1200+g.Intn(800)) * time.Millisecond)
	for _, in := range insts {
		switch in.state {
		case "closed": // in the pause after a stream ended
			for _, u := range in.w.Ups {
				u.endStreams("", "close")
			}
		case "down":
			for _, u := range in.w.Ups {
				u.Down()
			}
		case "failing": // in the pause after a failed connection
			for _, u := range in.w.Ups {
				for _, d := range defs {
					u.SetFault(d.root(), "status503text")
				}
				u.endStreams("", "abort")
			}
		}
	}
	time.Sleep(time.Duration(100+g.Intn(3800)) * time.Millisecond)
	// stop them all
	var wg sync.WaitGroup
	for _, in := range insts {
		wg.Add(1)
		go func(in *inst) {
			defer wg.Done()
			ret := make(chan struct{})
			go func() {
				_ = in.w.W.Stop()
				if in.state == "twice" {
					_ = in.w.W.Stop()
				}
				close(ret)
			}()
			select {
			case <-ret:
				c.Count("watchers_stopped", 1)
			case <-time.After(45 * time.Second):
				c.Violate("stop-blocks/"+in.state, fmt.Sprintf("stopping a watcher (streams: %s) did not return within 45 s", in.state), stacks())
			}
		}(in)
	}
	wg.Wait()
	if c.Violated() {
		return
	}
	time.Sleep(200 * time.Millisecond)
	// quiet within a bounded time: streams closed
	deadline := time.Now().Add(45 * time.Second)
	for _, in := range insts {
		for {
			n := 0
			for _, u := range in.w.Ups {
				n += u.OpenStreams("")
			}
			want := 0
			if in == shared {
				want = len(defs) * 2
			}
			if n <= want {
				break
			}
			if time.Now().After(deadline) {
				c.Violate("streams/"+in.state, fmt.Sprintf("%d watch streams are still open after the watcher was stopped (streams: %s)", n-want, in.state), nil)
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	if c.Violated() {
		return
	}
	atomic.StoreInt32(&insts[1].busy, 0)
	<-insts[1].done
	snap := map[*inst]string{}
	for _, in := range insts {
		if in.state == "down" {
			for _, u := range in.w.Ups {
				u.Up()
			}
		}
		for _, u := range in.w.Ups {
			for _, d := range defs {
				u.SetFault(d.root(), "")
			}
			in.opened += u.Opened("")
		}
		snap[in] = c10dump(in.w.Store, defs)
	}
	for _, in := range insts {
		for _, d := range defs {
			for _, cl := range in.w.Clusters {
				in.w.mutate(g, d, cl, 3)
			}
		}
	}
	// longer than the longest pause
	for t := 0; t < 18; t++ {
		time.Sleep(time.Second)
		for _, in := range insts {
			for _, cl := range in.w.Clusters {
				in.w.mutate(g, defs[g.Intn(len(defs))], cl, 1)
			}
		}
	}
	for _, in := range insts {
		n := 0
		for _, u := range in.w.Ups {
			n += u.Opened("")
		}
		if in != shared && n != in.opened {
			c.Violate("new-watch/"+in.state, fmt.Sprintf("a stopped watcher opened %d more watches (streams: %s)", n-in.opened, in.state), nil)
		}
		if now := c10dump(in.w.Store, defs); now != snap[in] {
			c.Violate("cache/"+in.state, fmt.Sprintf("the cache of a stopped watcher changed (streams: %s)", in.state), nil)
		}
		c.Count("quiet_observations", 1)
		c.Eval(fmt.Sprintf("%d %s", e, in.state))
	}
	// the other watcher carries on
	ow := &World{Defs: defs, Clusters: shared.w.Clusters, Default: shared.w.Default, Objs: shared.w.Objs, Ups: shared.w.Ups}
	ow.Router, _ = newRouter(shared.w.Clients, shared.other)
	initConfig(defs, shared.w.Default, "")
	var paths [][2]interface{}
	for _, d := range defs {
		for _, cl := range shared.w.Clusters {
			paths = append(paths, [2]interface{}{d, cl})
		}
	}
	if bad := ow.converge(paths, 45*time.Second); bad != nil {
		for k, v := range bad {
			c.Violate("other/"+k, "a watcher on the same clusters stopped following them: "+k+": "+v, nil)
		}
	} else {
		c.Count("other_watcher_paths_converged", int64(len(paths)))
	}
	_ = shared.ow.Stop()
	for t := 0; ; t++ {
		n, one := watcherGoroutines()
		if n == 0 {
			break
		}
		if t > 450 {
			c.Violate("goroutines", fmt.Sprintf("%d goroutines of stopped watchers are left", n), one)
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	for _, in := range insts {
		in.w.W = nil
		in.w.Close()
	}
	c.Sample(states)
}
