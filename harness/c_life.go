package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/dynamic"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
	"github.com/DaoCloud/ckube/server"
)

func init() {
	register("C32", "exploration", c32)
}

// stopLimit is how long stopping may take, and what belongs to a stopped server may stay.
const stopLimit = 30 * time.Second

func c32(c *Ctx) {
	c.Rule("a case is one life of a server: started, used in one way, stopped at one moment, and looked at afterwards; distinct by kind of server, use and moment; all are non-trivial")
	c.Assume("30 s are enough to stop; requests which end within a second may be finished")
	quietLogs()
	for i := 0; i < c.N(24, 200) && !c.Stop(); i++ {
		c32server(c, i)
	}
	for i := 0; i < c.N(30, 300) && !c.Stop(); i++ {
		c32early(c, i)
	}
	for i := 0; i < c.N(10, 80) && !c.Stop(); i++ {
		c32fake(c, i)
	}
	c32growth(c)
	c.Need("lives", 60)
	c.Need("watches_ended", 60)
	c.Need("requests_finished", 20)
	c.Need("taken_addresses", 10)
}

// freeAgain tells what is wrong with the address of a stopped server.
func freeAgain(addr string) string {
	if conn, err := net.DialTimeout("tcp", addr, 5*time.Second); err == nil {
		_ = conn.Close()
		return "connections are still accepted"
	}
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return "the address is not free: " + err.Error()
	}
	_ = ln.Close()
	return ""
}

func up(addr string) bool {
	for end := time.Now().Add(stopLimit); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if conn, err := net.Dial("tcp", addr); err == nil {
			_ = conn.Close()
			return true
		}
	}
	return false
}

// within runs f and tells whether it returned in time.
func within(f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(stopLimit):
		return false
	}
}

func c32server(c *Ctx, i int) {
	g := c.Rand(int64(i))
	defs := []*gvrDef{defPods, defWidgets}
	w := NewWorld(defs, []string{"c1"}, "c1", "")
	defer w.Close()
	end := make(chan struct{})
	var ended sync.Once
	finish := func() { ended.Do(func() { close(end) }) }
	defer finish()
	var arrived int64
	u := w.Ups["c1"]
	u.Hook = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
		switch {
		case strings.Contains(r.URL.Path, "/hang/"):
			select {
			case <-end:
			case <-r.Context().Done():
			}
		case strings.Contains(r.URL.Path, "/soon/"):
			atomic.AddInt64(&arrived, 1)
			time.Sleep(700 * time.Millisecond)
			rw.Header().Set("Content-Type", "application/json")
			_, _ = io.WriteString(rw, `{"kind":"Soon"}`)
		case isWatch(r):
			rw.Header().Set("Content-Type", "application/json")
			_, _ = io.WriteString(rw, `{"type":"ADDED","object":{}}`+"\n")
			rw.(http.Flusher).Flush()
			<-r.Context().Done()
		default:
			return false
		}
		return true
	}
	w.genPopulation(g, 4)
	before := runtime.NumGoroutine()
	addr := freeAddr()
	var ln net.Listener
	if i%4 == 3 { // somebody else is there
		var err error
		if ln, err = net.Listen("tcp", addr); err != nil {
			c.Inconclusive(err.Error())
			return
		}
	}
	ser := server.NewMuxServer(addr, w.Clients, w.Store)
	ran := make(chan error, 1)
	go func() { ran <- ser.Run() }()
	if ln != nil {
		c.Count("taken_addresses", 1)
		select {
		case err := <-ran:
			if err == nil {
				c.Violate("taken", "a server whose address is taken ended without an error", nil)
			}
		case <-time.After(stopLimit):
			c.Violate("taken", "a server whose address is taken does not end", stacks())
		}
		_ = ln.Close()
		if !within(func() { _ = ser.Stop() }) {
			c.Violate("stop", "stopping a server which could not start does not return", stacks())
		}
		c.Count("lives", 1)
		c.Eval("server taken address")
		return
	}
	if !up(addr) {
		c.Violate("start", "the server can not be reached", stacks())
		return
	}
	base := "http://" + addr
	use := []string{"idle", "watches", "soon", "stuck", "slow", "all"}[(i-i/4)%6]
	tr := &http.Transport{MaxIdleConnsPerHost: 20}
	defer tr.CloseIdleConnections()
	s := &stuck{}
	var soon, watches sync.WaitGroup
	var opened int64
	var nsoon, nwatch int
	if use == "idle" || use == "all" {
		for k := 0; k < 5; k++ {
			if resp, err := (&http.Client{Transport: tr}).Get(base + "/metrics"); err == nil {
				_, _ = io.Copy(io.Discard, resp.Body)
				_ = resp.Body.Close()
			}
		}
	}
	if use == "watches" || use == "all" {
		nwatch = 8
		for k := 0; k < nwatch; k++ {
			watches.Add(1)
			go func(k int) {
				defer watches.Done()
				resp, err := (&http.Transport{}).RoundTrip(newGet(base + "/api/v1/watch/secrets?watch=true"))
				if err != nil {
					atomic.AddInt64(&opened, 1)
					return
				}
				defer resp.Body.Close()
				_, _ = bufio.NewReader(resp.Body).ReadString('\n')
				atomic.AddInt64(&opened, 1)
				_, _ = io.Copy(io.Discard, resp.Body)
				c.Count("watches_ended", 1)
			}(k)
		}
	}
	if use == "stuck" || use == "all" {
		for k := 0; k < 6; k++ {
			s.request(base, []string{"GET", "POST"}[k%2], fmt.Sprintf("/api/v1/hang/x%d", k), nil, bytes.NewReader([]byte("{}")))
		}
	}
	if use == "slow" || use == "all" {
		for k := 0; k < 4; k++ {
			s.raw(addr, "POST /api/v1/namespaces/a/configmaps HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n{")
			s.raw(addr, "GET /api/v1/pods HTTP/1.1\r\nHost:")
		}
	}
	for limit := time.Now().Add(20 * time.Second); int(atomic.LoadInt64(&opened)) < nwatch && time.Now().Before(limit); {
		time.Sleep(2 * time.Millisecond)
	}
	if use == "soon" || use == "all" {
		nsoon = 6
		for k := 0; k < nsoon; k++ {
			soon.Add(1)
			go func(k int) {
				defer soon.Done()
				resp, err := (&http.Transport{DisableKeepAlives: true}).RoundTrip(newGet(fmt.Sprintf("%s/api/v1/soon/x%d", base, k)))
				msg := ""
				if err != nil {
					msg = err.Error()
				} else {
					b, err := io.ReadAll(resp.Body)
					_ = resp.Body.Close()
					if err != nil || resp.StatusCode != 200 || string(b) != `{"kind":"Soon"}` {
						msg = fmt.Sprintf("%d %s %v", resp.StatusCode, trunc(b), err)
					}
				}
				if msg != "" {
					c.Violate("unfinished", "a request which was on its way when the server was stopped, and ends within a second, is not answered: "+msg, nil)
				}
				c.Count("requests_finished", 1)
			}(k)
		}
		for limit := time.Now().Add(20 * time.Second); int(atomic.LoadInt64(&arrived)) < nsoon && time.Now().Before(limit); {
			time.Sleep(2 * time.Millisecond)
		}
	} else {
		time.Sleep(time.Duration(g.Intn(50)) * time.Millisecond)
	}
	var serr error
	t := time.Now()
	if !within(func() { serr = ser.Stop() }) {
		c.Violate("stop", "Stop does not return, used by "+use, stacks())
		return
	}
	took := time.Since(t)
	select {
	case err := <-ran:
		if err == nil {
			c.Violate("run", "Run returned no error, so nobody knows that the server has ended", nil)
		}
	case <-time.After(stopLimit):
		c.Violate("run", "Run does not return after Stop", stacks())
	}
	if msg := freeAgain(addr); msg != "" {
		c.Violate("address", "after Stop, used by "+use+": "+msg, nil)
	}
	if !waitTimeout(&soon, stopLimit) {
		c.Violate("unfinished", "requests are neither answered nor ended after Stop", stacks())
	}
	if !waitTimeout(&watches, stopLimit) {
		c.Violate("watches", "watches do not end after Stop", stacks())
	}
	// who still is connected learns that nobody is there
	if !waitTimeout(&s.wg, stopLimit) {
		c.Violate("connections", "requests without answer do not end after Stop, used by "+use, stacks())
	}
	for _, conn := range s.conns {
		_ = conn.SetReadDeadline(time.Now().Add(stopLimit))
		if _, err := io.Copy(io.Discard, conn); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				c.Violate("connections", "a connection stays open after Stop, used by "+use, stacks())
			}
		}
	}
	finish()
	s.release()
	if !within(func() { _ = ser.Stop() }) {
		c.Violate("stop", "the second Stop does not return", stacks())
	}
	tr.CloseIdleConnections()
	left := 0
	for end := time.Now().Add(stopLimit); ; time.Sleep(20 * time.Millisecond) {
		if left = strings.Count(stacksAll(), repoPkg+"server"); left == 0 || time.Now().After(end) {
			break
		}
	}
	if left > 0 {
		c.Violate("goroutines", fmt.Sprintf("goroutines of the server are left after Stop, used by %s (%d before, %d now)", use, before, runtime.NumGoroutine()), stacks())
	}
	c.Count("lives", 1)
	c.Eval("server " + use)
	c.Sample(fmt.Sprintf("used by %s: stopped in %s (%v)", use, took.Round(time.Millisecond), serr))
}

func stacksAll() string {
	b := make([]byte, 4<<20)
	return string(b[:runtime.Stack(b, true)])
}

func newGet(u string) *http.Request {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		panic(err)
	}
	return r
}

// c32early stops servers around the moment they start.
func c32early(c *Ctx, i int) {
	g := c.Rand(int64(1000 + i))
	defs := []*gvrDef{defPods}
	w := NewWorld(defs, []string{"c1"}, "c1", "")
	defer w.Close()
	addr := freeAddr()
	ser := server.NewMuxServer(addr, w.Clients, w.Store)
	if i%5 == 0 { // before
		if !within(func() { _ = ser.Stop() }) {
			c.Violate("early", "Stop of a server which never ran does not return", stacks())
		}
	}
	ran := make(chan struct{})
	go func() { _ = ser.Run(); close(ran) }()
	time.Sleep(time.Duration(g.Intn(3)*g.Intn(400)) * time.Microsecond)
	var err error
	if !within(func() { err = ser.Stop() }) {
		c.Violate("early", "Stop does not return", stacks())
		return
	}
	what := "not yet running"
	if err == nil { // it says the server has been stopped
		what = "running"
		select {
		case <-ran:
		case <-time.After(stopLimit):
			c.Violate("early", "Stop reported success, but Run goes on", stacks())
		}
	} else {
		if !up(addr) {
			c.Violate("early", fmt.Sprintf("Stop failed (%v), and nobody is there", err), stacks())
		}
		if !within(func() { err = ser.Stop() }) || err != nil {
			c.Violate("early", fmt.Sprintf("Stop of an idle server: %v", err), nil)
		}
		select {
		case <-ran:
		case <-time.After(stopLimit):
			c.Violate("early", "Run goes on after the second Stop", stacks())
		}
	}
	if msg := freeAgain(addr); msg != "" {
		c.Violate("early", msg, nil)
	}
	c.Count("lives", 1)
	c.Eval("early, " + what)
}

func fakeConf(defs []*gvrDef) string {
	var ps []interface{}
	for _, d := range defs {
		ps = append(ps, map[string]interface{}{"group": d.G, "version": d.V, "resource": d.R, "list_kind": d.listKind(), "index": d.indexConf()})
	}
	conf, _ := json.Marshal(map[string]interface{}{"proxies": ps, "default_cluster": "c1", "token": ""})
	return string(conf)
}

func c32fake(c *Ctx, i int) {
	defs := []*gvrDef{defPods, defWidgets}
	addr := freeAddr()
	ctx := context.Background()
	gvr := schema.GroupVersionResource{Group: defWidgets.G, Version: defWidgets.V, Resource: defWidgets.R}
	for life := 0; life < 2; life++ {
		fs, err := fake.NewFakeCKubeServer(addr, fakeConf(defs))
		if err != nil {
			c.Violate("fake-start", fmt.Sprintf("life %d: %v", life, err), nil)
			return
		}
		dyn, err := dynamic.NewForConfig(fs.GetKubeConfig())
		if err != nil {
			panic(err)
		}
		l, err := dyn.Resource(gvr).Namespace("a").List(ctx, metav1.ListOptions{})
		if err != nil || len(l.Items) != 0 {
			c.Violate("fake-empty", fmt.Sprintf("life %d of the server does not begin empty: %v %v", life, l, err), nil)
			fs.Stop()
			return
		}
		o := genObj(c.Rand(int64(i)), defWidgets, "c1", "a", "x")
		x := decoded(defWidgets, o.Bytes)
		body, _ := json.Marshal(x)
		opts, _ := page.QueryCreateOptions(metav1.CreateOptions{}, "c1")
		if resp, err := http.Post(fmt.Sprintf("http://%s%s?fieldManager=%s", addr, defWidgets.path("a"), opts.FieldManager), "application/json", bytes.NewReader(body)); err != nil || resp.StatusCode != 200 {
			c.Violate("fake-create", fmt.Sprintf("%v %v", resp, err), nil)
		} else {
			_ = resp.Body.Close()
		}
		if life == 0 { // a second one at the same address
			if i%2 == 0 {
				other, err := fake.NewFakeCKubeServer(addr, fakeConf(defs))
				c.Count("taken_addresses", 1)
				if err == nil {
					c.Violate("fake-taken", "a fake server is created at an address which another one has", nil)
					other.Stop()
				}
				if l, err := dyn.Resource(gvr).Namespace("a").List(ctx, metav1.ListOptions{}); err != nil || len(l.Items) != 1 {
					c.Violate("fake-taken", fmt.Sprintf("the server is disturbed by another one which was started at its address: %v", err), nil)
				}
			}
		}
		var wg sync.WaitGroup
		for k := 0; k < i%3*4; k++ {
			wi, err := dyn.Resource(gvr).Watch(ctx, metav1.ListOptions{})
			if err != nil {
				c.Violate("fake-watch", err.Error(), nil)
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range wi.ResultChan() {
				}
				c.Count("watches_ended", 1)
			}()
		}
		t := time.Now()
		if !within(fs.Stop) {
			c.Violate("fake-stop", "Stop does not return", stacks())
			return
		}
		if msg := freeAgain(addr); msg != "" {
			c.Violate("fake-address", "after Stop: "+msg, nil)
		}
		if !waitTimeout(&wg, stopLimit) {
			c.Violate("fake-watches", "watches do not end after Stop", stacks())
		}
		if !within(fs.Stop) {
			c.Violate("fake-stop", "the second Stop does not return", stacks())
		}
		c.Count("lives", 1)
		c.Eval(fmt.Sprintf("fake life %d watches %v", life, i%3 > 0))
		c.Sample(fmt.Sprintf("fake with %d watches stopped in %s", i%3*4, time.Since(t).Round(time.Millisecond)))
	}
}

// c32growth compares what is there after some and after many lives of fake servers.
func c32growth(c *Ctx) {
	lives := func(n int) {
		for i := 0; i < n; i++ {
			fs, err := fake.NewFakeCKubeServer(freeAddr(), fakeConf([]*gvrDef{defPods}))
			if err != nil {
				c.Violate("fake-start", err.Error(), nil)
				return
			}
			fs.Stop()
			c.Count("lives", 1)
		}
	}
	lives(3)
	base := quiet(measure(), 0)
	n := c.N(20, 100)
	lives(n)
	u := quiet(base, 3)
	c.Eval("fake growth")
	if u.goroutines > base.goroutines+int64(n)/2 || u.fds > base.fds+int64(n)/2 {
		c.Violate("fake-growth", fmt.Sprintf("after %d fake servers were started and stopped: %+v, before %+v", n, u, base), allStacks())
	}
}
