package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C31", "exploration", c31)
}

// prompt is how long anything that has nobody to wait for may take. What holds others up stays for longer.
const prompt = 30 * time.Second

// stuck are requests and connections which do not come to an end while others are judged.
type stuck struct {
	cancel []func()
	wg     sync.WaitGroup
	conns  []net.Conn
	begun  int64
}

func (s *stuck) request(base, method, target string, hdr map[string]string, body io.Reader) {
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = append(s.cancel, cancel)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		req, err := http.NewRequestWithContext(ctx, method, base+target, body)
		if err != nil {
			return
		}
		for k, v := range hdr {
			req.Header.Set(k, v)
		}
		tr := &http.Transport{DisableKeepAlives: true}
		atomic.AddInt64(&s.begun, 1)
		resp, err := tr.RoundTrip(req)
		if err == nil {
			_, _ = io.Copy(io.Discard, resp.Body)
			_ = resp.Body.Close()
		}
	}()
}

// raw sends a text and neither reads anything nor closes.
func (s *stuck) raw(addr, text string) {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return
	}
	if t, ok := conn.(*net.TCPConn); ok {
		_ = t.SetReadBuffer(2048)
	}
	s.conns = append(s.conns, conn)
	s.cancel = append(s.cancel, func() { _ = conn.Close() })
	_, _ = io.WriteString(conn, text)
	atomic.AddInt64(&s.begun, 1)
}

func (s *stuck) release() bool {
	for _, f := range s.cancel {
		f()
	}
	return waitTimeout(&s.wg, 60*time.Second)
}

type unbounded struct{ stop <-chan struct{} }

func (u unbounded) Read(p []byte) (int, error) {
	select {
	case <-u.stop:
		return 0, io.EOF
	case <-time.After(200 * time.Millisecond):
		p[0] = ' '
		return 1, nil
	}
}

func c31(c *Ctx) {
	c.Rule("a case is one probe made while hundreds of other requests, watches, clients and clusters are stuck; it must be answered rightly in 30 s, and those which are stuck stay so until all probes were made; distinct by probe and round; all are non-trivial")
	c.Assume("30 s are enough for anything that waits for nobody, and less than what it would wait for; the sandbox runs the hundreds of connections of the workload")
	rounds := c.N(6, 60)
	for r := 0; r < rounds && !c.Stop(); r++ {
		c31round(c, r)
	}
	if !c.Stop() {
		c31daemon(c)
	}
	c.Need("probes", int64(rounds)*40)
	c.Need("stuck_at_once", int64(rounds)*300)
	c.Need("burst_requests", int64(rounds+1)*600)
}

// hangHook never answers what is asked of the cluster until the end.
func hangHook(end <-chan struct{}, got *int64) func(w http.ResponseWriter, r *http.Request, body []byte) bool {
	return func(w http.ResponseWriter, r *http.Request, body []byte) bool {
		atomic.AddInt64(got, 1)
		select {
		case <-end:
		case <-r.Context().Done():
		}
		w.Header().Set("Content-Type", "application/json")
		_, _ = io.WriteString(w, `{"kind":"Late"}`)
		return true
	}
}

func bigHook(u *Upstream) func(w http.ResponseWriter, r *http.Request, body []byte) bool {
	big := `{"kind":"Big","apiVersion":"v1","data":"` + strings.Repeat("x", 8<<20) + `"}`
	return func(w http.ResponseWriter, r *http.Request, body []byte) bool {
		u.mu.Lock()
		u.reqs = nil
		u.mu.Unlock()
		switch {
		case strings.Contains(r.URL.Path, "/big"):
			w.Header().Set("Content-Type", "application/json")
			_, _ = io.WriteString(w, big)
		case isWatch(r) && strings.Contains(r.URL.Path, "/idle"):
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(200)
			w.(http.Flusher).Flush()
			<-r.Context().Done()
		case isWatch(r) && strings.Contains(r.URL.Path, "/flood"):
			w.Header().Set("Content-Type", "application/json")
			line := `{"type":"ADDED","object":{"kind":"X","data":"` + strings.Repeat("y", 60000) + `"}}` + "\n"
			for r.Context().Err() == nil {
				if _, err := io.WriteString(w, line); err != nil {
					break
				}
				w.(http.Flusher).Flush()
			}
		default:
			return false
		}
		return true
	}
}

func c31round(c *Ctx, r int) {
	g := c.Rand(int64(50 + r))
	defs := []*gvrDef{defPods, defSvcs, defWidgets}
	clusters := []string{"c1", "c2", "hang", "sick"}
	w := NewWorld(defs, clusters, "c1", "")
	end := make(chan struct{})
	var ended sync.Once
	finish := func() { ended.Do(func() { close(end) }) }
	defer w.Close()
	defer finish()
	w.StartWatcher()
	if !w.SyncStreams() {
		c.Violate("start", "the watches are not open", nil)
		return
	}
	for _, d := range defs { // much to list
		for i := 0; i < 120; i++ {
			o := genObj(g, d, "c1", pick(g, nsNames), fmt.Sprintf("n%d", i))
			if d == defWidgets {
				o.Raw["ballast"] = longUnique(i, 60000)
				o = finishObj(d, "c1", o.NS, o.Name, o.Raw)
			}
			w.Put(o)
		}
	}
	w.genPopulation(g, 5)
	if !w.Sync() {
		c.Violate("start", "the cache is not filled", nil)
		return
	}
	var hung int64
	w.Ups["hang"].Hook = hangHook(end, &hung)
	w.Ups["c1"].Hook, w.Ups["c2"].Hook = bigHook(w.Ups["c1"]), bigHook(w.Ups["c2"])
	// the watcher of one cluster is stuck as well
	for _, d := range defs {
		w.Ups["sick"].SetFault(d.root(), "hang")
	}
	w.Ups["sick"].endStreams("", "abort")
	hs := startServer(w.Router)
	defer hs.Close()
	defer hs.CloseClientConnections()
	addr := strings.TrimPrefix(hs.URL, "http://")
	s := &stuck{}
	for i := 0; i < 160; i++ { // requests to a cluster that does not answer
		m := []string{"GET", "POST", "PUT", "DELETE", "PATCH"}[i%5]
		hdr := map[string]string{"Content-Type": "application/json"}
		s.request(hs.URL, m, fmt.Sprintf("/api/v1/namespaces/a/configmaps/x%d?cluster=hang", i), hdr, bytes.NewReader([]byte(`{"a":1}`)))
		if i%4 == 0 {
			s.request(hs.URL, "GET", fmt.Sprintf("/api/v1/namespaces/a/pods?watch=true&cluster=hang&x=%d", i), nil, nil)
		}
	}
	for i := 0; i < 60; i++ { // watches without events, and those nobody reads
		cl := []string{"c1", "c2"}[i%2]
		s.request(hs.URL, "GET", "/api/v1/idle?watch=true&cluster="+cl, nil, nil)
		if i < 16 {
			s.raw(addr, "GET /api/v1/flood?watch=true&cluster="+cl+" HTTP/1.1\r\nHost: x\r\n\r\n")
		}
	}
	for i := 0; i < 40; i++ { // clients that do not read what they asked for, nor send what they announced
		s.raw(addr, "GET "+defWidgets.root()+" HTTP/1.1\r\nHost: x\r\n\r\n")
		s.raw(addr, "GET "+defWidgets.root()+" HTTP/1.1\r\nHost: x\r\nAccept: application/json;as=Table\r\n\r\n")
		if i < 12 {
			s.raw(addr, "GET /api/v1/big?cluster=c2 HTTP/1.1\r\nHost: x\r\n\r\n")
		}
		s.raw(addr, "POST /api/v1/namespaces/a/configmaps HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n{")
		s.raw(addr, "DELETE /api/v1/namespaces/a/pods/x HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n{")
		s.raw(addr, "GET /api/v1/pods HTTP/1.1\r\nHost:")
		s.request(hs.URL, "PUT", "/api/v1/namespaces/a/configmaps/y", nil, unbounded{end})
	}
	for limit := time.Now().Add(20 * time.Second); atomic.LoadInt64(&hung) < 150 && time.Now().Before(limit); {
		time.Sleep(10 * time.Millisecond)
	}
	c.Count("stuck_at_once", atomic.LoadInt64(&s.begun))
	c.Count("hanging_in_cluster", atomic.LoadInt64(&hung))
	tr := &http.Transport{MaxIdleConnsPerHost: 100}
	defer tr.CloseIdleConnections()
	ask := func(method, target string, body []byte) *Resp {
		ctx, cancel := context.WithTimeout(context.Background(), prompt)
		defer cancel()
		req, err := http.NewRequestWithContext(ctx, method, hs.URL+target, bytes.NewReader(body))
		if err != nil {
			return &Resp{Aborted: err.Error()}
		}
		req.Header.Set("Content-Type", "application/json")
		resp, err := tr.RoundTrip(req)
		if err != nil {
			return &Resp{Aborted: err.Error()}
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return &Resp{Aborted: err.Error()}
		}
		return &Resp{Status: resp.StatusCode, Header: resp.Header, Body: b}
	}
	var slowest int64
	probe := func(kind, what string, f func() string) {
		t := time.Now()
		if msg := f(); msg != "" {
			c.Violate(kind, fmt.Sprintf("while others are stuck, %s: %s (after %s)", what, msg, time.Since(t).Round(time.Millisecond)), stacks())
		}
		for d := int64(time.Since(t)); ; {
			o := atomic.LoadInt64(&slowest)
			if d <= o || atomic.CompareAndSwapInt64(&slowest, o, d) {
				break
			}
		}
		c.Count("probes", 1)
		c.Eval(fmt.Sprintf("%d %s %s", r, kind, what))
	}
	status := func(resp *Resp, want int) string {
		if resp.Status != want {
			return fmt.Sprintf("status %d %s %s", resp.Status, trunc(resp.Body), resp.Aborted)
		}
		return ""
	}
	selected := func(d *gvrDef, cl string) string {
		p := page.Paginate{}
		if err := p.Clusters([]string{cl}); err != nil {
			panic(refused(err.Error()))
		}
		o, err := page.QueryListOptions(metav1.ListOptions{}, p)
		if err != nil {
			panic(refused(err.Error()))
		}
		return d.root() + "?labelSelector=" + url.QueryEscape(o.LabelSelector)
	}
	cachedProbes := func() {
		var wg sync.WaitGroup
		for _, d := range defs {
			for _, cl := range clusters {
				wg.Add(1)
				go func(d *gvrDef, cl string) {
					defer wg.Done()
					probe("cached", "a list of "+d.R+" of "+cl, func() string {
						l, err := parseList(ask("GET", selected(d, cl), nil))
						if err != nil {
							return err.Error()
						}
						if n := len(w.truth(d, cl)); len(l.Items) != n {
							return fmt.Sprintf("%d instead of %d items", len(l.Items), n)
						}
						return ""
					})
					probe("cached", "a read of "+d.R+" of "+cl, func() string {
						return status(ask("GET", d.path("default")+"/absent?resourceVersion="+marker+cl, nil), 404)
					})
				}(d, cl)
			}
		}
		for _, t := range []string{"/metrics", "/healthy", "/custom/v1/clusters/c1/namespaces/default/deployments/app/services"} {
			wg.Add(1)
			go func(t string) {
				defer wg.Done()
				probe("open", "GET "+t, func() string { return status(ask("GET", t, nil), 200) })
			}(t)
		}
		wg.Wait()
	}
	cachedProbes()
	for _, cl := range []string{"c1", "c2"} {
		for _, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE"} {
			probe("forward", m+" to "+cl, func() string {
				return status(ask(m, "/api/v1/namespaces/a/configmaps/x?cluster="+cl, []byte(`{"a":1}`)), 200)
			})
		}
	}
	// many requests to one cluster, more than a client may send in a row
	probe("burst", "600 requests to one cluster", func() string {
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		limit := time.Now().Add(prompt)
		for i := 0; i < 50; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < 12; j++ {
					resp := ask([]string{"GET", "PUT"}[j%2], fmt.Sprintf("/api/v1/namespaces/a/configmaps/b%d-%d?cluster=c2", i, j), []byte(`{}`))
					c.Count("burst_requests", 1)
					if m := status(resp, 200); m != "" || time.Now().After(limit) {
						mu.Lock()
						bad = fmt.Sprintf("the %dth of a client is not answered: %s", j, m)
						mu.Unlock()
						return
					}
				}
			}(i)
		}
		wg.Wait()
		return bad
	})
	probe("watch", "a new watch", func() string {
		ctx, cancel := context.WithTimeout(context.Background(), prompt)
		defer cancel()
		req, _ := http.NewRequestWithContext(ctx, "GET", hs.URL+defPods.root()+"?watch=true&cluster=c1", nil)
		resp, err := tr.RoundTrip(req)
		if err != nil {
			return err.Error()
		}
		defer resp.Body.Close()
		if l, err := bufio.NewReaderSize(resp.Body, 1<<20).ReadString('\n'); err != nil || !strings.Contains(l, "ADDED") {
			return fmt.Sprintf("first line %q %v", trunc([]byte(l)), err)
		}
		return ""
	})
	updates := func(kind string) {
		for _, cl := range []string{"c1", "c2"} {
			for _, d := range defs {
				w.lockedPut(g, d, cl, "default", "fresh"+kind)
				probe(kind, "an update of "+d.R+" on "+cl, func() string {
					for limit := time.Now().Add(prompt); ; time.Sleep(5 * time.Millisecond) {
						got, err := w.served(d, cl)
						msg := mapDiff(got, w.truth(d, cl))
						if err == nil && msg == "" {
							return ""
						}
						if time.Now().After(limit) {
							return fmt.Sprintf("the cache lacks it: %s %v", msg, err)
						}
					}
				})
			}
		}
	}
	updates("update")
	// everything is switched
	nw, ns, nc := newPair(defs, w)
	swapped := make(chan struct{})
	go func() {
		_ = w.W.Stop()
		_ = nw.Start()
		w.Server.ResetStore(ns, nc)
		close(swapped)
	}()
	probe("switch", "stopping the watcher and switching cache and clients", func() string {
		select {
		case <-swapped:
			return ""
		case <-time.After(prompt):
			return "not done"
		}
	})
	select {
	case <-swapped:
		w.W = nw
		updates("switched")
		probe("forward", "GET after the switch", func() string {
			return status(ask("GET", "/api/v1/namespaces/a/configmaps/x?cluster=c2", nil), 200)
		})
	default:
	}
	c.Sample(map[string]interface{}{"round": r, "stuck": atomic.LoadInt64(&s.begun), "hanging": atomic.LoadInt64(&hung), "slowest_probe_ms": slowest / 1e6})
	finish()
	if !s.release() {
		c.Violate("release", "requests which were stuck do not end", stacks())
	}
}

// c31daemon sends the daemon, with its own client configuration, more requests than clients of API servers usually may.
func c31daemon(c *Ctx) {
	g := c.Rand(3)
	w := newDWorld(c, g, "busy", "rename")
	defer w.close()
	w.ctxs, w.cur, w.defs = []string{"c1", "prod-2", "extra"}, "c1", w.all[:3]
	if !w.start(true) || !w.settle("start") {
		return
	}
	end := make(chan struct{})
	var hung int64
	w.ups["extra"].mu.Lock()
	w.ups["extra"].Hook = hangHook(end, &hung)
	w.ups["extra"].mu.Unlock()
	s := &stuck{}
	for i := 0; i < 130; i++ {
		s.request("http://"+w.d.Addr, "GET", fmt.Sprintf("/api/v1/secrets/%d?cluster=extra", i), nil, nil)
	}
	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cli := &http.Client{Timeout: prompt}
			for j := 0; j < 12; j++ {
				resp, err := cli.Get(fmt.Sprintf("http://%s/api/v1/namespaces/a/secrets/b%d-%d?cluster=prod-2", w.d.Addr, i, j))
				if err == nil {
					_, err = io.Copy(io.Discard, resp.Body)
					_ = resp.Body.Close()
					if err == nil && resp.StatusCode != 200 {
						err = fmt.Errorf("status %d", resp.StatusCode)
					}
				}
				c.Count("burst_requests", 1)
				if err != nil {
					c.Violate("burst-daemon", fmt.Sprintf("the %dth request of one of 50 clients: %v", j, err), nil)
					return
				}
			}
		}(i)
	}
	t := time.Now()
	wg.Wait()
	if d := time.Since(t); d > prompt {
		c.Violate("burst-daemon", fmt.Sprintf("600 requests to one cluster took %s", d), nil)
	}
	c.Count("probes", 1)
	c.Eval("daemon burst")
	// a reload does not wait for the requests that are stuck
	w.limit = prompt
	n := w.d.reloads("success")
	w.defs = w.all[1:4]
	_ = w.change(w.confPath(), w.conf())
	if w.awaitReload("success", n) {
		c.Count("probes", 1)
		c.Eval("daemon reload")
	}
	close(end)
	if !s.release() {
		c.Violate("release", "requests which were stuck in the daemon do not end", nil)
	}
	w.ups["extra"].mu.Lock()
	w.ups["extra"].Hook = nil
	w.ups["extra"].mu.Unlock()
	w.settle("reload")
}
