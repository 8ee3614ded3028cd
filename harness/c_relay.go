package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C19", "exploration", c19)
}

// relay is one watch through the proxy: what the cluster sends and what the client saw.
type relay struct {
	id      string
	cluster string
	target  string
	path    string
	query   url.Values // expected at the cluster
	lines   [][]byte   // each with its newline, except perhaps the last
	lock    bool       // the cluster waits for the client to have line k before completing line k+1
	end     string     // close, abort, gone (the client goes away), status
	goneAt  int        // line after which the client goes away
	goneMid bool       // with half a line under way
	ctype   string     // of the cluster's answer
	status  int
	sbody   []byte
	idle    time.Duration // before the last line

	hdrWait bool // the cluster sends nothing before the client has the answer to the request

	acks     chan int
	accepted chan struct{}
	started  chan struct{}
	released chan struct{}
	fin      chan struct{} // the client is done
	mu       sync.Mutex
	seen     []RecReq
	on       []string
	stuck    string
}

func genLine(g *rand.Rand) []byte {
	var b []byte
	switch g.Intn(12) {
	case 0:
		b = nil // an empty line
	case 1:
		b = []byte("\r")
	case 2:
		b = make([]byte, 1+g.Intn(3000))
		for i := range b {
			b[i] = byte(g.Intn(256))
			if b[i] == '\n' {
				b[i] = 0
			}
		}
	case 3:
		b = bytes.Repeat([]byte("0123456789abcdef"), 1<<12+g.Intn(1<<10))
	case 4:
		if g.Intn(6) == 0 {
			b = bytes.Repeat([]byte("x"), 1<<20+g.Intn(1000))
			break
		}
		b = []byte(`{"type":"BOOKMARK","object":{}}`)
	default:
		b = []byte(fmt.Sprintf(`{"type":%q,"object":{"metadata":{"name":"n%d"},"x":"%s<&>é"}}`, pick(g, []string{"ADDED", "MODIFIED", "DELETED", "ERROR"}), g.Int(), strings.Repeat("y", g.Intn(300))))
	}
	return append(b, '\n')
}

func (r *relay) hook(w http.ResponseWriter, req *http.Request, cluster string, g *rand.Rand) {
	r.mu.Lock()
	r.seen = append(r.seen, RecReq{Method: req.Method, Path: req.URL.Path, RawQuery: req.URL.RawQuery, Query: req.URL.Query()})
	r.on = append(r.on, cluster)
	n := len(r.seen)
	r.mu.Unlock()
	if n > 1 {
		return
	}
	defer close(r.released)
	w.Header().Set("Content-Type", r.ctype)
	fl := w.(http.Flusher)
	if r.end == "status" {
		w.WriteHeader(r.status)
		_, _ = w.Write(r.sbody)
		return
	}
	w.WriteHeader(200)
	fl.Flush()
	close(r.started)
	if r.hdrWait {
		select {
		case <-r.accepted:
		case <-req.Context().Done():
		case <-time.After(30 * time.Second):
			r.mu.Lock()
			r.stuck = "the cluster accepted the watch and the client was not told within 30 s"
			r.mu.Unlock()
		}
	}
	got := -1
	wait := func(k int) bool { // until the client has line k
		t := time.NewTimer(30 * time.Second)
		defer t.Stop()
		for got < k {
			select {
			case got = <-r.acks:
			case <-r.fin:
				return false
			case <-req.Context().Done():
				return false
			case <-t.C:
				r.mu.Lock()
				r.stuck = fmt.Sprintf("line %d of %d was not delivered within 30 s although it was complete", k, len(r.lines))
				r.mu.Unlock()
				return false
			}
		}
		return true
	}
	head := 0 // bytes of the current line already sent
	for k, l := range r.lines {
		if r.idle > 0 && k == len(r.lines)-1 {
			select {
			case <-time.After(r.idle):
			case <-req.Context().Done():
			}
		}
		rest := l[head:]
		head = 0
		for len(rest) > 0 {
			n := len(rest)
			if g.Intn(3) == 0 {
				n = 1 + g.Intn(n)
			}
			if _, err := w.Write(rest[:n]); err != nil {
				break
			}
			rest = rest[n:]
			if g.Intn(2) == 0 {
				fl.Flush()
			}
		}
		if k+1 < len(r.lines) && g.Intn(3) > 0 { // the beginning of the next line comes along
			head = g.Intn(len(r.lines[k+1]))
			_, _ = w.Write(r.lines[k+1][:head])
		}
		if r.lock || g.Intn(2) == 0 {
			fl.Flush()
		}
		if r.end == "gone" && k == r.goneAt {
			break
		}
		if r.lock && l[len(l)-1] == '\n' && !wait(k) {
			break
		}
	}
	fl.Flush()
	switch r.end {
	case "gone":
		if r.goneMid {
			_, _ = io.WriteString(w, `{"type":"ADDED","obj`)
			fl.Flush()
		}
		<-req.Context().Done() // no further event arrives
	case "abort":
		if r.lock {
			time.Sleep(20 * time.Millisecond)
		}
		panic(http.ErrAbortHandler)
	}
}

// run is the client's side; it returns what is wrong.
func (r *relay) run(cli *http.Client, base string, g *rand.Rand) (string, string) {
	defer close(r.fin)
	limit := 120*time.Second + r.idle
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, "GET", base+r.target, nil)
	if err != nil {
		return "request", err.Error()
	}
	goneBeforeAnswer := r.end == "gone" && r.goneAt < 0
	if goneBeforeAnswer { // the client goes away without having seen an event
		go func() {
			select {
			case <-r.started:
			case <-ctx.Done():
			}
			time.Sleep(time.Duration(g.Intn(30)) * time.Millisecond)
			cancel()
		}()
	}
	resp, err := cli.Do(req)
	if err != nil {
		if goneBeforeAnswer {
			return r.afterGone()
		}
		return "failed", "the watch failed: " + err.Error()
	}
	defer resp.Body.Close()
	if r.end == "status" {
		b, _ := io.ReadAll(resp.Body)
		if resp.StatusCode != r.status {
			return "status", fmt.Sprintf("the cluster refused the watch with %d and the client got %d %s", r.status, resp.StatusCode, trunc(b))
		}
		for _, k := range []string{"message", "reason"} {
			if w := fmt.Sprintf("%q:%q", k, k+"-"+r.id); !strings.Contains(string(b), w) {
				return "status-body", fmt.Sprintf("the cluster's answer %s became %s", r.sbody, trunc(b))
			}
		}
		return r.arrived()
	}
	close(r.accepted)
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		return "failed", fmt.Sprintf("the watch was answered %d %s", resp.StatusCode, trunc(b))
	}
	if ct := resp.Header.Get("Content-Type"); ct != r.ctype {
		return "type", fmt.Sprintf("a stream of type %q came back as %q", r.ctype, ct)
	}
	rd := bufio.NewReader(resp.Body)
	slow := !r.lock && g.Intn(3) == 0
	i := 0
	for {
		line, err := rd.ReadBytes('\n')
		if i < len(r.lines) && (err == nil || r.end == "close" && len(line) > 0) {
			if !bytes.Equal(line, r.lines[i]) {
				if err == nil || len(line) > 0 {
					return "bytes", fmt.Sprintf("line %d of %d differs: sent %d bytes %s, received %d bytes %s", i, len(r.lines), len(r.lines[i]), trunc(r.lines[i]), len(line), trunc(line))
				}
			}
			select {
			case r.acks <- i:
			default:
			}
			i++
			if r.end == "gone" && i == r.goneAt+1 {
				if g.Intn(2) == 0 {
					time.Sleep(time.Duration(g.Intn(20)) * time.Millisecond)
				}
				cancel()
				return r.afterGone()
			}
			if slow && g.Intn(4) == 0 {
				time.Sleep(time.Duration(g.Intn(15)) * time.Millisecond)
			}
			if err == nil {
				continue
			}
		} else if err == nil {
			return "extra", fmt.Sprintf("an extra line %d: %s", i, trunc(line))
		}
		r.mu.Lock()
		stuck := r.stuck
		r.mu.Unlock()
		if stuck != "" {
			return "late", stuck
		}
		if goneBeforeAnswer {
			return r.afterGone()
		}
		if errors.Is(ctx.Err(), context.DeadlineExceeded) {
			return "open", fmt.Sprintf("the watch did not end within %s; %d of %d lines received", limit, i, len(r.lines))
		}
		if r.end == "abort" && !r.lock { // what was under way may be lost with the connection
			return r.arrived()
		}
		if r.end == "abort" && i == len(r.lines)-1 && r.lines[i][len(r.lines[i])-1] != '\n' {
			return r.arrived()
		}
		if i != len(r.lines) {
			return "cut", fmt.Sprintf("the watch ended (%v) after %d of %d lines", err, i, len(r.lines))
		}
		return r.arrived()
	}
}

func (r *relay) afterGone() (string, string) {
	select {
	case <-r.released:
	case <-time.After(30 * time.Second):
		return "held", "the client went away and the watch on the cluster is still open 30 s later"
	}
	return r.arrived()
}

func (r *relay) arrived() (string, string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.seen) != 1 || r.on[0] != r.cluster {
		return "cluster", fmt.Sprintf("a watch of cluster %q was opened on %q", r.cluster, r.on)
	}
	q := url.Values{}
	for k, v := range r.seen[0].Query {
		if k != "timeout" && k != "cluster" {
			q[k] = v
		}
	}
	if r.seen[0].Path != r.path || r.seen[0].Method != "GET" || !reflect.DeepEqual(q, r.query) {
		return "request", fmt.Sprintf("the watch %s %v arrived as %s %s %v", r.path, r.query, r.seen[0].Method, r.seen[0].Path, q)
	}
	return "", ""
}

func genRelay(g *rand.Rand, id string, clusters []string, def string) *relay {
	r := &relay{id: id, cluster: def, acks: make(chan int, 4096), started: make(chan struct{}), accepted: make(chan struct{}), released: make(chan struct{}), fin: make(chan struct{}), query: url.Values{}}
	cached, uncached := proxyDefs()
	d := append(cached, uncached...)[g.Intn(len(cached)+len(uncached))]
	ns := ""
	if d.Namespaced {
		ns = pick(g, []string{"", "default", "watch"})
	}
	q := url.Values{}
	q.Set("fieldSelector", "metadata.name="+id)
	r.ctype = pick(g, []string{"application/json", "application/json;stream=watch"})
	if g.Intn(6) == 0 { // the log of a container as it is written
		r.ctype = "text/plain"
		r.path = "/api/v1/namespaces/" + pick(g, []string{"default", "watch", "log"}) + "/pods/" + pick(g, []string{"p-0", "log", "watch"}) + "/log"
		q = url.Values{"follow": {pick(g, []string{"true", "1", "True", ""})}, pick(g, []string{"container", "sinceTime"}): {id}}
		if g.Intn(2) == 0 {
			q.Set("tailLines", "10")
		}
	} else if g.Intn(4) == 0 {
		base := "/apis/" + d.G + "/" + d.V
		if d.G == "" {
			base = "/api/" + d.V
		}
		r.path = base + "/watch" + strings.TrimPrefix(d.path(ns), base)
	} else {
		r.path = d.path(ns)
		q.Set("watch", pick(g, []string{"1", "true", "True", "y", "", "t"}))
	}
	for k, v := range map[string]string{"limitBytes": "1000", "resourceVersion": "1234", "allowWatchBookmarks": "true", "timeoutSeconds": "300", "sendInitialEvents": "true"} {
		if g.Intn(3) == 0 {
			q.Set(k, v)
		}
	}
	for k, v := range q {
		r.query[k] = v
	}
	switch g.Intn(4) {
	case 0:
		r.cluster = pick(g, clusters)
		q.Set("cluster", r.cluster)
	case 1:
		r.cluster = pick(g, clusters)
		pg := page.Paginate{}
		if err := pg.Clusters([]string{r.cluster}); err != nil {
			panic(err)
		}
		o, err := page.QueryListOptions(metav1.ListOptions{}, pg)
		if err != nil {
			panic(err)
		}
		q.Set("labelSelector", o.LabelSelector)
	case 2:
		q.Set("labelSelector", "a=b")
		r.query.Set("labelSelector", "a=b")
	}
	r.target = r.path + "?" + q.Encode()
	n := g.Intn(25)
	for i := 0; i < n; i++ {
		r.lines = append(r.lines, genLine(g))
	}
	r.lock = g.Intn(3) > 0
	r.hdrWait = g.Intn(2) == 0
	switch g.Intn(8) {
	case 0, 1, 2:
		r.end = "close"
	case 3:
		r.end = "abort"
	case 4:
		r.end = "status"
		r.status = []int{400, 401, 403, 404, 410, 429, 500, 503}[g.Intn(8)]
		r.sbody = []byte(fmt.Sprintf(`{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"message-%s","reason":"reason-%s","code":%d}`, id, id, r.status))
	default:
		r.end = "gone"
		r.lock = true
		r.goneAt = n - 1
		if n > 0 {
			r.goneAt = g.Intn(n+1) - 1
		}
		r.goneMid = g.Intn(2) == 0
		if r.goneAt < 0 { // nothing but perhaps half a line was sent
			r.lines = nil
		}
	}
	if (r.end == "close" || r.end == "abort") && g.Intn(3) == 0 {
		r.lines = append(r.lines, []byte(`{"type":"ADDED","object":{`))
	}
	r.hdrWait = r.hdrWait && r.end != "status" && !(r.end == "gone" && r.goneAt < 0)
	return r
}

func (r *relay) wit() map[string]interface{} {
	return map[string]interface{}{"target": r.target, "cluster": r.cluster, "lines": len(r.lines), "end": r.end, "lockstep": r.lock, "leaves_after_line": r.goneAt, "half_a_line_pending": r.goneMid}
}

func c19(c *Ctx) {
	c.Rule("a case is one watch through the proxy with a script of lines and an end; every received line is compared with the one sent, its delivery with the completion of the line, the release with the client's leaving; distinct by target and script; non-trivial ones transfer at least one line, an error or a release")
	c.Assume("\"as soon as\" and \"promptly\" mean within 30 s; a line counts as delivered when the client has read it; when the cluster's connection breaks, lines the client was not yet shown may be lost; the longest observed idle time is 65 s")
	g := c.Rand(1)
	clusters := []string{"c1", "c2", "c3"}
	cached, _ := proxyDefs()
	w := NewWorld(cached, clusters, "c2", "")
	defer w.Close()
	var mu sync.Mutex
	live := map[string]*relay{}
	for cl, u := range w.Ups {
		cl := cl
		u.Hook = func(rw http.ResponseWriter, req *http.Request, body []byte) bool {
			id := reID.FindString(req.URL.Path + "?" + req.URL.RawQuery)
			mu.Lock()
			r := live[id]
			hg := rand.New(rand.NewSource(g.Int63()))
			mu.Unlock()
			if r == nil {
				return false
			}
			r.hook(rw, req, cl, hg)
			return true
		}
	}
	srv := startServer(w.Router)
	defer srv.Close()
	defer srv.CloseClientConnections()
	cli := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 100}}
	seq := 0
	run := func(r *relay, cg *rand.Rand) {
		k, what := r.run(cli, srv.URL, cg)
		mu.Lock()
		delete(live, r.id)
		mu.Unlock()
		if k != "" {
			c.Violate(k+"/"+r.end, what, r.wit())
		}
		c.Count("watches_"+r.end, 1)
		c.Count("lines_sent", int64(len(r.lines)))
		if r.ctype == "text/plain" {
			c.Count("logs_followed", 1)
		}
		if r.lock {
			c.Count("lockstep_watches", 1)
		}
		sig := ""
		if len(r.lines) > 0 || r.end == "gone" || r.end == "status" {
			sig = fmt.Sprint(r.target, r.wit())
		}
		c.Eval(sig)
	}
	next := func() (*relay, *rand.Rand) {
		mu.Lock()
		defer mu.Unlock()
		seq++
		r := genRelay(g, fmt.Sprintf("vid%dx", seq), clusters, "c2")
		live[r.id] = r
		return r, rand.New(rand.NewSource(g.Int63()))
	}
	var idle sync.WaitGroup
	for _, path := range []string{"/api/v1/pods", "/api/v1/secrets", "/api/v1/watch/nodes", "/api/v1/namespaces/default/pods/p/log"} {
		mu.Lock()
		seq++
		r := &relay{id: fmt.Sprintf("vid%dx", seq), cluster: "c2", acks: make(chan int, 10), started: make(chan struct{}), accepted: make(chan struct{}), released: make(chan struct{}), fin: make(chan struct{}),
			path: path, ctype: "application/json", lock: true, hdrWait: true, end: "close", idle: 65 * time.Second, lines: [][]byte{[]byte("{}\n"), []byte("{\"late\":1}\n")}}
		r.query = url.Values{"fieldSelector": {r.id}, "watch": {"true"}}
		if strings.HasSuffix(path, "/log") {
			r.query = url.Values{"container": {r.id}, "follow": {"true"}}
		}
		r.target = path + "?" + r.query.Encode()
		live[r.id] = r
		rg := rand.New(rand.NewSource(g.Int63()))
		mu.Unlock()
		idle.Add(1)
		go func() { defer idle.Done(); run(r, rg); c.Count("watches_idle_for_65s", 1) }()
	}
	for round := 0; round < c.N(10, 200) && !c.Stop(); round++ {
		var wg sync.WaitGroup
		for i := 0; i < 40; i++ {
			r, rg := next()
			if round == 0 && i < 2 {
				c.Sample(r.wit())
			}
			wg.Add(1)
			go func() { defer wg.Done(); run(r, rg) }()
		}
		if !waitTimeout(&wg, 300*time.Second) {
			c.Violate("blocked", "watches did not end within 300 s", stacks())
			return
		}
	}
	if !c.Violated() {
		idle.Wait()
	}
	c.Need("watches_close", 50)
	c.Need("watches_gone", 50)
	c.Need("watches_abort", 15)
	c.Need("watches_status", 15)
	c.Need("watches_idle_for_65s", 4)
	c.Need("logs_followed", 20)
	c.Need("lockstep_watches", 150)
}
