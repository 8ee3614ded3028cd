package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"
)

func init() {
	register("C21", "exploration", c21)
}

var junkRunes = []rune("abz09 ,;:=!<>()[]{}\"'\\/%&?#+-_.~*@^|`$\t\n\r\x00\u007f\u00fcé日\U0001F600\ufffd")

func junk(g *rand.Rand, max int) string {
	n := g.Intn(max + 1)
	b := strings.Builder{}
	for i := 0; i < n; i++ {
		b.WriteRune(junkRunes[g.Intn(len(junkRunes))])
	}
	return b.String()
}

func junkSearch(g *rand.Rand) string {
	frag := []string{"name=", "name!=", "name", "=", "!=", "==", ";", ";;", "; ", "\"", "\"\"", "a\"b", "cluster=", "cluster", "c1", "namespace=", "__ckube_as__:", "__ckube_as__:name in (", ")", "a,b", "notin (a)",
		"!x", "uid", "x=y=z", "in ()", "name in (a;b)", " ", "\x00", "日本", "created_at=", "labels=", "containers", "\\", "%", "__ckube_as__", ":", "__ckube_as__:!!", "__ckube_as__:cluster notin (c1)", "__ckube_as__:cluster", "__ckube_as__:cluster=c1,cluster=c2"}
	s := ""
	for i := 0; i <= g.Intn(7); i++ {
		s += pick(g, frag)
	}
	switch g.Intn(20) {
	case 0:
		s = strings.Repeat(s, 2000)
	case 1:
		s = junk(g, 60)
	}
	return s
}

func junkSort(g *rand.Rand) string {
	frag := []string{"name", "uid", "prio!int", "name!int", "!", "!int", "!str", "!x", " asc", " desc", " DESC", ",", ",,", " ", "nokey", "created_at desc", "name!int desc asc", "!!", "\x00", "日本", "cluster", "big!int", "a b c d"}
	s := ""
	for i := 0; i <= g.Intn(6); i++ {
		s += pick(g, frag)
	}
	if g.Intn(20) == 0 {
		s = strings.Repeat(s+",", 500)
	}
	return s
}

var junkNumbers = []string{"0", "1", "-1", "2", "5", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "4611686018427387904", "3037000500", "1e3", "1.5", "-0", "1e400", "\"1\"", "null", "true", "[]", "{}", "4294967296", "2147483648"}

// junkPayload is the JSON of a query, well formed or not.
func junkPayload(g *rand.Rand) string {
	js := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch g.Intn(12) {
	case 0:
		return pick(g, []string{"", "null", "[]", "1", "\"x\"", "{", "}", "{}{}", "{\"page\":}", "\xff\xfe", "{\"search\":\"\xff\"}", "{\"page\":1,\"page\":2}", strings.Repeat("[", 20000), `{"unknown":1}`})
	case 1:
		return junk(g, 40)
	}
	var fs []string
	if g.Intn(2) == 0 {
		fs = append(fs, `"page":`+pick(g, junkNumbers))
	}
	if g.Intn(2) == 0 {
		fs = append(fs, `"page_size":`+pick(g, junkNumbers))
	}
	if g.Intn(2) == 0 {
		fs = append(fs, `"search":`+js(junkSearch(g)))
	}
	if g.Intn(2) == 0 {
		fs = append(fs, `"sort":`+js(junkSort(g)))
	}
	if g.Intn(4) == 0 {
		fs = append(fs, `"total":`+pick(g, junkNumbers))
	}
	if g.Intn(12) == 0 {
		fs = append(fs, `"search":`+pick(g, junkNumbers))
	}
	return "{" + strings.Join(fs, ",") + "}"
}

func junkSelector(g *rand.Rand) string {
	key := "ckube.daocloud.io/query"
	pay := func() string {
		b := []byte(junkPayload(g))
		switch g.Intn(8) {
		case 0:
			return base64.StdEncoding.EncodeToString(b)
		case 1:
			return base64.RawURLEncoding.EncodeToString(b)
		case 2:
			return junk(g, 20)
		}
		return base64.RawStdEncoding.EncodeToString(b)
	}
	split := func(s string) string {
		var vs []string
		for i := 0; i < len(s) || i == 0; i += 56 {
			e := i + 56
			if e > len(s) {
				e = len(s)
			}
			vs = append(vs, fmt.Sprintf("%04d.%s", i, s[i:e]))
		}
		if g.Intn(4) == 0 {
			g.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		}
		if g.Intn(6) == 0 {
			vs = append(vs, pick(g, []string{"x", "0000.", "0000.a", "a.b.c", ".", "9999999999.z", "-1.q"}))
		}
		return strings.Join(vs, ",")
	}
	switch g.Intn(14) {
	case 0:
		return junk(g, 30)
	case 1:
		return pick(g, []string{"!!", "a>1", "x in", "(", "a in (b", "=,=", "a=b=c", ",", "!", "a notin ()", "a in ()", "a,!a", "a==b,c!=d,e", "a gt 1", strings.Repeat("a=b,", 3000) + "a=b", strings.Repeat("x", 100000), key, "!" + key, key + "=", key + " in ()", key + " notin ()", key + ">1", key + "!=x"})
	case 2:
		return key + "=" + pay()
	case 3:
		return key + "!=" + pay()
	case 4:
		return key + " in (" + split(pay()) + ")"
	case 5:
		return key + " notin (" + pay() + "),a=b," + key + "=" + pay()
	case 6:
		return key + " notin (" + split(pay()) + ")," + key + " notin (" + split(pay()) + ")"
	case 7:
		return "a=b,!c,d in (e,f)," + key + " notin (" + split(pay()) + ")"
	}
	return key + " notin (" + split(pay()) + ")"
}

var junkMethods = []string{"GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "PROPFIND", "get", "G-T", "LIST", "WATCH"}

var junkBodies = []string{"", "{}", "null", "[]", "1", "\"", "{\"dryRun\":[]}", `{"dryRun":["dsm-cluster-"]}`, `{"dryRun":["dsm-cluster-nowhere"]}`, `{"dryRun":[1]}`, `{"dryRun":"x"}`, `{"dryRun":null}`, `{"dryRun":["dsm-cluster-c2","All"]}`,
	`{"gracePeriodSeconds":"x","dryRun":["dsm-cluster-c1"]}`, "\x00\xff", `{"apiVersion":"v1"`, "a: b"}

func junkBody(g *rand.Rand) []byte {
	switch g.Intn(12) {
	case 0:
		return bytes.Repeat([]byte("["), 100000)
	case 1:
		return bytes.Repeat([]byte("z"), 1<<20)
	case 2:
		return []byte(junk(g, 100))
	}
	return []byte(pick(g, junkBodies))
}

func junkPath(g *rand.Rand, w *World) (string, *gvrDef) {
	cached, uncached := proxyDefs()
	all := append(append([]*gvrDef{defSvcs}, cached...), uncached...)
	d := all[g.Intn(len(all))]
	esc := func(s string) string { return url.PathEscape(s) }
	switch g.Intn(16) {
	case 0:
		p := ""
		for i := 0; i <= g.Intn(8); i++ {
			p += "/" + pick(g, []string{"api", "apis", "v1", "namespaces", "pods", "", "..", ".", "%2f", "%00", "%2e%2e", "watch", "custom", "apps", "deployments", "services", "clusters", "日本", "a b", "*", "%25", "{x}", "healthy", "metrics", ";", ":", "@"})
		}
		return strings.ReplaceAll(p, " ", "%20"), nil
	case 1:
		return "/" + esc(junk(g, 40)), nil
	case 2:
		return "/" + strings.Repeat("a/", 4000), nil
	case 3:
		return "/custom/v1/clusters/" + esc(junk(g, 10)+"x") + "/namespaces/" + esc(pick(g, nsNames)) + "/deployments/" + esc(pick(g, []string{"a", "", "-", "x-y", "日本", " ", "%"})+"x") + "/services", nil
	case 4:
		return d.path(pick(g, nsNames)) + "/" + esc(junk(g, 12)+"x"), nil
	case 5:
		return d.path(junk(g, 8) + "x"), d
	case 6:
		return d.root() + "/", nil
	}
	if g.Intn(2) == 0 {
		return d.root(), d
	}
	return d.path(pick(g, nsNames)), d
}

func junkTarget(g *rand.Rand, w *World) (target, kind string) {
	p, d := junkPath(g, w)
	kind = "path"
	q := []string{}
	add := func(k, v string) { q = append(q, url.QueryEscape(k)+"="+url.QueryEscape(v)) }
	if d != nil && g.Intn(6) > 0 || g.Intn(3) == 0 {
		add("labelSelector", junkSelector(g))
		kind = "selector"
	}
	for g.Intn(3) == 0 {
		kind = "query"
		switch g.Intn(10) {
		case 0:
			add("labelSelector", junkSelector(g))
		case 1:
			add("cluster", pick(g, []string{"c1", "c2", "", "nowhere", "c1,c2", "dsm-cluster-c1", "\x00", "日本"}))
		case 2:
			add("resourceVersion", pick(g, []string{"dsm-cluster-", "dsm-cluster-c2", "dsm-cluster-nowhere", "0", "x", ""}))
		case 3:
			add("fieldManager", pick(g, []string{"dsm-cluster-", "dsm-cluster-c2", "dsm-cluster-nowhere", "x", strings.Repeat("m", 5000)}))
		case 4:
			add(pick(g, []string{"limit", "timeoutSeconds", "timeout"}), pick(g, []string{"0", "-1", "x", "", "99999999999999999999", "1", "1s", "-5m", "1ns"}))
		case 5:
			add("fieldSelector", junk(g, 20))
		case 6:
			add(junk(g, 6), junk(g, 10))
		case 7:
			q = append(q, pick(g, []string{"%zz", "&&", "=", "=x", "a=%", ";", "a;b", "labelSelector", "cluster", "watch=0", "resourceVersion", "fieldManager&", "labelSelector=a&labelSelector=b"}))
		case 8:
			add("continue", junk(g, 30))
		case 9:
			add("pretty", "true")
		}
	}
	if len(q) > 0 {
		p += "?" + strings.Join(q, "&")
	}
	return p, kind
}

func c21(c *Ctx) {
	c.Rule("a case is one hostile request, in process or over a socket; it must get a complete response, not an internal error while the clusters are healthy, and fixed probes must be answered as before; distinct by method, target and body; all are non-trivial")
	c.Assume("a complete response within 60 s; malformed HTTP is answered or closed by the HTTP library; internal errors are accepted while a cluster is broken; requests and bodies up to about 1 MiB")
	g := c.Rand(1)
	cached, _ := proxyDefs()
	cached = append(cached, defSvcs)
	w := NewWorld(cached, []string{"c1", "c2"}, "c1", "")
	defer w.Close()
	w.StartWatcher()
	up := w.SyncStreams()
	w.genPopulation(g, 25)
	if !up || !w.Sync() {
		c.Violate("sync", "the cache did not follow the clusters", nil)
		return
	}
	var fmu sync.Mutex
	broken := ""
	for _, u := range w.Ups {
		u.Hook = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			fmu.Lock()
			b := broken
			fmu.Unlock()
			if b != "" && !strings.Contains(r.URL.RawQuery, "probe=") {
				c.Count("while_broken_"+b, 1)
				switch b {
				case "short":
					rw.Header().Set("Content-Length", "100")
					_, _ = io.WriteString(rw, "{")
					panic(http.ErrAbortHandler)
				case "weird":
					rw.Header().Set("Content-Type", "application/vnd.kubernetes.protobuf")
					rw.WriteHeader(pickInt(rand.New(rand.NewSource(int64(len(r.URL.Path)))), []int{418, 299, 600, 999, 302, 500}))
					_, _ = rw.Write([]byte("k8s\x00\xff\xff"))
				default:
					(&Upstream{}).fail(rw, b)
				}
				return true
			}
			rw.Header().Set("Content-Type", "application/json")
			_, _ = io.WriteString(rw, `{"kind":"Echo","apiVersion":"v1"}`)
			return true
		}
	}
	srv := startServer(w.Router)
	defer srv.Close()
	defer srv.CloseClientConnections()
	type probe struct {
		target string
		want   []byte
	}
	var probes []probe
	for _, d := range w.Defs {
		probes = append(probes, probe{target: d.root() + "?labelSelector=" + url.QueryEscape(allClusters(w))})
	}
	probes = append(probes, probe{target: "/api/v1/secrets?probe=1"}, probe{target: "/api/v1/namespaces/a/pods/absent"}, probe{target: "/healthy"})
	for i := range probes {
		r := w.get(probes[i].target)
		if r.Hang || r.Aborted != "" || r.Status >= 500 {
			c.Violate("probe", fmt.Sprintf("%s is answered %d before anything hostile was sent", probes[i].target, r.Status), trunc(r.Body))
			return
		}
		probes[i].want = r.Body
	}
	check := func(last interface{}) bool {
		for _, p := range probes {
			r := w.get(p.target)
			if r.Hang || r.Aborted != "" || !bytes.Equal(r.Body, p.want) {
				c.Violate("probe", fmt.Sprintf("%s is answered differently after a hostile request: %d %s", p.target, r.Status, trunc(r.Body)), last)
				return false
			}
		}
		c.Count("probes_answered_right", int64(len(probes)))
		return true
	}
	judge := func(method, target, kind string, body []byte, h map[string]string, resp *Resp, healthy bool) {
		b := body
		if len(b) > 300 {
			b = b[:300]
		}
		t := target
		if len(t) > 2000 {
			t = t[:2000]
		}
		wit := map[string]interface{}{"method": method, "target": t, "body": string(b), "headers": h, "status": resp.Status, "answer": trunc(resp.Body)}
		switch {
		case resp.Hang:
			c.Violate("hang/"+kind, "no answer within 60 s", wit)
		case resp.Aborted != "":
			c.Violate("aborted/"+kind, "no complete answer: "+resp.Aborted, wit)
		case healthy && resp.Status >= 500:
			c.Violate("internal/"+kind, fmt.Sprintf("answered with internal error %d", resp.Status), wit)
		}
		c.Count("requests_"+kind, 1)
		c.Eval(method + target + string(b))
	}
	send := func(sg *rand.Rand, healthy bool) interface{} {
		method := pick(sg, junkMethods)
		target, kind := junkTarget(sg, w)
		var body []byte
		if method != "GET" && method != "HEAD" || sg.Intn(15) == 0 {
			body = junkBody(sg)
		}
		h := map[string]string{}
		if sg.Intn(6) == 0 {
			h["accept"] = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json"
		}
		if sg.Intn(6) == 0 {
			h["Content-Type"] = pick(sg, []string{"application/json-patch+json", "", "x", "application/vnd.kubernetes.protobuf", "multipart/form-data; boundary=x"})
		}
		req := newRequest(method, target, h, body)
		if req == nil {
			return nil
		}
		judge(method, target, kind, body, h, doReq(w.Router, req), healthy)
		return []string{method, target, string(body)}
	}
	n := c.N(25000, 400000)
	for i := 0; i < n && !c.Stop(); i++ {
		last := send(g, true)
		if i%4000 == 0 {
			c.Sample(last)
		}
		if i%50 == 0 && !check(last) {
			break
		}
	}
	// several at once
	for round := 0; round < c.N(4, 40) && !c.Stop(); round++ {
		var wg sync.WaitGroup
		for t := 0; t < 8; t++ {
			tg := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 200 && !c.Stop(); i++ {
					send(tg, true)
				}
			}()
		}
		if !waitTimeout(&wg, 200*time.Second) {
			c.Violate("blocked", "concurrent requests did not finish", stacks())
			return
		}
		check("concurrent requests")
	}
	// over sockets: broken HTTP and clients that leave
	addr := srv.Listener.Addr().String()
	var wg sync.WaitGroup
	for t := 0; t < 8; t++ {
		tg := rand.New(rand.NewSource(g.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.N(60, 800) && !c.Stop(); i++ {
				rawRequest(c, tg, addr, w)
			}
		}()
	}
	if !waitTimeout(&wg, 300*time.Second) {
		c.Violate("blocked", "requests over sockets did not finish", stacks())
		return
	}
	check("requests over sockets")
	// with broken clusters, the answer is complete all the same
	for _, f := range []string{"status500", "status503text", "status404", "drop", "short", "weird"} {
		fmu.Lock()
		broken = f
		fmu.Unlock()
		var wg sync.WaitGroup
		for t := 0; t < 40; t++ {
			tg := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < c.N(1, 20) && !c.Stop(); i++ {
					send(tg, false)
				}
			}()
		}
		if !waitTimeout(&wg, 400*time.Second) {
			c.Violate("blocked", "requests to a broken cluster did not finish", stacks())
			return
		}
		if !check("clusters that answer " + f) {
			break
		}
	}
	// nothing is left working
	for i := 0; ; i++ {
		s := stacks()
		if !strings.Contains(s, repoPkg+"api.") {
			break
		}
		if i >= 300 {
			c.Violate("leftover", "30 s after the last request a handler is still at work", s)
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	c.Need("requests_selector", 5000)
	c.Need("requests_query", 3000)
	c.Need("requests_path", 1000)
	c.Need("probes_answered_right", 500)
	c.Need("over_sockets", 300)
}

// rawRequest sends something over a socket, and perhaps leaves.
func rawRequest(c *Ctx, g *rand.Rand, addr string, w *World) {
	conn, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		c.Violate("down", "the server does not accept connections: "+err.Error(), nil)
		return
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
	target, _ := junkTarget(g, w)
	method := pick(g, junkMethods)
	body := string(junkBody(g))
	whole := true // a well-formed request, which must get a complete response
	var text string
	switch k := g.Intn(16); k {
	case 0:
		text, whole = junk(g, 200)+"\r\n\r\n", false
	case 1:
		text, whole = method+" "+target, false
	case 2:
		text, whole = "GET "+target+" HTTP/1.1\r\nHost: x\r\nX: "+strings.Repeat("y", 2<<20)+"\r\n\r\n", false
	case 3:
		text, whole = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", false
	case 4:
		text, whole = "POST "+target+" HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\nabc", false
	case 5:
		text, whole = "DELETE "+target+" HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc", false
	case 6:
		text, whole = "DELETE /api/v1/namespaces/a/pods/x HTTP/1.1\r\nHost: x\r\nContent-Length: 50\r\n\r\n{\"dryRun\":[\"dsm", false
	case 7:
		text, whole = "GET /api/v1/pods HTTP/1.1\r\nHost: x\r\n\r\nGET /api/v1/pods HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", true
	case 8:
		text, whole = pick(g, []string{"OPTIONS *", "GET *", "CONNECT x:1", "GET http://other/api/v1/pods", "GET ", "GET  /", "GET /%", "GET /\x00"})+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", false
	case 9:
		text, whole = "GET /api/v1/pods HTTP/1.0\r\n\r\n", true
	case 10:
		text = "GET /api/v1/namespaces/a/pods/x/exec?command=ls HTTP/1.1\r\nHost: x\r\nConnection: Upgrade, close\r\nUpgrade: SPDY/3.1\r\n\r\n"
	case 11:
		text = "POST /api/v1/pods HTTP/1.1\r\nHost: x\r\nConnection: close\r\nExpect: 100-continue\r\nContent-Length: 2\r\n\r\n{}"
	default:
		if g.Intn(2) == 0 || method == "HEAD" {
			text = "GET " + target + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"
		} else {
			text = fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", method, target, len(body), body)
		}
		if _, err := url.ParseRequestURI(target); err != nil || strings.ContainsAny(target, " \x00\n\r\t") {
			whole = false
		}
	}
	for b := []byte(text); len(b) > 0; {
		n := len(b)
		if g.Intn(3) == 0 && n < 4000 {
			n = 1 + g.Intn(n)
		}
		if _, err := conn.Write(b[:n]); err != nil {
			break // refused before it was sent completely
		}
		b = b[n:]
	}
	c.Count("over_sockets", 1)
	c.Eval("socket" + text)
	if g.Intn(4) == 0 { // leave
		if t, ok := conn.(*net.TCPConn); ok && g.Intn(2) == 0 {
			_ = t.SetLinger(0)
		}
		c.Count("clients_that_left", 1)
		return
	}
	if !whole {
		if t, ok := conn.(*net.TCPConn); ok {
			_ = t.CloseWrite()
		}
		_, _ = io.Copy(io.Discard, io.LimitReader(conn, 10<<20))
		return
	}
	shown := text
	if len(shown) > 1500 {
		shown = shown[:1500]
	}
	rd := bufio.NewReader(conn)
	for i := 0; i < strings.Count(text, " HTTP/1."); i++ {
		resp, err := http.ReadResponse(rd, &http.Request{Method: strings.Fields(text)[0]})
		var b []byte
		if err == nil {
			b, err = io.ReadAll(resp.Body)
		}
		if err != nil {
			c.Violate("socket/incomplete", "no complete response: "+err.Error(), shown)
			return
		}
		if resp.StatusCode >= 500 && resp.StatusCode != 501 && resp.StatusCode != 505 {
			c.Violate("socket/internal", fmt.Sprintf("answered %d %s", resp.StatusCode, trunc(b)), shown)
		}
		c.Count("socket_responses", 1)
	}
}
