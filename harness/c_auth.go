package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"
)

func init() {
	register("C20", "exploration", c20)
}

// authPath makes a request target that needs the token.
func authPath(g *rand.Rand, w *World) (target, family string) {
	cached, uncached := proxyDefs()
	all := append(append([]*gvrDef{}, cached...), uncached...)
	d := all[g.Intn(len(all))]
	ns := ""
	if d.Namespaced && g.Intn(4) > 0 {
		ns = pick(g, nsNames)
	}
	q := url.Values{}
	if g.Intn(5) == 0 {
		q.Set("cluster", pick(g, w.Clusters))
	}
	if g.Intn(8) == 0 {
		q.Set("labelSelector", pick(g, []string{"a=b", "!!", "a in (b)"}))
	}
	defer func() {
		if len(q) > 0 {
			target += "?" + q.Encode()
		}
	}()
	switch g.Intn(12) {
	case 0, 1, 2:
		return d.path(ns), "list"
	case 3, 4:
		name := "absent"
		if os := w.objs(d); len(os) > 0 && d.Namespaced {
			o := os[g.Intn(len(os))]
			ns, name = o.NS, o.Name
		}
		return d.path(ns) + "/" + name, "object"
	case 5:
		return d.path(ns) + "/x/" + pick(g, []string{"status", "log", "exec", "scale"}), "subresource"
	case 6:
		q.Set("watch", pick(g, []string{"true", "1"}))
		return d.path(ns), "watch"
	case 7:
		return "/api/v1/watch/pods", "watch"
	case 8:
		return "/custom/v1/namespaces/" + pick(g, nsNames) + "/deployments/app/services", "custom"
	case 9:
		return "/custom/v1/clusters/" + pick(g, w.Clusters) + "/namespaces/" + pick(g, nsNames) + "/deployments/app/services", "custom"
	case 10:
		return pick(g, []string{"/healthy/x", "/healthy/", "/metrics/x", "/metrics/", "/healthyx", "/xmetrics", "/Healthy", "/METRICS", "/api/v1/healthy", "/apis/a/b/metrics", "/%68ealthz", "/healthz"}), "lookalike"
	}
	return pick(g, []string{"/", "/version", "/api", "/apis", "/api/v1", "/openapi/v2", "/x", "/x/y/z", "/logs/", "/apis/apps/v1", "/custom/v1/x", "/custom/v1/namespaces/a/deployments/b/services/c"}), "catch-all"
}

// badAuth changes a request so that its Authorization header lacks the token.
func badAuth(g *rand.Rand, token string, h http.Header, target string) (string, string) {
	sep := "?"
	if strings.Contains(target, "?") {
		sep = "&"
	}
	switch n := g.Intn(20); n {
	case 0, 1:
		return target, "none"
	case 2:
		h.Set("Authorization", "")
		return target, "empty"
	case 3:
		h.Set("Authorization", "Bearer")
		return target, "scheme-only"
	case 4:
		h.Set("Authorization", "Bearer "+token[:len(token)-1])
		return target, "prefix"
	case 5:
		h.Set("Authorization", "Bearer "+token[1:])
		return target, "suffix"
	case 6:
		h.Set("Authorization", "Bearer "+swapCase(token))
		return target, "case"
	case 7:
		h.Set("Authorization", "Bearer wrong")
		return target, "wrong"
	case 8:
		return target + sep + "token=" + url.QueryEscape(token), "in-query"
	case 9:
		return target + sep + "access_token=" + url.QueryEscape(token) + "&Authorization=Bearer+" + url.QueryEscape(token), "in-query"
	case 10, 16, 17:
		h.Set(pick(g, []string{"X-Authorization", "Proxy-Authorization", "X-Auth-Token", "Cookie", "Authorization-2", "User-Agent", "X-Forwarded-Authorization", "X-Original-Authorization", "X-Forwarded-Access-Token", "X-Token", "Token", "X-Api-Key", "Sec-Websocket-Protocol", "Referer"}), "Bearer "+token)
		return target, "other-header"
	case 11:
		h.Set("X-Forwarded-For", "127.0.0.1")
		h.Set("X-Forwarded-User", "system:admin")
		h.Set("X-Remote-User", "admin")
		return target, "forwarded"
	case 12:
		m := len(token) / 2
		h.Set("Authorization", "Bearer "+token[:m]+" "+token[m:])
		return target, "broken"
	case 13:
		h.Set("Authorization", "Bearer "+strings.Repeat("x", 5000))
		return target, "long"
	case 14:
		h.Set("Authorization", "*")
		return target, "pattern"
	}
	b := []byte(token)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	h.Set("Authorization", "Bearer "+string(b))
	return target, "reversed"
}

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func c20(c *Ctx) {
	c.Rule("a case is one request; with a token configured and not carried it must get 401 without object data and contact no cluster, otherwise it must be processed; distinct by method, target and credentials; all are non-trivial")
	c.Assume("credentials are the Authorization header; \"//\" in paths, which the router redirects, is not considered")
	g := c.Rand(1)
	cached, _ := proxyDefs()
	cached = append(cached, defSvcs) // for the services of deployments
	w := NewWorld(cached, []string{"c1", "c2"}, "c1", "")
	defer w.Close()
	w.StartWatcher()
	ok := w.SyncStreams()
	w.genPopulation(g, 60)
	if !ok || !w.Sync() {
		c.Violate("sync", "the cache did not follow the clusters", nil)
		return
	}
	const secret = "\"uid\""
	for _, u := range w.Ups {
		u.Take()
		u.Hook = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			rw.Header().Set("Content-Type", "application/json")
			_, _ = io.WriteString(rw, `{"kind":"Echo","metadata":{"uid":"u"}}`+"\n")
			return true
		}
	}
	srv := startServer(w.Router)
	defer srv.Close()
	defer srv.CloseClientConnections()
	cli := &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Transport: &http.Transport{MaxIdleConnsPerHost: 4}}
	methods := []string{"GET", "GET", "GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "PROPFIND", "get", "X"}
	tokens := []string{"", "s3cret-Token", "eyJhbGciOiJSUzI1NiIsImtpZCI6IiJ9.eyJpc3MiOiJrIn0.Abc_-d", "a B+/=c:d", "", "Aa"}
	send := func(method, target string, h http.Header, body []byte, real bool) *Resp {
		if !real {
			req := newRequest(method, target, nil, body)
			if req == nil {
				return nil
			}
			for k, v := range h {
				req.Header[k] = v
			}
			return doReq(w.Router, req)
		}
		var rd io.Reader
		if body != nil {
			rd = bytes.NewReader(body)
		}
		req, err := http.NewRequest(method, srv.URL+target, rd)
		if err != nil {
			return nil
		}
		for k, v := range h {
			req.Header[k] = v
		}
		resp, err := cli.Do(req)
		if err != nil {
			return &Resp{Aborted: err.Error()}
		}
		b, _ := io.ReadAll(resp.Body)
		_ = resp.Body.Close()
		return &Resp{Status: resp.StatusCode, Header: resp.Header, Body: b}
	}
	n := c.N(2500, 30000)
	for ti := 0; ti < len(tokens) && !c.Stop(); ti++ {
		token := tokens[ti]
		initConfig(w.Defs, "c1", token)
		w.contacts()
		for i := 0; i < n && !c.Stop(); i++ {
			method := pick(g, methods)
			target, family := authPath(g, w)
			h := http.Header{}
			how := "token"
			ok := true
			if token == "" || g.Intn(3) > 0 {
				t := token
				if t == "" {
					t = "s3cret-Token"
				}
				target, how = badAuth(g, t, h, target)
				ok = token == ""
			} else {
				h.Set("Authorization", "Bearer "+token)
			}
			if g.Intn(6) == 0 {
				h.Set("Accept", "application/json;as=Table;v=v1;g=meta.k8s.io,application/json")
			}
			var body []byte
			if method == "POST" || method == "PUT" || method == "PATCH" || method == "DELETE" && g.Intn(2) == 0 {
				body = []byte(`{"dryRun":["dsm-cluster-c2"],"metadata":{"name":"x"}}`)
			}
			real := g.Intn(4) == 0
			resp := send(method, target, h, body, real)
			if resp == nil {
				continue
			}
			wit := map[string]interface{}{"method": method, "target": target, "headers": h, "token_configured": token, "credentials": how, "status": resp.Status, "body": trunc(resp.Body)}
			if i%900 == 0 {
				c.Sample(wit)
			}
			c.Eval(fmt.Sprint(method, target, how, token))
			contacts := w.contacts()
			if resp.Hang || resp.Aborted != "" {
				c.Violate("aborted/"+family, "no complete answer: "+resp.Aborted, wit)
				continue
			}
			if !ok {
				if resp.Status != 401 {
					c.Violate("status/"+family+"/"+how, fmt.Sprintf("%s %s without the token (%s) was answered %d", method, target, how, resp.Status), wit)
				}
				if len(contacts) > 0 {
					c.Violate("contact/"+family+"/"+how, fmt.Sprintf("%s %s without the token (%s) reached a cluster", method, target, how), wit)
				}
				if bytes.Contains(resp.Body, []byte(secret)) || bytes.Contains(resp.Body, []byte(`"items"`)) {
					c.Violate("data/"+family+"/"+how, fmt.Sprintf("%s %s without the token (%s) was answered with object data", method, target, how), wit)
				}
				c.Count("refused_"+family, 1)
			} else {
				if resp.Status == 401 || resp.Status >= 500 {
					c.Violate("processed/"+family, fmt.Sprintf("%s %s was answered %d (token configured: %v)", method, target, resp.Status, token != ""), wit)
				} else if family == "list" && method == "GET" && resp.Status == 200 && len(resp.Body) == 0 {
					c.Violate("processed/"+family, "an empty answer", wit)
				}
				if token != "" {
					c.Count("processed_with_token", 1)
				} else {
					c.Count("processed_no_token_configured", 1)
				}
			}
			if i%5 == 0 { // open paths
				p := pick(g, []string{"/healthy", "/metrics"})
				h := http.Header{}
				q, how := badAuth(g, "s3cret-Token", h, p)
				resp := send("GET", q, h, nil, i%40 == 0)
				if resp.Status != 200 || resp.Hang || resp.Aborted != "" {
					c.Violate("open"+p, fmt.Sprintf("GET %s (%s) was answered %d with token configured: %v", q, how, resp.Status, token != ""), trunc(resp.Body))
				}
				if p == "/metrics" && bytes.Contains(resp.Body, []byte(secret)) {
					c.Violate("open"+p, "metrics contain object data", nil)
				}
				c.Count("open_paths", 1)
				c.Eval("open" + q + how + token)
			}
		}
	}
	// requests with and without the token at the same time, on shared connections, while the token changes to another one
	initConfig(w.Defs, "c1", "tok-old")
	w.contacts()
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for t := 0; t < 8; t++ {
		tg := rand.New(rand.NewSource(g.Int63()))
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.N(300, 3000); i++ {
				target, family := authPath(tg, w)
				h := http.Header{}
				ok := t%2 == 0
				if ok { // one of the two is right
					h.Set("Authorization", "Bearer tok-old tok-new")
				} else {
					target, _ = badAuth(tg, "tok-", h, target)
				}
				resp := send(pick(tg, []string{"GET", "POST"}), target, h, nil, i%2 == 0)
				if resp == nil {
					continue
				}
				if resp.Hang || resp.Aborted != "" || !ok && (resp.Status != 401 || bytes.Contains(resp.Body, []byte(secret))) || ok && resp.Status == 401 {
					c.Violate("concurrent/"+family, fmt.Sprintf("%s with credentials %v was answered %d while others ran", target, h, resp.Status), trunc(resp.Body))
				}
				c.Count("concurrent_requests", 1)
			}
		}()
	}
	go func() {
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			case <-time.After(time.Millisecond):
				initConfig(w.Defs, "c1", []string{"tok-old", "tok-new"}[i%2])
			}
		}
	}()
	fin := waitTimeout(&wg, 240*time.Second)
	close(stop)
	if !fin {
		c.Violate("blocked", "requests did not finish", stacks())
	}
	for _, f := range []string{"list", "object", "subresource", "watch", "custom", "lookalike", "catch-all"} {
		c.Need("refused_"+f, 100)
	}
	c.Need("processed_with_token", 1000)
	c.Need("processed_no_token_configured", 1000)
	c.Need("open_paths", 500)
}
