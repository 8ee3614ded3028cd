package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C34", "exploration", c34)
}

const proxyToken = "proxy-secret-0f9a"

// credWorld is a world whose clusters each have credentials of their own, and accept nothing else.
func credWorld(cached []*gvrDef, clusters []string) *World {
	bases := []string{"", "/k8s/clusters/c-m8x", "", ""}
	return newWorld(cached, clusters, clusters[0], proxyToken, func(i int) *Upstream {
		u := newUpstream(clusters[i], i%2 == 1)
		u.Base = bases[i%len(bases)]
		return u
	}, func(i int, u *Upstream, url string) rest.Config {
		cfg := rest.Config{Host: url}
		cfg.TLSClientConfig.CAData = u.CA()
		user, header := credentials(u.Name, i)
		if t, ok := user["token"].(string); ok {
			cfg.BearerToken = t
		} else {
			cfg.Username, cfg.Password = user["username"].(string), user["password"].(string)
		}
		if i == 3 {
			cfg.BearerToken, header = "", "" // a cluster which wants none
		}
		u.letIn(header)
		return cfg
	})
}

// ownHeaders are what a client sends to prove who it is, besides other things.
func ownHeaders(g *rand.Rand) map[string]string {
	h := map[string]string{"Authorization": pick(g, []string{"Bearer ", "bearer ", "", "Token "}) + proxyToken}
	for _, k := range []string{"Cookie", "Proxy-Authorization", "X-Forwarded-Access-Token", "X-Remote-User", "X-Remote-Group", "Impersonate-User", "Impersonate-Group", "X-Auth-Request-Access-Token", "X-Api-Key"} {
		if g.Intn(3) == 0 {
			h[k] = "client-secret-" + k
		}
	}
	if g.Intn(4) == 0 {
		h["Accept"] = pick(g, []string{"application/json;as=Table;v=v1;g=meta.k8s.io,application/json", "*/*", "application/json"})
	}
	return h
}

// secretsOf are the credentials of clusters.
func secretsOf(clusters []string, gens int) []string {
	var s []string
	for _, cl := range clusters {
		for gen := 0; gen <= gens; gen++ {
			user, header := credentials(cl, gen)
			if t, ok := user["token"].(string); ok {
				s = append(s, t)
			} else {
				s = append(s, strings.TrimPrefix(header, "Basic "))
			}
		}
	}
	return s
}

// foreign looks for something that is neither the cluster's own nor harmless in what it received.
func foreign(r RecReq) string {
	for k, vs := range r.Header {
		for _, v := range vs {
			if strings.Contains(v, proxyToken) {
				return fmt.Sprintf("header %s carries the token of the proxy: %q", k, v)
			}
			if strings.Contains(v, "client-secret-") || strings.HasPrefix(k, "Impersonate-") || strings.HasPrefix(k, "X-Remote-") {
				return fmt.Sprintf("header %s: %q of the client arrived at the cluster", k, v)
			}
		}
	}
	if strings.Contains(r.RawQuery, proxyToken) || bytes.Contains(r.Body, []byte(proxyToken)) {
		return "the token of the proxy arrived at the cluster"
	}
	return ""
}

func c34(c *Ctx) {
	c.Rule("a case is one request of a client that shows the proxy's token and credentials of its own, or one state of a running daemon; what the clusters received, what the client was answered and what the daemon logged is searched for credentials of others; distinct by request; all are non-trivial")
	c.Assume("a debug log (-d) may show the kubeconfig; redirections by a cluster are not considered; what a client puts into the path, query or body is meant for the cluster")
	done := make(chan struct{})
	go func() { defer close(done); c34daemons(c) }()
	c34requests(c)
	<-done
	c.Need("requests_received_by_clusters", 1000)
	c.Need("watches_received_by_clusters", 50)
	c.Need("requests_of_the_watcher", 10)
	c.Need("answers_searched", 1500)
	c.Need("log_lines_searched", 200)
	c.Need("broken_kubeconfigs", 3)
}

func c34requests(c *Ctx) {
	g := c.Rand(1)
	cached, uncached := proxyDefs()
	clusters := []string{"c1", "c2", "kubernetes-admin@kubernetes", "open"}
	w := credWorld(cached, clusters)
	defer w.Close()
	w.StartWatcher()
	if !w.SyncStreams() {
		c.Violate("no-streams", "the watches of the clusters, each of which accepts its own credentials, are not open after 60 s", w.strange())
		return
	}
	w.genPopulation(g, 3)
	w.Sync()
	for _, u := range w.Ups {
		for _, d := range cached {
			c.Count("requests_of_the_watcher", int64(u.Opened(d.root())))
		}
		u.Take()
	}
	secrets := secretsOf(clusters, 3)
	seen := func(what string, wit interface{}) {
		for _, cl := range clusters {
			for _, r := range w.Ups[cl].Take() {
				if r.Watch {
					c.Count("watches_received_by_clusters", 1)
				} else {
					c.Count("requests_received_by_clusters", 1)
				}
				if f := foreign(r); f != "" {
					c.Violate("leak/"+what, fmt.Sprintf("cluster %s, %s %s: %s", cl, r.Method, r.Path, f), wit)
				}
				if a := r.Header["Authorization"]; len(a) > 1 {
					c.Violate("leak/"+what, fmt.Sprintf("cluster %s, %s %s: several Authorization headers %q", cl, r.Method, r.Path, a), wit)
				}
			}
			for _, h := range w.Ups[cl].strange() {
				c.Violate("credentials/"+what, fmt.Sprintf("cluster %s received a request with the Authorization header %q, which is not its own", cl, h), wit)
			}
		}
	}
	told := func(what string, resp *Resp, wit interface{}) {
		c.Count("answers_searched", 1)
		if resp.Status == 401 {
			c.Violate("refused/"+what, "a request with the token is answered 401: "+trunc(resp.Body), wit)
		}
		var h bytes.Buffer
		_ = resp.Header.Write(&h)
		for _, s := range append(secrets, proxyToken) {
			if bytes.Contains(resp.Body, []byte(s)) || bytes.Contains(h.Bytes(), []byte(s)) {
				c.Violate("told/"+what, fmt.Sprintf("the answer tells the client %q: %s %s", s, h.String(), trunc(resp.Body)), wit)
			}
		}
	}
	ex := &exchanges{want: map[string]*answer{}, got: map[string][]RecReq{}, on: map[string][]string{}}
	for cl, u := range w.Ups {
		u.Hook = ex.hook(cl)
	}
	n := c.N(2500, 40000)
	for i := 0; i < n && !c.Stop(); i++ {
		p := genProxied(g, i, cached, uncached, clusters, clusters[0])
		if p.ans.status == 401 {
			p.ans.status = 403
		}
		ex.expect(p.id, p.ans)
		for k, v := range ownHeaders(g) {
			p.hdr[k] = v
		}
		resp := do(w.Router, p.method, p.target(), p.hdr, p.body)
		told(p.method, resp, p.wit())
		ex.take(p.id)
		seen(p.method, p.wit())
		c.Eval(p.method + p.target() + fmt.Sprint(p.hdr))
		if i%1000 == 0 {
			c.Sample(p.wit())
		}
	}
	// lists and objects from the cache, and what goes wrong
	n = c.N(600, 8000)
	for i := 0; i < n && !c.Stop(); i++ {
		d := cached[g.Intn(len(cached))]
		target := d.root()
		switch g.Intn(5) {
		case 0:
			target += "/nosuch"
		case 1:
			target += "?cluster=nowhere"
		case 2:
			target = uncached[g.Intn(len(uncached))].root() + "?cluster=nowhere"
		case 3:
			p := page.Paginate{Page: 1, PageSize: 3}
			if o, err := page.QueryListOptions(metav1.ListOptions{}, p); err == nil {
				target += "?labelSelector=" + url.QueryEscape(o.LabelSelector)
			}
		}
		h := ownHeaders(g)
		wit := map[string]interface{}{"target": target, "headers": h}
		told("cache", do(w.Router, "GET", target, h, nil), wit)
		seen("cache", wit)
		c.Eval("GET" + target + fmt.Sprint(h))
	}
	// watches
	srv := startServer(w.Router)
	defer srv.Close()
	cli := &http.Client{}
	n = c.N(100, 1000)
	for i := 0; i < n && !c.Stop(); i++ {
		d := append(append([]*gvrDef{}, cached...), uncached...)[g.Intn(len(cached)+len(uncached))]
		cl := pick(g, clusters)
		o, err := page.QueryListOptions(metav1.ListOptions{Watch: true}, clusterPage(cl))
		if err != nil {
			continue
		}
		target := d.root() + "?watch=true&labelSelector=" + url.QueryEscape(o.LabelSelector)
		if g.Intn(2) == 0 {
			target = d.root() + "?watch=true&cluster=" + url.QueryEscape(cl)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		req, err := http.NewRequestWithContext(ctx, "GET", srv.URL+target, nil)
		if err != nil {
			cancel()
			continue
		}
		h := ownHeaders(g)
		for k, v := range h {
			req.Header.Set(k, v)
		}
		wit := map[string]interface{}{"target": target, "headers": h}
		resp, err := cli.Do(req)
		if err == nil {
			b := make([]byte, 1<<16)
			k := 0
			if w.Ups[cl].OpenStreams(d.root()) > 0 && len(w.Ups[cl].Keys(d.root())) > 0 {
				k, _ = resp.Body.Read(b)
			}
			told("watch", &Resp{Status: resp.StatusCode, Header: resp.Header, Body: b[:k]}, wit)
			_ = resp.Body.Close()
		}
		cancel()
		seen("watch", wit)
		c.Eval("WATCH" + target + fmt.Sprint(h))
	}
}

func clusterPage(cl string) page.Paginate {
	p := page.Paginate{}
	_ = p.Clusters([]string{cl})
	return p
}

// strange is what the clusters were sent and did not accept.
func (w *World) strange() map[string][]string {
	m := map[string][]string{}
	for cl, u := range w.Ups {
		m[cl] = u.strange()
	}
	return m
}

// c34daemons runs daemons through changes and failures, and searches what they tell.
func c34daemons(c *Ctx) {
	var wg sync.WaitGroup
	for i := 0; i < c.N(3, 12); i++ {
		g := c.Rand(int64(70 + i))
		w := newDWorld(c, g, fmt.Sprintf("cred-%d", i), []string{"in-place", "rename"}[i%2])
		w.json = i%2 == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.close()
			w.token = proxyToken
			w.ctxs, w.cur = w.someCtxs()
			w.defs = w.someDefs()
			if !w.start(true) || !w.settle("cred-start") {
				return
			}
			bad := map[string]bool{}
			search := func() bool {
				secrets := append(secretsOf(daemonClusters, w.gen), proxyToken)
				lg := w.d.Log()
				c.Count("log_lines_searched", int64(strings.Count(lg, "\n")))
				texts := map[string]string{"log": lg}
				for _, t := range []string{"/metrics", "/healthy", "/nosuch", "/apis/nosuch/v1/things"} {
					r := w.d.Get(t)
					var h bytes.Buffer
					_ = r.Header.Write(&h)
					texts["answer to GET "+t] = h.String() + string(r.Body)
					c.Count("answers_searched", 1)
				}
				for where, t := range texts {
					for _, s := range secrets {
						if strings.Contains(t, s) && !bad[where] {
							bad[where] = true
							i := strings.Index(t, s)
							from := i - 200
							if from < 0 {
								from = 0
							}
							w.violate("told", fmt.Sprintf("the daemon's %s shows %q: %s", where, s, t[from:i+len(s)]))
						}
					}
				}
				return len(bad) == 0
			}
			for s := 0; s < c.N(3, 8) && !c.Stop(); s++ {
				// clusters fail
				for _, cl := range w.ctxs {
					w.ups[cl].SetFault(w.all[s%len(w.all)].root(), "status500")
					w.ups[cl].endStreams("", "abort")
				}
				for _, d := range w.all {
					for _, m := range []string{"GET", "POST", "DELETE"} {
						w.d.Do(m, d.root()+"/x", w.hdr(), []byte("{}"))
						w.d.Do(m, d.root()+"/x", map[string]string{"Authorization": "Bearer guess"}, []byte("{}"))
					}
				}
				// somebody breaks the files, with the secrets in them
				good := w.kube(w.ctxs, w.cur)
				// the secrets are at the end of JSON
				broken := bytes.Replace(good, []byte("contexts"), []byte("\tcontexts"), 1)
				if w.json {
					broken = good[:len(good)-1-w.g.Intn(10)]
				} else if w.g.Intn(2) == 0 {
					broken = append(append([]byte{}, good...), "\n- {"...)
				}
				n := w.d.reloads("failed")
				if err := w.change(w.kubePath(), broken); err != nil {
					c.Inconclusive("%v", err)
					return
				}
				for end := time.Now().Add(10 * time.Second); time.Now().Before(end) && w.d.reloads("failed") <= n; time.Sleep(50 * time.Millisecond) {
				}
				if w.d.reloads("failed") > n {
					c.Count("broken_kubeconfigs", 1)
				}
				conf := w.conf()
				var m map[string]interface{}
				_ = json.Unmarshal(conf, &m)
				m["token"] = map[string]string{proxyToken: proxyToken}
				odd, _ := json.Marshal(m)
				n = w.d.reloads("failed")
				if err := w.change(w.confPath(), [][]byte{conf[:len(conf)-2], odd}[s%2]); err != nil {
					c.Inconclusive("%v", err)
					return
				}
				for end := time.Now().Add(10 * time.Second); time.Now().Before(end) && w.d.reloads("failed") <= n; time.Sleep(50 * time.Millisecond) {
				}
				if !search() {
					return
				}
				// and repairs them
				for _, u := range w.ups {
					for _, d := range w.all {
						u.SetFault(d.root(), "")
					}
				}
				w.ctxs, w.cur = w.someCtxs()
				w.defs = w.someDefs()
				w.trace = append(w.trace, fmt.Sprintf("contexts %q, current %q, types %s", w.ctxs, w.cur, defNames(w.defs)))
				if err := w.change(w.kubePath(), w.kube(w.ctxs, w.cur)); err != nil {
					c.Inconclusive("%v", err)
					return
				}
				if err := w.change(w.confPath(), w.conf()); err != nil {
					c.Inconclusive("%v", err)
					return
				}
				if !w.settle("cred-settle") || !search() {
					return
				}
				c.Eval(w.tag + strings.Join(w.trace, ";"))
			}
			if dir := os.Getenv("VERIF_DEBUG"); dir != "" {
				_ = os.WriteFile(dir+"/"+w.tag+".log", []byte(w.d.Log()), 0o644)
			}
		}()
	}
	wg.Wait()
}
