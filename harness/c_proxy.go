package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8slabels "k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/types"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C17", "exploration", c17)
}

const marker = "dsm-cluster-"

// answer is what an upstream is told to reply to a request.
type answer struct {
	status  int
	ctype   string
	body    []byte
	retries int    // answers 429 with Retry-After this often first
	code    int    // of the retries
	drop    string // the connection ends: "early" before an answer, "cut" within one
	moves   int    // redirects the client this often first
}

// exchanges scripts upstream answers per request id and keeps what was received.
type exchanges struct {
	mu   sync.Mutex
	want map[string]*answer
	got  map[string][]RecReq
	on   map[string][]string // cluster names
	base map[string]string   // path the cluster is reached at
}

var reID = regexp.MustCompile(`vid\d+x`)

func (e *exchanges) hook(cluster string) func(w http.ResponseWriter, r *http.Request, body []byte) bool {
	return func(w http.ResponseWriter, r *http.Request, body []byte) bool {
		id := reID.FindString(r.URL.Path + "?" + r.URL.RawQuery)
		e.mu.Lock()
		a := e.want[id]
		e.got[id] = append(e.got[id], RecReq{Method: r.Method, Path: r.URL.Path, RawPath: r.URL.EscapedPath(), RawQuery: r.URL.RawQuery, Query: r.URL.Query(), Header: r.Header.Clone(), Body: body})
		e.on[id] = append(e.on[id], cluster)
		n := len(e.got[id])
		e.mu.Unlock()
		if a == nil {
			return false
		}
		if n <= a.retries {
			w.Header().Set("Retry-After", "1")
			w.WriteHeader(a.code)
			return true
		}
		if n <= a.moves {
			to := e.base[cluster] + "/moved" + r.URL.EscapedPath() + "?" + r.URL.RawQuery
			if n%2 == 0 {
				to = "http://" + r.Host + to
				if r.TLS != nil {
					to = "https" + strings.TrimPrefix(to, "http")
				}
			}
			w.Header().Set("Location", to)
			w.WriteHeader(a.code)
			return true
		}
		if a.drop == "early" {
			panic(http.ErrAbortHandler)
		}
		if a.ctype != "" {
			w.Header().Set("Content-Type", a.ctype)
		}
		if a.drop == "cut" {
			w.Header().Set("Content-Length", strconv.Itoa(len(a.body)+10))
			w.WriteHeader(a.status)
			_, _ = w.Write(a.body)
			panic(http.ErrAbortHandler)
		}
		w.WriteHeader(a.status)
		if r.Method != "HEAD" && a.status != 204 && a.status != 304 {
			_, _ = w.Write(a.body)
		}
		return true
	}
}

func (e *exchanges) expect(id string, a *answer) {
	e.mu.Lock()
	e.want[id] = a
	e.mu.Unlock()
}

func (e *exchanges) take(id string) ([]RecReq, []string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	r, o := e.got[id], e.on[id]
	delete(e.got, id)
	delete(e.on, id)
	delete(e.want, id)
	return r, o
}

type proxied struct {
	id      string
	method  string
	path    string // decoded
	rawPath string
	query   url.Values
	hdr     map[string]string
	body    []byte
	cluster string
	ans     *answer
	// expectations
	wantQuery url.Values
	wantDel   *metav1.DeleteOptions // semantic comparison of the body
	selector  Sel
	selSet    bool
}

var (
	statusBodies = []string{
		`{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"pods \"x\" not found","reason":"NotFound","details":{"name":"x","kind":"pods"},"code":%d}`,
		`{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"admission webhook \"<a&b>\" denied: ünï","reason":"Invalid","details":{"causes":[{"reason":"FieldValueInvalid","message":"m","field":"spec.x"}],"retryAfterSeconds":0},"code":%d}`,
		"{\"kind\":\"Status\",\"apiVersion\":\"v1\",\"metadata\":{},\"status\":\"Failure\",\"code\":%d}\n",
		`{"kind": "Status",   "apiVersion": "v1","unknownField":{"n":9007199254740993},"status":"Failure","message":"x","code":%d}`,
	}
	okBodies = []string{
		`{"kind":"Pod","apiVersion":"v1","metadata":{"name":"x","annotations":{"n":"<&>"}},"spec":{"n":9007199254740993,"f":1.0,"e":1e3}}` + "\n",
		`{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Success","details":{"uid":"1"}}`,
		`[1, 2,3]`, `"str"`, `{}`, ``, "plain text log line\nanother\n", "\x00\x01\xff binary", `{"a":1}{"b":2}`,
	}
)

func genAnswer(g *rand.Rand) *answer {
	a := &answer{ctype: "application/json"}
	switch n := g.Intn(20); {
	case n < 10:
		a.status = []int{200, 200, 200, 201, 202}[g.Intn(5)]
		a.body = []byte(pick(g, okBodies))
		if g.Intn(12) == 0 {
			a.body = bytes.Repeat([]byte("0123456789abcdef"), 1<<14+g.Intn(1<<12))
		}
		if !json.Valid(a.body) {
			a.ctype = pick(g, []string{"text/plain", "text/plain; charset=utf-8", "application/octet-stream", "application/json", "application/vnd.kubernetes.protobuf"})
		} else if g.Intn(8) == 0 {
			a.ctype = pick(g, []string{"application/json;charset=UTF-8", "application/yaml", "text/html"})
		}
	case n == 10:
		a.status = 204
	default:
		a.status = []int{400, 401, 403, 404, 405, 406, 409, 410, 413, 415, 422, 429, 500, 501, 502, 503, 504, 507}[g.Intn(18)]
		a.body = []byte(fmt.Sprintf(pick(g, statusBodies), a.status))
		if g.Intn(5) == 0 {
			a.body = []byte(`{"error":"not a status","code":1}`)
		}
	}
	return a
}

func genQueryParams(g *rand.Rand, q url.Values, n int) {
	for i := 0; i < n; i++ {
		switch g.Intn(6) {
		case 0:
			q.Set("fieldSelector", pick(g, []string{"metadata.name=x", "spec.nodeName!=a,status.phase=Running"}))
		case 1:
			q.Set(pick(g, []string{"pretty", "dryRun", "fieldValidation", "container", "export", "continue"}), pick(g, []string{"true", "All", "a b", "x&y=z", "ünï", "", "+1", "%25"}))
		case 2:
			q["command"] = []string{"ls", "-l", "", "a b;c"}
		case 3:
			q.Set("limit", strconv.Itoa(g.Intn(500)))
		case 4:
			q.Set(genParam(g), genParam(g))
		case 5:
			q.Set("timeoutSeconds", strconv.Itoa(1+g.Intn(500)))
		}
	}
}

func genParam(g *rand.Rand) string {
	s := ""
	for i := 0; i <= g.Intn(6); i++ {
		s += string([]rune("abcXYZ09-_.~!*'()/?:@&=+$,;% \"<>#é日")[g.Intn(35)])
	}
	for _, k := range []string{"watch", "cluster", "labelSelector", "fieldManager", "resourceVersion", "timeout"} {
		if s == k {
			return "z"
		}
	}
	return s
}

// genProxied makes a request that must reach the cluster.
func genProxied(g *rand.Rand, seq int, cached, uncached []*gvrDef, clusters []string, def string) *proxied {
	p := &proxied{id: fmt.Sprintf("vid%dx", seq), query: url.Values{}, hdr: map[string]string{}, cluster: def}
	d := uncached[g.Intn(len(uncached))]
	isCached := g.Intn(2) == 0
	if isCached {
		d = cached[g.Intn(len(cached))]
	}
	ns := ""
	if d.Namespaced {
		ns = pick(g, append([]string{"watch"}, nsNames...))
	}
	p.method = pick(g, []string{"GET", "POST", "PUT", "PATCH", "DELETE", "DELETE", "HEAD", "OPTIONS"})
	name := p.id
	if g.Intn(4) == 0 {
		name = pick(g, []string{"a:b-", "system:node@x-", "ü-", "a b-", "100%-", "a+b-", "x;y-", "a=b&c-"}) + p.id
	}
	kind := g.Intn(10)
	esc := func(s string) string { return url.PathEscape(s) }
	switch {
	case kind < 3: // object
		p.path, p.rawPath = d.path(ns)+"/"+name, d.path(ns)+"/"+esc(name)
	case kind < 5: // collection
		p.path = d.path(ns)
		p.rawPath = p.path
	case kind < 7: // subresource
		sub := pick(g, []string{"status", "scale", "log", "exec", "portforward", "proxy/a/b", "ephemeralcontainers", "finalize", "token"})
		p.path, p.rawPath = d.path(ns)+"/"+name+"/"+sub, d.path(ns)+"/"+esc(name)+"/"+sub
		if g.Intn(3) == 0 { // whatever the service behind the cluster's own proxy is asked for
			p.rawPath = d.path(ns) + "/" + esc(name) + "/proxy/" + pick(g, []string{"a%2Fb", "a//b", "//", "a/./b", "a/../b", "50%25", "what%3Fx", "%2e%2e/x", "a%3Bb", "x%00y", "", "a/", "%E6%97%A5/%F0%9F%98%80", "a+b%2Bc", "%252F"})
			p.path = p.rawPath
			if u, err := url.PathUnescape(p.rawPath); err == nil {
				p.path = u
			}
		}
	case kind < 9:
		p.path = pick(g, []string{"/version", "/api", "/apis", "/api/v1", "/apis/apps/v1", "/openapi/v2", "/healthz", "/readyz/ping", "/", "/logs/x", "/apis/custom.metrics.k8s.io/v1beta1", "/.well-known/openid-configuration"})
		p.rawPath = p.path
	default:
		pre := pick(g, []string{"/x/", "/x/", "//x/", "/x//", "///", "/x/../", "/%2F/", "/x/./"})
		p.rawPath = pre + esc(name)
		p.path, _ = url.PathUnescape(p.rawPath)
	}
	collection := kind >= 3 && kind < 5 || kind >= 7 && kind < 9
	if (p.method == "GET" || p.method == "HEAD") && collection || collection || !strings.Contains(p.path, p.id) {
		p.query.Set("vid", p.id)
	}
	if p.method == "GET" && kind < 3 {
		p.query.Set("vid", p.id) // a plain GET of a cached object would be served from the cache
	}
	genQueryParams(g, p.query, g.Intn(4))
	if g.Intn(10) == 0 {
		p.query.Set("watch", pick(g, []string{"false", "0", "False"}))
	}
	p.wantQuery = url.Values{}
	for k, v := range p.query {
		p.wantQuery[k] = append([]string{}, v...)
	}
	if g.Intn(3) == 0 {
		p.selector, p.selSet = genSel(g, labelKeys, labelVs, 1+g.Intn(3)), true
		p.query.Set("labelSelector", p.selector.render(g))
		p.wantQuery.Set("labelSelector", "?")
		if g.Intn(3) == 0 { // with a query in it
			pg := page.Paginate{Page: 1, PageSize: 2, Search: "name=x"}
			o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: p.query.Get("labelSelector")}, pg)
			if err != nil {
				panic(refused(err.Error()))
			}
			p.query.Set("labelSelector", o.LabelSelector)
		}
	} else if g.Intn(12) == 0 {
		bad := pick(g, []string{"a=b=c", "x in", "a>1", "(", "!!", "a in (b", "=,="})
		p.query.Set("labelSelector", bad)
		p.wantQuery.Set("labelSelector", bad)
	}
	switch p.method {
	case "POST", "PUT", "OPTIONS":
		p.body = []byte(pick(g, append(okBodies, `{"kind":"Eviction","apiVersion":"policy/v1beta1"}`, "a: b\n")))
		if g.Intn(2) == 0 {
			p.hdr["Content-Type"] = pick(g, []string{"application/json", "application/vnd.kubernetes.protobuf", "application/yaml", "text/plain; charset=utf-8"})
		}
		if g.Intn(15) == 0 {
			p.body = bytes.Repeat([]byte("x"), pickInt(g, []int{1 << 20, 1<<20 + 1, 3 << 20, 5<<20 - 7}))
		}
		if p.method != "OPTIONS" && g.Intn(3) == 0 {
			p.query.Set("fieldManager", "kubectl")
			p.wantQuery.Set("fieldManager", "kubectl")
		}
	case "PATCH":
		t := []types.PatchType{types.JSONPatchType, types.MergePatchType, types.StrategicMergePatchType, types.ApplyPatchType}[g.Intn(4)]
		p.hdr["Content-Type"] = string(t)
		p.body = []byte(pick(g, []string{`[{"op":"remove","path":"/metadata/labels/a~1b"}]`, `{"spec":{"n":9007199254740993,"x":null}}`, "apiVersion: v1\nkind: Pod\n"}))
		if g.Intn(3) == 0 {
			p.query.Set("fieldManager", "me")
			p.wantQuery.Set("fieldManager", "me")
			p.query.Set("force", "true")
			p.wantQuery.Set("force", "true")
		}
	case "DELETE":
		if g.Intn(4) > 0 {
			o := metav1.DeleteOptions{TypeMeta: metav1.TypeMeta{Kind: "DeleteOptions", APIVersion: "v1"}}
			if g.Intn(2) == 0 {
				u, r := types.UID("uid-1"), "123"
				o.Preconditions = &metav1.Preconditions{UID: &u}
				if g.Intn(2) == 0 {
					o.Preconditions.ResourceVersion = &r
				}
			}
			if g.Intn(2) == 0 {
				s := int64(g.Intn(3) * 30)
				o.GracePeriodSeconds = &s
			}
			if g.Intn(2) == 0 {
				pp := []metav1.DeletionPropagation{metav1.DeletePropagationForeground, metav1.DeletePropagationOrphan, metav1.DeletePropagationBackground}[g.Intn(3)]
				o.PropagationPolicy = &pp
			}
			if g.Intn(4) == 0 {
				b := true
				o.OrphanDependents = &b
			}
			if g.Intn(3) == 0 {
				o.DryRun = []string{metav1.DryRunAll}
			}
			if g.Intn(2) == 0 { // addressed with the helper; a dry run is added to its carrier afterwards
				dry := o.DryRun
				o.DryRun = nil
				cl := pick(g, clusters)
				w, err := page.QueryDeleteOptions(o, cl)
				if err != nil {
					panic(refused(err.Error()))
				}
				o.DryRun = dry
				w.DryRun = append(w.DryRun, dry...)
				p.cluster = cl
				p.wantDel = &o
				p.body, _ = json.Marshal(w)
				if g.Intn(4) == 0 { // fields this version does not know
					p.body = append([]byte(`{"ignoreStoreReadErrorWithClusterBreakingPotential":true,`), p.body[1:]...)
				}
			} else {
				p.body, _ = json.Marshal(o)
				if g.Intn(3) == 0 { // fields this version does not know
					p.body = append([]byte(`{"ignoreStoreReadErrorWithClusterBreakingPotential":true,`), p.body[1:]...)
				}
			}
		}
	}
	if p.cluster == def && g.Intn(4) == 0 && p.method != "DELETE" {
		cl := pick(g, clusters)
		p.cluster = cl
		switch {
		case p.method == "GET" || p.method == "HEAD":
			p.query.Set("resourceVersion", marker+cl)
		case p.query.Get("fieldManager") == "":
			p.query.Set("fieldManager", marker+cl)
		default:
			p.query.Set("cluster", cl)
		}
	} else if p.cluster == def && g.Intn(4) == 0 && (p.method == "GET" || p.method == "HEAD") {
		v := pick(g, []string{"0", "12345"})
		p.query.Set("resourceVersion", v)
		p.wantQuery.Set("resourceVersion", v)
	}
	p.ans = genAnswer(g)
	return p
}

func (p *proxied) target() string {
	t := p.rawPath
	if len(p.query) > 0 {
		t += "?" + p.query.Encode()
	}
	return t
}

// judge compares what the cluster received and what the client got.
func (p *proxied) judge(resp *Resp, got []RecReq, on []string) (string, string) {
	want := 1 + p.ans.retries + p.ans.moves
	if resp.Hang {
		return "hang", "no answer within 60 s"
	}
	if resp.Aborted != "" {
		return "aborted", "the handler died: " + resp.Aborted
	}
	if len(got) != want {
		return "count", fmt.Sprintf("the cluster received the request %d times instead of %d (status %d %s)", len(got), want, resp.Status, trunc(resp.Body))
	}
	for i, r := range got {
		if p.ans.moves > 0 {
			moved := strings.Repeat("/moved", i)
			if !strings.HasPrefix(r.RawPath, moved) {
				return "redirection", fmt.Sprintf("redirected to %s%s, it went to %s", moved, p.rawPath, r.RawPath)
			}
			r.Path, r.RawPath = strings.TrimPrefix(r.Path, moved), strings.TrimPrefix(r.RawPath, moved)
		}
		if on[i] != p.cluster {
			return "cluster", fmt.Sprintf("cluster %q received the request for %q", on[i], p.cluster)
		}
		if r.Method != p.method {
			return "method", fmt.Sprintf("%s arrived as %s", p.method, r.Method)
		}
		if r.Path != p.path || !samePath(r.RawPath, p.rawPath) {
			return "path", fmt.Sprintf("path %q arrived as %q", p.rawPath, r.RawPath)
		}
		q := url.Values{}
		for k, v := range r.Query {
			if k != "timeout" && k != "cluster" {
				q[k] = v
			}
		}
		if p.selSet {
			s, err := k8slabels.Parse(q.Get("labelSelector"))
			if err != nil || strings.Contains(q.Get("labelSelector"), "ckube.daocloud.io/query") {
				return "selector", fmt.Sprintf("the selector arrived as %q: %v", q.Get("labelSelector"), err)
			}
			sg := rand.New(rand.NewSource(int64(len(p.target()))))
			for _, m := range genLabelSets(sg, 10) {
				if s.Matches(k8slabels.Set(m)) != p.selector.match(m) {
					return "selector", fmt.Sprintf("selector %q arrived as %q, which differs on %v", p.query.Get("labelSelector"), q.Get("labelSelector"), m)
				}
			}
			q.Set("labelSelector", "?")
		}
		if !reflect.DeepEqual(q, p.wantQuery) {
			return "query", fmt.Sprintf("query %v arrived as %v", p.wantQuery, q)
		}
		if p.wantDel != nil {
			o := metav1.DeleteOptions{}
			if err := json.Unmarshal(r.Body, &o); err != nil || !reflect.DeepEqual(normDel(o), normDel(*p.wantDel)) {
				return "delete-options", fmt.Sprintf("deletion options %s arrived as %s", p.body, r.Body)
			}
			if u := []byte("ignoreStoreReadError"); bytes.Contains(p.body, u) != bytes.Contains(r.Body, u) {
				return "delete-options", fmt.Sprintf("deletion options %s arrived as %s", p.body, r.Body)
			}
		} else if p.method != "GET" && p.method != "HEAD" && !bytes.Equal(r.Body, p.body) {
			return "body", fmt.Sprintf("a body of %d bytes arrived as %d bytes: %s", len(p.body), len(r.Body), trunc(r.Body))
		}
		if ct := p.hdr["Content-Type"]; p.method != "PATCH" && p.method != "GET" && ct != "" && len(p.body) > 0 && r.Header.Get("Content-Type") != ct {
			return "content-type", fmt.Sprintf("a body of type %q arrived as %q", ct, r.Header.Get("Content-Type"))
		}
		if p.method == "PATCH" && r.Header.Get("Content-Type") != p.hdr["Content-Type"] {
			return "patch-type", fmt.Sprintf("patch type %s arrived as %s", p.hdr["Content-Type"], r.Header.Get("Content-Type"))
		}
	}
	if p.ans.drop != "" {
		if resp.Status < 400 || resp.Status >= 600 {
			return "dropped", fmt.Sprintf("the cluster's connection ended (%s) and the client was answered %d: %s", p.ans.drop, resp.Status, trunc(resp.Body))
		}
		return "", ""
	}
	if resp.Status != p.ans.status {
		return "status", fmt.Sprintf("status %d came back as %d: %s", p.ans.status, resp.Status, trunc(resp.Body))
	}
	if p.method != "HEAD" && !bytes.Equal(resp.Body, p.ans.body) && !(p.ans.status == 204 && len(resp.Body) == 0) {
		return "response-body", fmt.Sprintf("a response of %d bytes came back as %d bytes: %s", len(p.ans.body), len(resp.Body), trunc(resp.Body))
	}
	if ct := resp.Header.Get("Content-Type"); len(resp.Body) > 0 && ct != p.ans.ctype {
		return "response-type", fmt.Sprintf("an answer of type %q came back as %q", p.ans.ctype, ct)
	}
	return "", ""
}

// samePath tells whether two escaped paths have the same segments.
func samePath(a, b string) bool {
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		x, err1 := url.PathUnescape(as[i])
		y, err2 := url.PathUnescape(bs[i])
		if err1 != nil || err2 != nil || x != y {
			return false
		}
	}
	return true
}

func normDel(o metav1.DeleteOptions) metav1.DeleteOptions {
	if len(o.DryRun) == 0 {
		o.DryRun = nil
	}
	return o
}

func (p *proxied) wit() map[string]interface{} {
	b := string(p.body)
	if len(b) > 600 {
		b = b[:600]
	}
	return map[string]interface{}{"method": p.method, "target": p.target(), "body": b, "header": p.hdr, "cluster": p.cluster, "answer": fmt.Sprintf("%d %s", p.ans.status, trunc(p.ans.body))}
}

func proxyDefs() (cached, uncached []*gvrDef) {
	cached = []*gvrDef{defPods, defDeps, defTools, defNS}
	uncached = []*gvrDef{
		{V: "v1", R: "secrets", Kind: "Secret", Namespaced: true},
		{V: "v1", R: "nodes", Kind: "Node"},
		{G: "batch", V: "v1", R: "jobs", Kind: "Job", Namespaced: true},
		{G: "example.io", V: "v2", R: "gadgets", Kind: "Gadget"},
		{G: "apps", V: "v1beta2", R: "deployments", Kind: "Deployment", Namespaced: true},
	}
	return
}

func c17(c *Ctx) {
	c.Rule("a case is one proxied request; what the cluster received and what the client got are compared with what was sent and scripted; distinct by method, target, body and answer; all are non-trivial")
	c.Assume("error bodies are JSON (client-go does not hand out others); bodies of GET and HEAD requests are not considered; request headers other than the content type are not considered; redirections by the cluster are followed, not answered; watches are decided by C19")
	g := c.Rand(1)
	cached, uncached := proxyDefs()
	clusters := []string{"c1", "c2", "kubernetes-admin@kubernetes"}
	ex := &exchanges{want: map[string]*answer{}, got: map[string][]RecReq{}, on: map[string][]string{}, base: map[string]string{}}
	w := NewWorld(cached, clusters, "c1", "")
	defer w.Close()
	for cl, u := range w.Ups {
		u.Hook = ex.hook(cl)
		ex.base[cl] = u.Base
	}
	seq := 0
	next := func(g *rand.Rand) *proxied {
		seq++
		p := genProxied(g, seq, cached, uncached, clusters, "c1")
		ex.expect(p.id, p.ans)
		return p
	}
	judge := func(p *proxied, resp *Resp) {
		got, on := ex.take(p.id)
		if k, what := p.judge(resp, got, on); k != "" {
			c.Violate(k+"/"+p.method, what, p.wit())
		}
		c.Count("requests_"+p.method, 1)
		c.Count("requests_proxied", 1)
		c.Eval(p.method + p.target() + string(p.body) + string(p.ans.body) + strconv.Itoa(p.ans.status))
	}
	n := c.N(6000, 80000)
	for i := 0; i < n && !c.Stop(); i++ {
		p := next(g)
		resp := do(w.Router, p.method, p.target(), p.hdr, p.body)
		judge(p, resp)
		if i%1500 == 0 {
			c.Sample(p.wit())
		}
	}
	// at the same time, and with retries
	rounds := c.N(6, 60)
	for r := 0; r < rounds && !c.Stop(); r++ {
		var wg sync.WaitGroup
		for i := 0; i < 60; i++ {
			p := next(g)
			if i < 12 {
				p.ans.retries, p.ans.code = 1+g.Intn(2), []int{429, 503, 500}[g.Intn(3)]
				if p.ans.status == 429 || p.ans.status >= 500 {
					p.ans.status, p.ans.body = 200, []byte(`{"a":1}`)
				}
				c.Count("retries_asked_for", int64(p.ans.retries))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				judge(p, do(w.Router, p.method, p.target(), p.hdr, p.body))
			}()
		}
		if !waitTimeout(&wg, 120*time.Second) {
			c.Violate("blocked", "concurrent requests did not finish within 120 s", stacks())
			return
		}
	}
	// with connections that end before the answer is complete: what changes something is not sent twice
	n = c.N(400, 4000)
	for i := 0; i < n && !c.Stop(); i++ {
		p := next(g)
		if p.method != "POST" && p.method != "PUT" && p.method != "PATCH" && p.method != "DELETE" {
			ex.take(p.id)
			continue
		}
		p.ans.drop = pick(g, []string{"early", "cut"})
		judge(p, do(w.Router, p.method, p.target(), p.hdr, p.body))
		c.Count("connections_dropped", 1)
	}
	// redirected by the cluster, once or more often
	n = c.N(400, 4000)
	for i := 0; i < n && !c.Stop(); i++ {
		p := next(g)
		if u, err := url.Parse(p.rawPath); err != nil || u.ResolveReference(&url.URL{}).EscapedPath() != p.rawPath || strings.Contains(p.rawPath, "//") {
			ex.take(p.id)
			continue // no redirection leads there
		}
		p.ans.moves, p.ans.code = 1+g.Intn(3), []int{307, 308}[g.Intn(2)]
		if p.method == "GET" || p.method == "HEAD" {
			p.ans.code = []int{301, 302, 303, 307, 308}[g.Intn(5)]
		}
		judge(p, do(w.Router, p.method, p.target(), p.hdr, p.body))
		c.Count("redirections", int64(p.ans.moves))
	}
	// through real connections, with chunked bodies
	srv := startServer(w.Router)
	defer srv.Close()
	cli := &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	n = c.N(400, 4000)
	for i := 0; i < n && !c.Stop(); i++ {
		p := next(g)
		var body io.Reader
		if len(p.body) > 0 {
			body = bytes.NewReader(p.body)
			if g.Intn(2) == 0 {
				body = io.MultiReader(bytes.NewReader(p.body[:len(p.body)/2]), bytes.NewReader(p.body[len(p.body)/2:])) // chunked
			}
		}
		req, err := http.NewRequest(p.method, srv.URL+p.target(), body)
		if err != nil {
			continue
		}
		for k, v := range p.hdr {
			req.Header.Set(k, v)
		}
		resp, err := cli.Do(req)
		if err != nil {
			c.Violate("connection/"+p.method, "no complete response: "+err.Error(), p.wit())
			continue
		}
		b, err := io.ReadAll(resp.Body)
		_ = resp.Body.Close()
		if err != nil {
			c.Violate("connection/"+p.method, "response cut short: "+err.Error(), p.wit())
			continue
		}
		judge(p, &Resp{Status: resp.StatusCode, Header: resp.Header, Body: b})
		c.Count("over_real_connections", 1)
	}
	c.Need("requests_proxied", 2000)
	c.Need("retries_asked_for", 10)
	c.Need("connections_dropped", 100)
	c.Need("redirections", 300)
}

func sortedStrings(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
