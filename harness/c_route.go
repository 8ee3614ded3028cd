package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	v1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C18", "exploration", c18)
}

// routeWorld has upstreams which answer typed objects telling where they come from.
type routeWorld struct {
	*World
	mu  sync.Mutex
	got map[string][]RecReq // request id -> what arrived
	on  map[string][]string
}

func newRouteWorld(clusters []string, def string) *routeWorld {
	cached, _ := proxyDefs()
	w := &routeWorld{World: NewWorld(cached, clusters, def, ""), got: map[string][]RecReq{}, on: map[string][]string{}}
	for cl, u := range w.Ups {
		cl := cl
		u.Hook = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			id := reID.FindString(r.URL.Path + "?" + r.URL.RawQuery + string(body))
			w.mu.Lock()
			w.got[id] = append(w.got[id], RecReq{Method: r.Method, Path: r.URL.Path, RawQuery: r.URL.RawQuery, Query: r.URL.Query(), Body: body})
			w.on[id] = append(w.on[id], cl)
			w.mu.Unlock()
			rw.Header().Set("Content-Type", "application/json")
			from, _ := json.Marshal(cl)
			obj := fmt.Sprintf(`{"kind":"Secret","apiVersion":"v1","metadata":{"name":"x","annotations":{"from":%s}}}`, from)
			switch {
			case isWatch(r):
				_, _ = io.WriteString(rw, `{"type":"ADDED","object":`+obj+"}\n")
			case r.Method == "DELETE":
				_, _ = io.WriteString(rw, `{"kind":"Status","apiVersion":"v1","status":"Success","message":`+string(from)+`}`)
			case r.Method == "GET" && !strings.Contains(r.URL.Path, "vid"):
				_, _ = io.WriteString(rw, `{"kind":"SecretList","apiVersion":"v1","metadata":{},"items":[`+obj+`]}`)
			default:
				_, _ = io.WriteString(rw, obj)
			}
			return true
		}
	}
	return w
}

func (w *routeWorld) take(id string) ([]RecReq, []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	r, o := w.got[id], w.on[id]
	delete(w.got, id)
	delete(w.on, id)
	return r, o
}

var routeSets = [][]string{
	{"c1", "c1-b", "dsm-cluster-c1", "C1"},
	{"kubernetes-admin@kubernetes", "kubernetes", "admin@kubernetes:6443/x", "a b"},
	{"ü-日本", "x=y", "x,y", "x;y"},
	{"dsm-cluster-", "dsm-cluster-dsm-cluster-", "All", "0"},
	{"\"q\"", "a&b=c", "100%", "%61"},
	{"default", "arn:aws:eks:eu-west-1:1234:cluster/prod", "prod", "cluster/prod"},
}

// oneRoute is one request with a cluster given in some way.
type oneRoute struct {
	id   string
	how  string
	want []string // the clusters it may reach, nil for none (404)
}

func c18(c *Ctx) {
	c.Rule("a case is one request addressing a cluster in one way; the upstreams that received it, what they received, and the client's result are judged; distinct by way, operation, addressed cluster, set of clusters and default; all are non-trivial")
	c.Assume("a cluster given explicitly (by helper or parameter) counts before the query's selection, other combinations of carriers are not judged; a cluster selection of the query is a positive one, and a forwarded request reaches one of the selected clusters; an unknown cluster gets 404 only on requests that are not answered from cache")
	g := c.Rand(1)
	c18helpers(c, g)
	seq := 0
	for si, set := range routeSets {
		for di := 0; di < 3 && !c.Stop(); di++ {
			def := set[(di+si)%len(set)]
			if di == 2 {
				def = "nowhere"
			}
			w := newRouteWorld(set, def)
			srv := startServer(w.Router)
			cs := kubernetes.NewForConfigOrDie(&rest.Config{Host: srv.URL, QPS: 1e6, Burst: 1000000})
			n := c.N(120, 1500)
			var wg sync.WaitGroup
			for t := 0; t < 4; t++ {
				tg := rand.New(rand.NewSource(g.Int63()))
				base := seq
				seq += n
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < n && !c.Stop(); i++ {
						c18one(c, w, cs, tg, fmt.Sprintf("vid%dx", base+i))
					}
				}()
			}
			if !waitTimeout(&wg, 240*time.Second) {
				c.Violate("blocked", "the requests did not finish within 240 s", stacks())
			}
			srv.CloseClientConnections()
			srv.Close()
			w.Close()
		}
	}
	c.Need("reached_the_cluster", 2000)
	c.Need("unknown_cluster", 300)
	c.Need("no_cluster_given", 200)
	c.Need("trial_deletions", 50)
	c.Need("helpers_judged", 300)
}

func nearMisses(set []string) []string {
	r := []string{"unknown", "nowhere-2"}
	for _, s := range set {
		r = append(r, s+"x", strings.ToUpper(s)+"-", " "+s, marker+s+"-", url.QueryEscape(s)+"?")
	}
	var res []string
	for _, s := range r {
		known := false
		for _, k := range set {
			known = known || k == s
		}
		if !known {
			res = append(res, s)
		}
	}
	return res
}

func c18one(c *Ctx, w *routeWorld, cs *kubernetes.Clientset, g *rand.Rand, id string) {
	cl := pick(g, w.Clusters)
	known := true
	if g.Intn(5) == 0 {
		cl, known = pick(g, nearMisses(w.Clusters)), false
	}
	given := g.Intn(6) > 0
	want := []string{cl}
	if !given {
		want, known = []string{w.Default}, w.Default != "nowhere"
	}
	ns := pick(g, []string{"default", "a", "dsm-cluster-c1"})
	sec, pods := cs.CoreV1().Secrets(ns), cs.CoreV1().Pods(ns)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	op := []string{"get", "get", "get-sub", "create", "update", "update-status", "patch", "delete", "delete-collection", "list", "watch", "watch-cached",
		"param-get", "param-list", "param-post", "param-delete", "param-cached-write", "param-and-selection", "helper-and-selection"}[g.Intn(19)]
	must := func(err error) {
		if err != nil {
			c.Violate("helper-refuses", fmt.Sprintf("an option helper refuses cluster %q: %v", cl, err), op)
		}
	}
	var err error
	var from string
	wantQ := url.Values{}
	var wantBody *metav1.DeleteOptions
	fromObj := func(o *v1.Secret) {
		if o != nil {
			from = o.Annotations["from"]
		}
	}
	body := &v1.Secret{ObjectMeta: metav1.ObjectMeta{Name: id}}
	skipQ := false
	switch op {
	case "get":
		o := metav1.GetOptions{}
		if given {
			o, err = page.QueryGetOptions(o, cl)
			must(err)
		}
		var s *v1.Secret
		s, err = sec.Get(ctx, id, o)
		fromObj(s)
	case "get-sub": // subresource of a cached type
		o := metav1.GetOptions{}
		if given {
			o, err = page.QueryGetOptions(o, cl)
			must(err)
		}
		var s v1.Secret
		err = cs.CoreV1().RESTClient().Get().Namespace(ns).Resource("pods").Name(id).SubResource("status").VersionedParams(&o, scheme.ParameterCodec).Do(ctx).Into(&s)
		fromObj(&s)
	case "create":
		o := metav1.CreateOptions{}
		if g.Intn(2) == 0 {
			o.DryRun = []string{"All"}
			wantQ["dryRun"] = o.DryRun
		}
		if given {
			o, err = page.QueryCreateOptions(o, cl)
			must(err)
		}
		var s *v1.Secret
		s, err = sec.Create(ctx, body, o)
		fromObj(s)
	case "update":
		o := metav1.UpdateOptions{}
		if g.Intn(2) == 0 {
			o.DryRun = []string{"All"}
			wantQ["dryRun"] = o.DryRun
		}
		if given {
			o, err = page.QueryUpdateOptions(o, cl)
			must(err)
		}
		var s *v1.Secret
		s, err = sec.Update(ctx, body, o)
		fromObj(s)
	case "update-status":
		o := metav1.UpdateOptions{}
		if given {
			o, err = page.QueryUpdateOptions(o, cl)
			must(err)
		}
		var s v1.Secret
		err = cs.CoreV1().RESTClient().Put().Namespace(ns).Resource("pods").Name(id).SubResource("status").VersionedParams(&o, scheme.ParameterCodec).Body(&v1.Pod{ObjectMeta: metav1.ObjectMeta{Name: id}}).Do(ctx).Into(&s)
		fromObj(&s)
	case "patch":
		o := metav1.PatchOptions{}
		if g.Intn(2) == 0 {
			b := true
			o.Force = &b
			wantQ["force"] = []string{"true"}
		}
		if given {
			o, err = page.QueryPatchOptions(o, cl)
			must(err)
		}
		var s *v1.Secret
		s, err = sec.Patch(ctx, id, types.MergePatchType, []byte(`{"a":"`+id+`"}`), o)
		fromObj(s)
	case "delete", "delete-collection":
		o := metav1.DeleteOptions{}
		if g.Intn(2) == 0 {
			u := types.UID("u1")
			o.Preconditions = &metav1.Preconditions{UID: &u}
		}
		if g.Intn(2) == 0 {
			z := int64(0)
			o.GracePeriodSeconds = &z
		}
		plain := o
		if given {
			o, err = page.QueryDeleteOptions(o, cl)
			must(err)
		}
		if g.Intn(3) == 0 { // a trial, asked for after the helper has been used
			o.DryRun = append(o.DryRun, "All")
			plain.DryRun = []string{"All"}
			c.Count("trial_deletions", 1)
		}
		wantBody = &plain
		if op == "delete" {
			err = sec.Delete(ctx, id, o)
		} else {
			lo := metav1.ListOptions{FieldSelector: "metadata.name=" + id}
			wantQ.Set("fieldSelector", lo.FieldSelector)
			if g.Intn(2) == 0 {
				lo.LabelSelector = "a=b"
				wantQ.Set("labelSelector", "a=b")
			}
			err = sec.DeleteCollection(ctx, o, lo)
		}
		from = "?"
	case "list", "watch", "watch-cached":
		lo := metav1.ListOptions{FieldSelector: "metadata.name=" + id}
		wantQ.Set("fieldSelector", lo.FieldSelector)
		pg := page.Paginate{}
		if g.Intn(3) == 0 {
			pg.Page, pg.PageSize = 1, 10
		}
		if g.Intn(3) == 0 {
			pg.Search = "name=x"
		}
		if given {
			sel := []string{cl}
			if known && g.Intn(3) == 0 {
				sel = append(sel, pick(g, w.Clusters))
			}
			if e := pg.Clusters(sel); e != nil {
				c.Count("unselectable_names", 1) // not a value of a label selector
				return
			}
			want = sel
		}
		if g.Intn(2) == 0 {
			lo.LabelSelector = "a=b,c in (d)"
			wantQ.Set("labelSelector", "?")
		}
		var e error
		lo, e = page.QueryListOptions(lo, pg)
		must(e)
		skipQ = true
		if op == "list" {
			var l *v1.SecretList
			l, err = sec.List(ctx, lo)
			if err == nil && len(l.Items) == 1 {
				fromObj(&l.Items[0])
			}
			break
		}
		lo.Watch = true
		r := cs.CoreV1().RESTClient().Get().Namespace(ns).Resource("secrets")
		if op == "watch-cached" {
			r = cs.CoreV1().RESTClient().Get().Namespace(ns).Resource("pods")
		}
		var rd io.ReadCloser
		rd, err = r.VersionedParams(&lo, scheme.ParameterCodec).Stream(ctx)
		if err == nil {
			b, _ := io.ReadAll(rd)
			_ = rd.Close()
			ev := struct{ Object v1.Secret }{}
			_ = json.Unmarshal(b, &ev)
			from = ev.Object.Annotations["from"]
		}
	default: // the cluster parameter
		method, target, b := "GET", "/api/v1/namespaces/"+ns+"/secrets/"+id, []byte(nil)
		q := url.Values{}
		switch op {
		case "param-and-selection", "helper-and-selection":
			// the cluster which is addressed explicitly counts, whatever the query selects
			target = "/api/v1/namespaces/" + ns + "/secrets"
			q.Set("fieldSelector", "metadata.name="+id)
			pg, sel := page.Paginate{}, []string{}
			for n := 1 + g.Intn(3); n > 0; n-- {
				sel = append(sel, pick(g, w.Clusters))
			}
			if pg.Clusters(sel) != nil || !given {
				c.Count("unselectable_names", 1)
				return
			}
			lo, e := page.QueryListOptions(metav1.ListOptions{LabelSelector: pick(g, []string{"", "a=b", "c in (d,e)"})}, pg)
			must(e)
			q.Set("labelSelector", lo.LabelSelector)
			if op == "helper-and-selection" {
				method = "DELETE"
				do, e := page.QueryDeleteOptions(metav1.DeleteOptions{}, cl)
				must(e)
				b, _ = json.Marshal(do)
			}
			skipQ, wantQ = true, nil
		case "param-list":
			target = "/api/v1/namespaces/" + ns + "/secrets"
			q.Set("fieldSelector", "metadata.name="+id)
			wantQ.Set("fieldSelector", "metadata.name="+id)
		case "param-post":
			method, target, b = "POST", "/api/v1/namespaces/"+ns+"/secrets/"+id, []byte(`{"a":"`+id+`"}`)
		case "param-delete":
			method = "DELETE"
		case "param-cached-write":
			method, target, b = "PUT", "/api/v1/namespaces/"+ns+"/pods/"+id, []byte(`{"a":"`+id+`"}`)
		}
		if given && op != "helper-and-selection" {
			q.Set("cluster", cl)
		}
		resp := do(w.Router, method, target+"?"+q.Encode(), nil, b)
		if resp.Status == 404 {
			err = apierrors.NewNotFound(v1.Resource("secrets"), id)
		} else if resp.Status != 200 {
			err = fmt.Errorf("status %d %s", resp.Status, trunc(resp.Body))
		}
		from = "?"
	}
	_ = pods
	got, on := w.take(id)
	wit := map[string]interface{}{"operation": op, "given": given, "addressed": want, "clusters": w.Clusters, "default": w.Default, "reached": on, "error": fmt.Sprint(err)}
	c.Eval(fmt.Sprint(op, given, want, w.Clusters, w.Default))
	if !known {
		if len(on) > 0 {
			c.Violate("unknown-contact/"+op, fmt.Sprintf("a request for the unknown cluster %q reached %q", want, on), wit)
		} else if !is404(err) {
			c.Violate("unknown-status/"+op, fmt.Sprintf("a request for the unknown cluster %q was answered %v instead of 404", want, err), wit)
		}
		c.Count("unknown_cluster", 1)
		return
	}
	if err != nil {
		c.Violate("failed/"+op, fmt.Sprintf("a request for cluster %q failed: %v", want, err), wit)
		return
	}
	okTarget := len(on) == 1
	if okTarget {
		okTarget = false
		for _, s := range want {
			okTarget = okTarget || s == on[0]
		}
	}
	if !okTarget {
		c.Violate("target/"+op, fmt.Sprintf("a request for cluster %q reached %q", want, on), wit)
		return
	}
	if from != "?" && from != on[0] {
		c.Violate("answer/"+op, fmt.Sprintf("the answer comes from %q instead of %q", from, on[0]), wit)
	}
	r := got[0]
	if q := r.Query; strings.HasPrefix(q.Get("fieldManager"), marker) || strings.HasPrefix(q.Get("resourceVersion"), marker) || strings.Contains(r.RawQuery, "ckube.daocloud.io") {
		c.Violate("marker/"+op, "the proxy's marker reached the cluster: "+r.RawQuery, wit)
	}
	q := url.Values{}
	for k, v := range r.Query {
		if k != "timeout" && k != "cluster" && k != "watch" {
			q[k] = v
		}
	}
	if skipQ && wantQ.Get("labelSelector") == "?" && q.Get("labelSelector") != "" {
		q.Set("labelSelector", "?")
	}
	if wantQ != nil && !reflect.DeepEqual(q, wantQ) {
		c.Violate("query/"+op, fmt.Sprintf("query %v arrived as %v", wantQ, q), wit)
	}
	if wantBody != nil {
		o := metav1.DeleteOptions{}
		_ = json.Unmarshal(r.Body, &o)
		o.TypeMeta = metav1.TypeMeta{}
		if !reflect.DeepEqual(normDel(o), normDel(*wantBody)) {
			c.Violate("delete-options", fmt.Sprintf("deletion options %+v arrived as %s", *wantBody, r.Body), wit)
		}
	}
	c.Count("reached_the_cluster", 1)
	if !given {
		c.Count("no_cluster_given", 1)
	}
}

func is404(err error) bool {
	se, ok := err.(apierrors.APIStatus)
	return ok && se.Status().Code == 404
}

// c18helpers: the option helpers set their carrier and nothing else, or refuse.
func c18helpers(c *Ctx, g *rand.Rand) {
	names := []string{"c1", "", "a@b", "ü", "x,y", "All"}
	tm := metav1.TypeMeta{Kind: "k", APIVersion: "v"}
	for i := 0; i < 60; i++ {
		cl := pick(g, names)
		used := g.Intn(2) == 0
		mgr := ""
		if used {
			mgr = pick(g, []string{"kubectl", "0", "dsm-cluster-c1", " "})
		}
		dry := []string(nil)
		if g.Intn(2) == 0 {
			dry = []string{"All"}
		}
		b := g.Intn(2) == 0
		judge := func(name, carrier string, in, out, wantOut interface{}, err error, used bool) {
			c.Count("helpers_judged", 1)
			c.Eval(fmt.Sprint("helper", name, in, cl))
			if used {
				if err == nil {
					c.Violate("overwrites/"+name, fmt.Sprintf("%s does not refuse options whose %s is in use: %+v became %+v", name, carrier, in, out), nil)
				}
				return
			}
			if err != nil {
				c.Violate("refuses/"+name, fmt.Sprintf("%s refuses %+v: %v", name, in, err), nil)
			} else if !reflect.DeepEqual(out, wantOut) {
				c.Violate("changes/"+name, fmt.Sprintf("%s made %+v of %+v", name, out, in), nil)
			}
		}
		{
			in := metav1.GetOptions{TypeMeta: tm, ResourceVersion: mgr}
			out, err := page.QueryGetOptions(in, cl)
			w := in
			w.ResourceVersion = out.ResourceVersion
			judge("QueryGetOptions", "resourceVersion", in, out, w, err, used)
		}
		{
			in := metav1.CreateOptions{TypeMeta: tm, FieldManager: mgr, DryRun: dry}
			out, err := page.QueryCreateOptions(in, cl)
			w := in
			w.FieldManager = out.FieldManager
			judge("QueryCreateOptions", "fieldManager", in, out, w, err, used)
		}
		{
			in := metav1.UpdateOptions{TypeMeta: tm, FieldManager: mgr, DryRun: dry}
			out, err := page.QueryUpdateOptions(in, cl)
			w := in
			w.FieldManager = out.FieldManager
			judge("QueryUpdateOptions", "fieldManager", in, out, w, err, used)
		}
		{
			in := metav1.PatchOptions{TypeMeta: tm, FieldManager: mgr, DryRun: dry, Force: &b}
			out, err := page.QueryPatchOptions(in, cl)
			w := in
			w.FieldManager = out.FieldManager
			judge("QueryPatchOptions", "fieldManager", in, out, w, err, used)
		}
		{
			z := int64(5)
			in := metav1.DeleteOptions{TypeMeta: tm, DryRun: dry, GracePeriodSeconds: &z, OrphanDependents: &b}
			if b {
				r := "1"
				in.Preconditions = &metav1.Preconditions{ResourceVersion: &r}
				p := metav1.DeletePropagationOrphan
				in.PropagationPolicy = &p
			}
			out, err := page.QueryDeleteOptions(in, cl)
			w := in
			w.DryRun = out.DryRun
			judge("QueryDeleteOptions", "dryRun", in, out, w, err, len(dry) > 0)
		}
	}
}
