package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/dynamic"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
)

func init() {
	register("C28", "exploration", c28)
}

// fkSlot is a place for one object.
type fkSlot struct {
	D       *gvrDef
	Cluster string
	NS      string
	Name    string
}

func (s fkSlot) String() string { return s.D.R + " " + s.Cluster + "|" + s.NS + "|" + s.Name }

type fkOp struct {
	kind      string // create, update, delete, read
	s         fkSlot
	ver       string // written, or read
	ok        bool
	err       error
	call, ret int64
	thread    int
	list      bool
}

func (o *fkOp) String() string {
	return fmt.Sprintf("[%d,%d] client %d: %s %s %q ok=%v", o.call, o.ret, o.thread, o.kind, o.s, o.ver, o.ok)
}

var fkModel = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		o, cur := input.(*fkOp), state.(string)
		switch o.kind {
		case "create":
			if o.ok {
				return cur == "", o.ver
			}
			return cur != "", cur
		case "update":
			if o.ok {
				return cur != "", o.ver
			}
			return cur == "", cur
		case "delete":
			if o.ok {
				return cur != "", ""
			}
			return cur == "", cur
		}
		return o.ver == cur, cur
	},
	Equal:             func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(in, out interface{}) string { return in.(*fkOp).String() },
}

// fkClient talks to the fake server as a user of the SDK does.
type fkClient struct {
	typed kubernetes.Interface
	dyn   dynamic.Interface
	def   string
	mu    sync.Mutex
	ops   []*fkOp // all changes made
}

func fkGVR(d *gvrDef) schema.GroupVersionResource {
	return schema.GroupVersionResource{Group: d.G, Version: d.V, Resource: d.R}
}

func (k *fkClient) res(s fkSlot) dynamic.ResourceInterface {
	if s.D.Namespaced && s.NS != "" {
		return k.dyn.Resource(fkGVR(s.D)).Namespace(s.NS)
	}
	return k.dyn.Resource(fkGVR(s.D))
}

func fkObj(s fkSlot, ver string) *unstructured.Unstructured {
	md := map[string]interface{}{"name": s.Name, "labels": map[string]interface{}{"ver": ver, "app": "x"}, "annotations": map[string]interface{}{"note": `a "quoted" <text> ` + ver}, "uid": "u" + ver}
	switch { // versions differ in what they have, too
	case strings.HasSuffix(ver, "3"), strings.HasSuffix(ver, "7"):
		delete(md, "annotations")
		md["finalizers"] = []interface{}{"example.io/" + ver}
	case strings.HasSuffix(ver, "5"):
		md["labels"].(map[string]interface{})["only-"+ver] = ""
		md["annotations"] = map[string]interface{}{"other-" + ver: "x"}
	}
	if s.D.Namespaced {
		md["namespace"] = s.NS
	}
	o := map[string]interface{}{"apiVersion": s.D.api(), "kind": s.D.Kind, "metadata": md}
	switch s.D.R {
	case "pods":
		o["spec"] = map[string]interface{}{"nodeName": "node-" + ver, "containers": []interface{}{map[string]interface{}{"name": "c", "image": "i:" + ver}}}
	default:
		o["spec"] = map[string]interface{}{"ver": ver, "n": int64(9007199254740993)}
	}
	return &unstructured.Unstructured{Object: o}
}

// fkVer is the version an object carries, with what is wrong with it.
func fkVer(s fkSlot, o map[string]interface{}) (string, string) {
	ver := text(at(o, "metadata", "labels", "ver"))
	want := fkObj(s, ver).Object
	if d := subset(want, o, ""); d != "" {
		return ver, d
	}
	for _, f := range []string{"labels", "annotations", "finalizers"} {
		m, _ := at(o, "metadata", f).(map[string]interface{})
		was, _ := at(want, "metadata", f).(map[string]interface{})
		for k := range m {
			if _, ok := was[k]; !ok && k != annoCluster && k != annoIndex {
				return ver, ".metadata." + f + "." + k + " was not sent"
			}
		}
		if l, _ := at(o, "metadata", f).([]interface{}); len(l) > 0 && at(want, "metadata", f) == nil {
			return ver, ".metadata." + f + " was not sent"
		}
	}
	return ver, ""
}

// subset says where got does not contain want.
func subset(want, got interface{}, path string) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return path + " is missing"
		}
		for k, v := range w {
			if d := subset(v, g[k], path+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return path + " has another length"
		}
		for i := range w {
			if d := subset(w[i], g[i], path+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
		return ""
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("%s is %v instead of %v", path, got, want)
	}
	return ""
}

func toMap(v interface{}) map[string]interface{} {
	b, _ := json.Marshal(v)
	m := map[string]interface{}{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	_ = dec.Decode(&m)
	return m
}

func fkPod(u *unstructured.Unstructured) *corev1.Pod {
	b, _ := u.MarshalJSON()
	p := &corev1.Pod{}
	_ = json.Unmarshal(b, p)
	return p
}

// exec performs o; helper: the default cluster may be addressed without helper.
func (k *fkClient) exec(g *rand.Rand, o *fkOp, clock *int64) (body map[string]interface{}, opErr error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	plain := o.s.Cluster == k.def && g.Intn(2) == 0
	typed := o.s.D == defPods && g.Intn(2) == 0
	var res interface{}
	var err error
	switch o.kind {
	case "create":
		opt := metav1.CreateOptions{}
		if !plain {
			opt, err = page.QueryCreateOptions(opt, o.s.Cluster)
		}
		if err != nil {
			panic(refused(err.Error()))
		}
		obj := fkObj(o.s, o.ver)
		if g.Intn(2) == 0 { // the namespace is that of the request
			obj.SetNamespace("")
		}
		o.call = atomic.AddInt64(clock, 1)
		if typed {
			res, err = k.typed.CoreV1().Pods(o.s.NS).Create(ctx, fkPod(obj), opt)
		} else {
			res, err = k.res(o.s).Create(ctx, obj, opt)
		}
	case "update":
		opt := metav1.UpdateOptions{}
		if !plain {
			opt, err = page.QueryUpdateOptions(opt, o.s.Cluster)
		}
		if err != nil {
			panic(refused(err.Error()))
		}
		obj := fkObj(o.s, o.ver)
		if g.Intn(2) == 0 { // the namespace is that of the request
			obj.SetNamespace("")
		}
		o.call = atomic.AddInt64(clock, 1)
		if typed {
			res, err = k.typed.CoreV1().Pods(o.s.NS).Update(ctx, fkPod(obj), opt)
		} else {
			res, err = k.res(o.s).Update(ctx, obj, opt)
		}
	case "delete":
		opt := metav1.DeleteOptions{}
		switch g.Intn(4) {
		case 0:
			p := metav1.DeletionPropagation(pick(g, []string{"Background", "Foreground", "Orphan"}))
			opt.PropagationPolicy = &p
		case 1:
			s := int64(g.Intn(2) * 30)
			opt.GracePeriodSeconds = &s
		}
		if !plain {
			opt, err = page.QueryDeleteOptions(opt, o.s.Cluster)
		}
		if err != nil {
			panic(refused(err.Error()))
		}
		o.call = atomic.AddInt64(clock, 1)
		if typed {
			err = k.typed.CoreV1().Pods(o.s.NS).Delete(ctx, o.s.Name, opt)
		} else {
			err = k.res(o.s).Delete(ctx, o.s.Name, opt)
		}
	case "read":
		opt := metav1.GetOptions{}
		if !plain {
			opt, err = page.QueryGetOptions(opt, o.s.Cluster)
		}
		if err != nil {
			panic(refused(err.Error()))
		}
		o.call = atomic.AddInt64(clock, 1)
		if typed {
			res, err = k.typed.CoreV1().Pods(o.s.NS).Get(ctx, o.s.Name, opt)
		} else {
			res, err = k.res(o.s).Get(ctx, o.s.Name, opt)
		}
	}
	o.ret = atomic.AddInt64(clock, 1)
	o.ok, o.err = err == nil, err
	if o.ok && o.kind != "read" {
		k.mu.Lock()
		k.ops = append(k.ops, o)
		k.mu.Unlock()
	}
	if err == nil && res != nil {
		if u, ok := res.(*unstructured.Unstructured); ok {
			body = toMap(u.Object)
		} else {
			body = toMap(res)
			body["apiVersion"], body["kind"] = o.s.D.api(), o.s.D.Kind // which typed clients leave out
		}
	}
	return body, err
}

// list reads the objects of the clusters (nil: default) and namespace ("": all).
func (k *fkClient) list(g *rand.Rand, d *gvrDef, clusters []string, ns string, p page.Paginate, clock *int64) (items []map[string]interface{}, call, ret int64, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if clusters != nil {
		if err := p.Clusters(clusters); err != nil {
			panic(refused(err.Error()))
		}
	}
	opt, e := page.QueryListOptions(metav1.ListOptions{}, p)
	if e != nil {
		panic(refused(e.Error()))
	}
	typed := d == defPods && g.Intn(2) == 0
	call = atomic.AddInt64(clock, 1)
	if typed {
		var l *corev1.PodList
		l, err = k.typed.CoreV1().Pods(ns).List(ctx, opt)
		ret = atomic.AddInt64(clock, 1)
		if err == nil {
			for i := range l.Items {
				m := toMap(l.Items[i])
				m["apiVersion"], m["kind"] = d.api(), d.Kind
				items = append(items, m)
			}
		}
		return
	}
	var l *unstructured.UnstructuredList
	l, err = k.res(fkSlot{D: d, NS: ns}).List(ctx, opt)
	ret = atomic.AddInt64(clock, 1)
	if err == nil {
		for i := range l.Items {
			items = append(items, toMap(l.Items[i].Object))
		}
	}
	return
}

// failed says whether an error is the answer for a failed precondition.
func fkFailed(o *fkOp, err error) string {
	if err == nil {
		return ""
	}
	se, ok := err.(apierrors.APIStatus)
	if !ok {
		return "no answer of the server: " + err.Error()
	}
	code := se.Status().Code
	if o.kind == "create" {
		if code < 400 || code >= 500 {
			return fmt.Sprintf("status %d: %v", code, err)
		}
		return ""
	}
	if !apierrors.IsNotFound(err) && code != 404 {
		return fmt.Sprintf("status %d: %v", code, err)
	}
	return ""
}

// fkWatch is one watch with what it received.
type fkWatch struct {
	D        *gvrDef
	NS       string
	Clusters []string
	how      string
	mu       sync.Mutex
	events   []fkEvent
	stop     func()
	problem  string
	ended    bool
}

type fkEvent struct {
	Type string
	Obj  map[string]interface{}
}

func (w *fkWatch) String() string {
	return fmt.Sprintf("%s watch of %s in namespace %q of clusters %v", w.how, w.D.R, w.NS, w.Clusters)
}

func (w *fkWatch) add(typ string, o map[string]interface{}) {
	w.mu.Lock()
	w.events = append(w.events, fkEvent{typ, o})
	w.mu.Unlock()
}

func (w *fkWatch) len() int { w.mu.Lock(); defer w.mu.Unlock(); return len(w.events) }

func (k *fkClient) watch(base string, d *gvrDef, ns string, clusters []string, how string) (*fkWatch, error) {
	w := &fkWatch{D: d, NS: ns, Clusters: clusters, how: how}
	p := page.Paginate{}
	if err := p.Clusters(clusters); err != nil {
		panic(refused(err.Error()))
	}
	opt, err := page.QueryListOptions(metav1.ListOptions{}, p)
	if err != nil {
		panic(refused(err.Error()))
	}
	ctx, cancel := context.WithCancel(context.Background())
	if how != "sdk" {
		path := d.path(ns)
		target := path + "?watch=" + how + "&labelSelector=" + url.QueryEscape(opt.LabelSelector)
		if how == "path" {
			root := d.root()
			i := strings.LastIndex(root, "/")
			tail := root[i:]
			if ns != "" {
				tail = "/namespaces/" + ns + tail
			}
			target = root[:i] + "/watch" + tail + "?labelSelector=" + url.QueryEscape(opt.LabelSelector)
		}
		req, _ := http.NewRequestWithContext(ctx, "GET", base+target, nil)
		resp, err := http.DefaultClient.Do(req)
		if err != nil || resp.StatusCode != 200 {
			cancel()
			return nil, fmt.Errorf("watch %s: %v %v", target, resp, err)
		}
		w.stop = cancel
		go func() {
			defer resp.Body.Close()
			dec := json.NewDecoder(resp.Body)
			dec.UseNumber()
			for {
				m := map[string]interface{}{}
				if err := dec.Decode(&m); err != nil {
					w.mu.Lock()
					w.problem = "not an event: " + err.Error()
					w.mu.Unlock()
					break
				}
				o, _ := m["object"].(map[string]interface{})
				w.add(text(m["type"]), o)
			}
			w.mu.Lock()
			w.ended = true
			w.mu.Unlock()
		}()
		return w, nil
	}
	wi, err := k.res(fkSlot{D: d, NS: ns}).Watch(ctx, opt)
	if err != nil {
		cancel()
		return nil, err
	}
	w.stop = func() { wi.Stop(); cancel() }
	go func() {
		for e := range wi.ResultChan() {
			w.add(string(e.Type), toMap(e.Object))
		}
		w.mu.Lock()
		w.ended = true
		w.mu.Unlock()
	}()
	return w, nil
}

func c28(c *Ctx) {
	c.Rule("a case is one operation or list in a sequence compared with a map, one object's concurrent history checked with Porcupine, or one watch compared with the changes made; distinct by operation and outcome, by history, and by watch")
	c.Assume("an attentive client reads all the time; at most a few hundred changes are in flight; a watch without selected clusters is not judged")
	c.Assume("creation and update send the object with the name of the request, and with its namespace or without one, as clients do")
	g := c.Rand(1)
	plain := *defWidgets
	nodes := &gvrDef{V: "v1", R: "nodes", Kind: "Node", Index: baseIndex}
	same := &gvrDef{G: "example.io", V: "v2", R: "pods", Kind: "Pod", Namespaced: true, Custom: true, Index: baseIndex}
	newer := plain
	newer.V = "v2"
	defs := []*gvrDef{defPods, &plain, nodes, same, &newer}
	servers := c.N(8, 60)
	for i := 0; i < servers && !c.Stop(); i++ {
		c28server(c, g, defs, i)
	}
	c.Need("sequential_ops", 500)
	c.Need("histories", 100)
	c.Need("overlapping", 500)
	c.Need("watch_events", 1000)
	c.Need("racing_creations", 20)
	c.Need("told_events", 200)
	c.Need("unknown_types", 100)
}

func c28server(c *Ctx, g *rand.Rand, defs []*gvrDef, round int) {
	var ps []interface{}
	for _, d := range defs {
		ps = append(ps, map[string]interface{}{"group": d.G, "version": d.V, "resource": d.R, "list_kind": d.listKind(), "index": d.indexConf()})
	}
	conf, _ := json.Marshal(map[string]interface{}{"proxies": ps, "default_cluster": "c1", "token": ""})
	addr := freeAddr()
	newFake := fake.NewFakeCKubeServer
	if round%3 == 1 { // the configuration may as well be in a file
		newFake = func(addr, conf string) (fake.CkubeServer, error) {
			path := filepath.Join(c.Tmp, fmt.Sprintf("fake-%d.json", round))
			if _, err := fake.NewFakeCKubeServerWithConfigPath(freeAddr(), path); err == nil {
				return nil, fmt.Errorf("it starts with a configuration which is not there")
			}
			if err := os.WriteFile(path, []byte(conf), 0600); err != nil {
				panic(err)
			}
			return fake.NewFakeCKubeServerWithConfigPath(addr, path)
		}
	}
	fs, err := newFake(addr, string(conf))
	if err != nil {
		c.Violate("start", "the fake server did not start: "+err.Error(), nil)
		return
	}
	defer fs.Stop()
	var told []fake.Event
	done, readers := make(chan struct{}), sync.WaitGroup{}
	if round%2 == 0 { // somebody reads the events, or nobody
		readers.Add(1)
		go func() {
			defer readers.Done()
			for {
				select {
				case e := <-fs.Events():
					told = append(told, e)
				case <-done:
					return
				}
			}
		}()
	}
	cfg := rest.CopyConfig(fs.GetKubeConfig())
	cfg.QPS, cfg.Burst = 1e6, 1000000
	dyn, err := dynamic.NewForConfig(cfg)
	if err != nil {
		panic(err)
	}
	k := &fkClient{typed: mkClient(*cfg), dyn: dyn, def: "c1"}
	base := cfg.Host
	var clock int64
	for phase := 0; phase < c.N(3, 6) && !c.Stop(); phase++ {
		state := c28sequence(c, g, k, base, defs, &clock)
		if len(state) > 0 && g.Intn(2) == 0 {
			fs.Clean()
			state = map[fkSlot]string{}
			for _, d := range defs {
				if items, _, _, err := k.list(g, d, []string{"c1", "c2", "c3"}, "", page.Paginate{}, &clock); err != nil || len(items) > 0 {
					c.Violate("clean", fmt.Sprintf("after Clean, %d %s are listed (%v)", len(items), d.R, err), nil)
				}
			}
			c.Count("cleans", 1)
		}
		c28unknown(c, g, k, &clock)
		c28garbage(c, g, base, defs)
		if !c28concurrent(c, g, k, base, defs, state, &clock) {
			break
		}
	}
	close(done)
	readers.Wait()
	c28told(c, k, defs, told)
}

// c28unknown addresses types the server is not configured with: it has no such objects, and none can be created.
func c28unknown(c *Ctx, g *rand.Rand, k *fkClient, clock *int64) {
	for _, d := range []*gvrDef{{V: "v1", R: "secrets", Kind: "Secret", Namespaced: true}, {G: "other.io", V: "v1", R: "pods", Kind: "Pod", Namespaced: true}, {V: "v1", R: "persistentvolumes", Kind: "PersistentVolume"}} {
		for _, kind := range []string{"create", "update", "read", "delete", "create"} {
			o := &fkOp{kind: kind, s: fkRandSlot(g, []*gvrDef{d}), ver: newVer()}
			_, err := k.exec(g, o, clock)
			c.Count("unknown_types", 1)
			if o.ok {
				c.Violate("unknown/"+kind, fmt.Sprintf("%s of %s succeeds, which the server is not configured with", kind, o.s), nil)
			} else if bad := fkFailed(o, err); bad != "" {
				c.Violate("unknown/"+kind, fmt.Sprintf("%s of %s, which the server is not configured with: %s", kind, o.s, bad), nil)
			}
		}
	}
}

// c28garbage asks for lists and watches with selectors nobody can read: they are refused, and the server goes on.
func c28garbage(c *Ctx, g *rand.Rand, base string, defs []*gvrDef) {
	hc := &http.Client{Timeout: 20 * time.Second}
	for i := 0; i < 12; i++ {
		d := defs[g.Intn(len(defs))]
		path := d.path("")
		sel := pick(g, []string{"a in b", "a in (b", "=,=", "a>x", "ckube.daocloud.io/query=x", "ckube.daocloud.io/query=%%", "ckube.daocloud.io/query in (abc, def)",
			"ckube.daocloud.io/query in (0000.abc, 0056.d.e)", "ckube.daocloud.io/query notin (0000.x, y)"})
		how := pick(g, []string{"", "watch=true&", "watch=1&", "/watch"})
		target := path + "?" + how + "labelSelector=" + url.QueryEscape(sel)
		if how == "/watch" {
			i := strings.LastIndex(path, "/")
			target = path[:i] + "/watch" + path[i:] + "?labelSelector=" + url.QueryEscape(sel)
		}
		resp, err := hc.Get(base + target)
		if err != nil {
			c.Violate("garbage", target+": "+err.Error(), nil)
			continue
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		st := metav1.Status{}
		if resp.StatusCode < 400 || resp.StatusCode > 499 && how != "" || err != nil || json.Unmarshal(b, &st) != nil || st.Code != int32(resp.StatusCode) || st.Message == "" {
			c.Violate("garbage", fmt.Sprintf("%s: status %d (%v): %s", target, resp.StatusCode, err, trunc(b)), nil)
		}
		c.Count("garbage_selectors", 1)
	}
}

// c28told compares the events the server told its user with the changes made. Events come to those who wait for them
// at that moment, so some may be missing, but what comes is a change, in order, once.
func c28told(c *Ctx, k *fkClient, defs []*gvrDef, told []fake.Event) {
	made := map[string]*fkOp{}
	dels := map[fkSlot][]*fkOp{}
	for _, o := range k.ops {
		if o.kind == "delete" {
			dels[o.s] = append(dels[o.s], o)
		} else {
			made[o.ver] = o
		}
	}
	seen := map[*fkOp]bool{}
	ndel := map[fkSlot]int{}
	lastCall := int64(-1)
	for i, e := range told {
		call := int64(-1) // when the change began at the earliest, if that is not its own call
		m := toMap(json.RawMessage(e.Raw))
		ver := text(at(m, "metadata", "labels", "ver"))
		s := fkSlot{Cluster: e.Cluster, NS: e.Namespace, Name: e.Name}
		for _, d := range defs {
			if d.G == e.Group && d.V == e.Version && d.R == e.Resource {
				s.D = d
			}
		}
		if s.D == nil {
			c.Violate("events/foreign", fmt.Sprintf("event %d is of type %s/%s %s", i, e.Group, e.Version, e.Resource), e)
			continue
		}
		where := fmt.Sprintf("event %d, action %d of %s %s", i, e.EventAction, s, ver)
		o := made[ver]
		if o == nil || o.s != s {
			c.Violate("events/foreign", where+" is no change", e)
			continue
		}
		if d := subset(fkObj(s, ver).Object, m, ""); d != "" {
			c.Violate("events/content", where+": "+d, e)
		}
		switch e.EventAction {
		case fake.EventActionAdd, fake.EventActionUpdate:
			if (e.EventAction == fake.EventActionAdd) != (o.kind == "create") {
				c.Violate("events/action", where+" tells of "+o.String(), e)
			}
		case fake.EventActionDelete:
			o = nil
			for _, x := range dels[s] {
				if !seen[x] && (o == nil || x.ret < o.ret) && x.ret >= lastCall {
					o = x
				}
			}
			if o == nil {
				c.Violate("events/foreign", where+" is no deletion that could come now", e)
				continue
			}
			ndel[s]++
			call = nthCall(dels[s], ndel[s])
		default:
			c.Violate("events/action", where, e)
			continue
		}
		if seen[o] {
			c.Violate("events/twice", where+" tells it again", e)
		}
		seen[o] = true
		if o.ret < lastCall {
			c.Violate("events/order", fmt.Sprintf("%s: %s came after a change which began only afterwards", where, o), e)
		}
		if call < 0 {
			call = o.call
		}
		if call > lastCall {
			lastCall = call
		}
		c.Count("told_events", 1)
	}
}

// nthCall is when the n-th of the deletions of one object that came can have begun at the earliest: which of
// overlapping deletions an event tells of cannot be known, but by then n of them had begun.
func nthCall(l []*fkOp, n int) int64 {
	var calls []int64
	for _, o := range l {
		calls = append(calls, o.call)
	}
	sort.Slice(calls, func(i, j int) bool { return calls[i] < calls[j] })
	return calls[n-1]
}

var (
	fkClusters = []string{"c1", "c2", "c3"}
	fkNS       = []string{"a", "ab", "default"}
	fkNames    = []string{"x", "x-1", "y"}
)

func fkRandSlot(g *rand.Rand, defs []*gvrDef) fkSlot {
	s := fkSlot{D: defs[g.Intn(len(defs))], Cluster: pick(g, fkClusters), Name: pick(g, fkNames)}
	if s.D.Namespaced {
		s.NS = pick(g, fkNS)
	}
	return s
}

func fkSlotOf(d *gvrDef, o map[string]interface{}) fkSlot {
	return fkSlot{D: d, Cluster: text(at(o, "metadata", "annotations", annoCluster)), NS: text(at(o, "metadata", "namespace")), Name: text(at(o, "metadata", "name"))}
}

var fkVers int64

func newVer() string { return "v" + strconv.FormatInt(atomic.AddInt64(&fkVers, 1), 10) }

// c28sequence runs one client against a map, with watches open; it returns the final state.
func c28sequence(c *Ctx, g *rand.Rand, k *fkClient, base string, defs []*gvrDef, clock *int64) map[fkSlot]string {
	m := map[fkSlot]string{}
	// what is there already
	for _, d := range defs {
		items, _, _, err := k.list(g, d, fkClusters, "", page.Paginate{}, clock)
		if err != nil {
			c.Violate("list", err.Error(), nil)
		}
		for _, it := range items {
			s := fkSlotOf(d, it)
			m[s], _ = fkVer(s, it)
		}
	}
	ws := c28watches(c, g, k, base, defs)
	var hist []*fkOp
	for i := 0; i < c.N(150, 400) && !c.Stop(); i++ {
		if g.Intn(5) == 0 {
			c28list(c, g, k, defs, m, clock)
			continue
		}
		o := &fkOp{kind: pick(g, []string{"create", "create", "update", "delete", "read"}), s: fkRandSlot(g, defs)}
		if o.kind == "create" || o.kind == "update" {
			o.ver = newVer()
		}
		body, err := k.exec(g, o, clock)
		hist = append(hist, o)
		cur, there := m[o.s]
		want := there
		if o.kind == "create" {
			want = !there
		}
		c.Eval(fmt.Sprintf("%s %s ok=%v default=%v", o.kind, o.s.D.R, want, o.s.Cluster == k.def))
		c.Count("sequential_ops", 1)
		where := fmt.Sprintf("%s of %s, holding %q", o.kind, o.s, cur)
		if o.ok != want {
			c.Violate("sequence/"+o.kind, fmt.Sprintf("%s: ok is %v (%v)", where, o.ok, err), nil)
			continue
		}
		if bad := fkFailed(o, err); bad != "" {
			c.Violate("error/"+o.kind, where+": "+bad, nil)
		}
		if !o.ok {
			continue
		}
		switch o.kind {
		case "create", "update":
			m[o.s] = o.ver
			if d := subset(fkObj(o.s, o.ver).Object, body, ""); d != "" {
				c.Violate("answer/"+o.kind, where+": the answer differs: "+d, body)
			}
		case "delete":
			delete(m, o.s)
		case "read":
			ver, bad := fkVer(o.s, body)
			if ver != cur || bad != "" {
				c.Violate("read", fmt.Sprintf("%s: version %q was read, %s", where, ver, bad), body)
			}
		}
	}
	c28judge(c, ws, hist)
	return m
}

func c28list(c *Ctx, g *rand.Rand, k *fkClient, defs []*gvrDef, m map[fkSlot]string, clock *int64) {
	d := defs[g.Intn(len(defs))]
	ns := ""
	if d.Namespaced && g.Intn(2) == 0 {
		ns = pick(g, fkNS)
	}
	var cs []string
	sel := map[string]bool{"c1": true}
	if g.Intn(4) > 0 {
		cs = append([]string{}, fkClusters[g.Intn(3):]...)
		sel = map[string]bool{}
		for _, x := range cs {
			sel[x] = true
		}
	}
	p := page.Paginate{}
	name := ""
	if g.Intn(3) == 0 {
		name = pick(g, fkNames)
		p.Search = `name="` + name + `"`
	}
	items, _, _, err := k.list(g, d, cs, ns, p, clock)
	c.Eval(fmt.Sprintf("list %s %v %v", d.R, cs, ns != ""))
	if err != nil {
		c.Violate("list", err.Error(), nil)
		return
	}
	var got, want []string
	for _, it := range items {
		s := fkSlotOf(d, it)
		ver, bad := fkVer(s, it)
		if bad != "" {
			c.Violate("list-content", s.String()+": "+bad, it)
		}
		got = append(got, s.String()+" "+ver)
	}
	for s, v := range m {
		if s.D == d && (ns == "" || s.NS == ns) && sel[s.Cluster] && (name == "" || s.Name == name) {
			want = append(want, s.String()+" "+v)
		}
	}
	if diff := bagDiff(got, want); diff != "" {
		c.Violate("list", fmt.Sprintf("list of %s of clusters %v in namespace %q with search %q: %s", d.R, cs, ns, p.Search, diff), nil)
	}
}

func c28watches(c *Ctx, g *rand.Rand, k *fkClient, base string, defs []*gvrDef) []*fkWatch {
	var ws []*fkWatch
	for i := 0; i < 10; i++ {
		d := defs[i%len(defs)]
		ns := ""
		if d.Namespaced && g.Intn(3) > 0 {
			ns = pick(g, fkNS)
		}
		cs := append([]string{}, fkClusters[g.Intn(3):]...)
		if g.Intn(3) == 0 {
			cs = []string{pick(g, fkClusters)}
		}
		w, err := k.watch(base, d, ns, cs, []string{"sdk", "sdk", "true", "1", "path"}[g.Intn(5)])
		if err != nil {
			c.Violate("watch", err.Error(), nil)
			continue
		}
		ws = append(ws, w)
	}
	return ws
}

// c28judge compares what watches received with the changes, all made after they began and before now.
func c28judge(c *Ctx, ws []*fkWatch, hist []*fkOp) {
	byVer := map[string]*fkOp{} // creations and updates by version
	dels := map[fkSlot][]*fkOp{}
	for _, o := range hist {
		if !o.ok {
			continue
		}
		switch o.kind {
		case "create", "update":
			byVer[o.ver] = o
		case "delete":
			dels[o.s] = append(dels[o.s], o)
		}
	}
	for _, w := range ws {
		in := map[string]bool{}
		for _, x := range w.Clusters {
			in[x] = true
		}
		mine := func(s fkSlot) bool { return s.D == w.D && (w.NS == "" || s.NS == w.NS) && in[s.Cluster] }
		want := 0
		for _, o := range byVer {
			if mine(o.s) {
				want++
			}
		}
		for s, l := range dels {
			if mine(s) {
				want += len(l)
			}
		}
		deadline := time.Now().Add(30 * time.Second)
		for w.len() < want && time.Now().Before(deadline) {
			time.Sleep(2 * time.Millisecond)
		}
	}
	time.Sleep(30 * time.Millisecond) // for what should not come
	for _, w := range ws {
		w.mu.Lock()
		events, problem, ended := append([]fkEvent{}, w.events...), w.problem, w.ended
		w.mu.Unlock()
		w.stop()
		in := map[string]bool{}
		for _, x := range w.Clusters {
			in[x] = true
		}
		mine := func(s fkSlot) bool { return s.D == w.D && (w.NS == "" || s.NS == w.NS) && in[s.Cluster] }
		if problem != "" || ended {
			c.Violate("watch/broken", w.String()+": ended early "+problem, nil)
			continue
		}
		c.Eval("watch " + w.String() + fmt.Sprint(len(events)))
		c.Count("watch_events", int64(len(events)))
		seen := map[*fkOp]int{}
		cur := map[string]*fkOp{} // version last reported per name and namespace, per cluster through the version's operation
		lastRet := int64(0)       // the latest call among the events so far
		var lastOp *fkOp
		ndel := map[fkSlot]int{}
		ordered := func(o *fkOp, call int64) {
			if o.ret < lastRet {
				c.Violate("watch/order", fmt.Sprintf("%s: %s came after %s, which began only afterwards", w, o, lastOp), nil)
			}
			if call > lastRet {
				lastRet, lastOp = call, o
			}
		}
		for i, e := range events {
			s := fkSlotOf(w.D, e.Obj)
			ver := text(at(e.Obj, "metadata", "labels", "ver"))
			where := fmt.Sprintf("%s: event %d, %s of %s/%s %s", w, i, e.Type, s.NS, s.Name, ver)
			switch e.Type {
			case "ADDED", "MODIFIED":
				o := byVer[ver]
				if o == nil || !mine(o.s) || o.s.Name != s.Name || o.s.NS != s.NS {
					c.Violate("watch/foreign", where+" is no change of its own", fmt.Sprint(o))
					continue
				}
				if d := subset(fkObj(o.s, ver).Object, e.Obj, ""); d != "" {
					c.Violate("watch/content", where+": "+d, nil)
				}
				if (e.Type == "ADDED") != (o.kind == "create") {
					c.Violate("watch/type", where+" reports "+o.String(), nil)
				}
				seen[o]++
				if seen[o] > 1 {
					c.Violate("watch/twice", where+" reports it again", nil)
				}
				key := o.s.String()
				if prev := cur[key]; prev != nil && o.kind == "create" && prev.kind != "delete" {
					c.Violate("watch/order", fmt.Sprintf("%s: created after %s", where, prev), nil)
				} else if prev != nil && o.kind == "update" && prev.kind == "delete" {
					c.Violate("watch/order", fmt.Sprintf("%s: updated after %s", where, prev), nil)
				}
				cur[key] = o
				ordered(o, o.call)
			case "DELETED":
				// the event carries the last version, which names the cluster
				var sl *fkSlot
				if o := byVer[ver]; o != nil {
					sl = &o.s
				} else if s.Cluster != "" {
					sl = &s
				}
				if sl == nil || !mine(*sl) || sl.Name != s.Name || sl.NS != s.NS {
					c.Violate("watch/foreign", where+" is no change of its own", sl)
					continue
				}
				l := dels[*sl]
				// deletions of one object are reported in the order in which they happened; unordered ones are
				// interchangeable
				n := 0
				for _, o := range l {
					n += seen[o]
				}
				if n >= len(l) {
					c.Violate("watch/twice", fmt.Sprintf("%s: only %d deletions happened", where, len(l)), nil)
					continue
				}
				best := (*fkOp)(nil)
				for _, o := range l {
					if seen[o] == 0 && o.ret >= lastRet && (best == nil || o.ret < best.ret) {
						best = o
					}
				}
				if best == nil {
					c.Violate("watch/order", where+": no deletion of it could come now", nil)
					continue
				}
				seen[best]++
				ndel[*sl]++
				key := best.s.String()
				if prev := cur[key]; prev != nil && prev.kind == "delete" {
					c.Violate("watch/order", fmt.Sprintf("%s: deleted twice in a row, before %s", where, prev), nil)
				} else if prev != nil && prev.ver != ver {
					c.Violate("watch/order", fmt.Sprintf("%s: the object was %s before", where, prev), nil)
				}
				cur[key] = best
				ordered(best, nthCall(l, ndel[*sl]))
			default:
				c.Violate("watch/type", where, e.Obj)
			}
		}
		var missing []string
		for _, o := range hist {
			if o.ok && o.kind != "read" && mine(o.s) && seen[o] == 0 {
				missing = append(missing, o.String())
			}
		}
		if len(missing) > 0 {
			sort.Strings(missing)
			c.Violate("watch/missing", fmt.Sprintf("%s: %d changes were not reported within 30 s, the first is %s", w, len(missing), missing[0]), nil)
		}
	}
}

func c28concurrent(c *Ctx, g *rand.Rand, k *fkClient, base string, defs []*gvrDef, state map[fkSlot]string, clock *int64) bool {
	ws := c28watches(c, g, k, base, defs)
	var uni []fkSlot
	for i := 0; i < 12; i++ {
		uni = append(uni, fkRandSlot(g, defs))
	}
	if g.Intn(2) == 0 {
		uni = uni[:3]
	}
	threads := 10
	hist := make([][]*fkOp, threads)
	var wg sync.WaitGroup
	start := make(chan struct{})
	barrier := make([]*sync.WaitGroup, 6)
	race := make([]fkSlot, len(barrier))
	for i := range barrier {
		barrier[i] = &sync.WaitGroup{}
		barrier[i].Add(threads)
		race[i] = fkRandSlot(g, defs)
		race[i].Name = fmt.Sprintf("race-%s", newVer())
	}
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func(t int, g *rand.Rand) {
			defer wg.Done()
			<-start
			do := func(o *fkOp) {
				o.thread = t
				body, err := k.exec(g, o, clock)
				if bad := fkFailed(o, err); bad != "" {
					c.Violate("error/"+o.kind, o.String()+": "+bad, nil)
				}
				if o.kind == "read" && o.ok {
					ver, bad := fkVer(o.s, body)
					o.ver = ver
					if bad != "" {
						c.Violate("read", o.String()+": "+bad, nil)
					}
				}
				hist[t] = append(hist[t], o)
			}
			for i := 0; i < c.N(40, 80); i++ {
				if g.Intn(8) == 0 {
					s := uni[g.Intn(len(uni))]
					ns := s.NS
					if g.Intn(2) == 0 {
						ns = ""
					}
					items, call, ret, err := k.list(g, s.D, []string{s.Cluster}, ns, page.Paginate{}, clock)
					if err != nil {
						c.Violate("list", err.Error(), nil)
						continue
					}
					got := map[fkSlot]string{}
					for _, it := range items {
						x := fkSlotOf(s.D, it)
						ver, bad := fkVer(x, it)
						if bad != "" || x.Cluster != s.Cluster {
							c.Violate("list-content", x.String()+": "+bad, nil)
						}
						got[x] = ver
					}
					for _, x := range uni {
						if x.D == s.D && x.Cluster == s.Cluster && (ns == "" || x.NS == ns) {
							hist[t] = append(hist[t], &fkOp{kind: "read", list: true, s: x, ver: got[x], ok: got[x] != "", call: call, ret: ret, thread: t})
						}
					}
					continue
				}
				o := &fkOp{kind: pick(g, []string{"create", "create", "update", "delete", "read", "read"}), s: uni[g.Intn(len(uni))]}
				if o.kind == "create" || o.kind == "update" {
					o.ver = newVer()
				}
				do(o)
			}
			for i := range barrier { // everybody creates the same object at once
				barrier[i].Done()
				barrier[i].Wait()
				do(&fkOp{kind: "create", s: race[i], ver: newVer()})
			}
		}(t, rand.New(rand.NewSource(g.Int63())))
	}
	close(start)
	if !waitTimeout(&wg, 180*time.Second) {
		c.Violate("blocked", "clients did not end within 180 s", stacks())
		return false
	}
	var all []*fkOp
	bySlot := map[fkSlot][]*fkOp{}
	for s, v := range state {
		bySlot[s] = append(bySlot[s], &fkOp{kind: "create", s: s, ver: v, ok: true, call: -2, ret: -1})
	}
	for _, h := range hist {
		all = append(all, h...)
		for _, o := range h {
			bySlot[o.s] = append(bySlot[o.s], o)
		}
	}
	for i, s := range race {
		n := 0
		for _, o := range bySlot[s] {
			if o.kind == "create" && o.ok {
				n++
			}
		}
		c.Count("racing_creations", 1)
		if n != 1 {
			c.Violate("creations", fmt.Sprintf("of %d simultaneous creations of %s, %d succeeded", threads, race[i], n), nil)
		}
	}
	for s, ops := range bySlot {
		if len(ops) < 2 {
			continue
		}
		var ph []porcupine.Operation
		var sig []string
		for i, o := range ops {
			ph = append(ph, porcupine.Operation{ClientId: o.thread, Input: o, Call: o.call, Output: o, Return: o.ret})
			sig = append(sig, fmt.Sprintf("%s%v", o.kind[:1], o.ok))
			if i > 0 && o.call < ops[i-1].ret {
				c.Count("overlapping", 1)
			}
		}
		c.Count("histories", 1)
		c.Eval(s.D.R + strings.Join(sig, ""))
		switch porcupine.CheckOperationsTimeout(fkModel, ph, 30*time.Second) {
		case porcupine.Illegal:
			sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
			var h []string
			for _, o := range ops {
				h = append(h, o.String())
			}
			c.Violate("history", "the operations on "+s.String()+" fit no order", h)
		case porcupine.Unknown:
			c.Count("undecided", 1)
		}
	}
	c28judge(c, ws, all)
	return true
}
