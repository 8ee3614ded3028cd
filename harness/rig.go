package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/mux"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

var discardLog = stdlog.New(io.Discard, "", 0)

// gvrDef describes a cached type of a world.
type gvrDef struct {
	G, V, R    string
	Kind       string
	Namespaced bool
	Custom     bool
	Index      []idx
	ListKind   string // unless it is the kind and List
}

func (d *gvrDef) gvr() store.GroupVersionResource {
	return store.GroupVersionResource{Group: d.G, Version: d.V, Resource: d.R}
}

func (d *gvrDef) api() string {
	if d.G == "" {
		return d.V
	}
	return d.G + "/" + d.V
}

// root is the cluster-wide collection path.
func (d *gvrDef) root() string {
	if d.G == "" {
		return "/api/" + d.V + "/" + d.R
	}
	return "/apis/" + d.G + "/" + d.V + "/" + d.R
}

// path is the collection path of a namespace ("" for all).
func (d *gvrDef) path(ns string) string {
	if ns == "" {
		return d.root()
	}
	base := "/apis/" + d.G + "/" + d.V
	if d.G == "" {
		base = "/api/" + d.V
	}
	return base + "/namespaces/" + url.PathEscape(ns) + "/" + d.R
}

func (d *gvrDef) listKind() string {
	if d.ListKind != "" {
		return d.ListKind
	}
	return d.Kind + "List"
}

func (d *gvrDef) indexConf() map[string]string {
	m := map[string]string{}
	for _, i := range d.Index {
		m[i.Key] = i.Expr
	}
	return m
}

// countStore counts what the watcher applied, to know when a world is quiescent.
type countStore struct {
	store.Store
	mu sync.Mutex
	n  map[string]int
}

func (s *countStore) inc(g store.GroupVersionResource, cluster string) {
	s.mu.Lock()
	s.n[g.Group+"/"+g.Version+"/"+g.Resource+"@"+cluster]++
	s.mu.Unlock()
}

func (s *countStore) count(g store.GroupVersionResource, cluster string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n[g.Group+"/"+g.Version+"/"+g.Resource+"@"+cluster]
}

func (s *countStore) OnResourceAdded(g store.GroupVersionResource, c string, o interface{}) error {
	defer s.inc(g, c)
	return s.Store.OnResourceAdded(g, c, o)
}

func (s *countStore) OnResourceModified(g store.GroupVersionResource, c string, o interface{}) error {
	defer s.inc(g, c)
	return s.Store.OnResourceModified(g, c, o)
}

func (s *countStore) OnResourceDeleted(g store.GroupVersionResource, c string, o interface{}) error {
	defer s.inc(g, c)
	return s.Store.OnResourceDeleted(g, c, o)
}

// Obj is an object of the model.
type Obj struct {
	Def     *gvrDef
	Cluster string
	NS      string
	Name    string
	Raw     map[string]interface{}
	Bytes   []byte
	Index   map[string]string
	Labels  map[string]string
}

func (o *Obj) key() string { return o.NS + "/" + o.Name }
func (o *Obj) id() string  { return o.Cluster + "|" + o.NS + "|" + o.Name }

type clientMap = map[string]kubernetes.Interface

type World struct {
	Defs     []*gvrDef
	Clusters []string
	Default  string
	Ups      map[string]*Upstream
	Configs  map[string]rest.Config
	Clients  map[string]kubernetes.Interface
	Store    *countStore
	Router   *mux.Router
	Server   server.Server
	W        watcher.Watcher
	Objs     map[*gvrDef]map[string]*Obj // by id
	events   map[string]int
	mu       sync.Mutex
	Share    int // above one: only one in so many of a check's cases is run here
}

func (w *World) n(cases int) int {
	if w.Share > 1 {
		return (cases + w.Share - 1) / w.Share
	}
	return cases
}

func restConfig(u *Upstream, url string, token bool) rest.Config {
	c := rest.Config{Host: url}
	c.TLSClientConfig.CAData = u.CA()
	if token {
		c.BearerToken = "tok-" + u.Name
	}
	return c
}

func initConfig(defs []*gvrDef, def, token string) {
	cfg := &common.Config{DefaultCluster: def, Token: token}
	for _, d := range defs {
		cfg.Proxies = append(cfg.Proxies, common.Proxy{Group: d.G, Version: d.V, Resource: d.R, ListKind: d.listKind(), Index: d.indexConf()})
	}
	common.InitConfig(cfg)
}

func newStore(defs []*gvrDef) store.Store {
	ic := map[store.GroupVersionResource]map[string]string{}
	for _, d := range defs {
		ic[d.gvr()] = d.indexConf()
	}
	return memory.NewMemoryStore(ic)
}

func mkClient(cfg rest.Config) kubernetes.Interface {
	c, err := kubernetes.NewForConfig(&cfg)
	if err != nil {
		panic(err)
	}
	return c
}

func newRouter(clients map[string]kubernetes.Interface, s store.Store) (*mux.Router, server.Server) {
	var router *mux.Router
	srv := server.NewMuxServer("127.0.0.1:0", clients, s, func(r *mux.Router) { router = r })
	return router, srv
}

// NewWorld starts upstream clusters, an empty cache and a server; no watcher yet.
func NewWorld(defs []*gvrDef, clusters []string, def, token string) *World {
	return newWorld(defs, clusters, def, token, func(i int) *Upstream {
		u := newUpstream(clusters[i], i%3 == 2)
		if i%3 == 1 {
			u.Base = "/k8s/clusters/c-m8x"
		}
		return u
	}, func(i int, u *Upstream, url string) rest.Config { return restConfig(u, url, i%2 == 0) })
}

// newWorld makes the clusters and the configurations by which they are reached as told.
func newWorld(defs []*gvrDef, clusters []string, def, token string, upstream func(i int) *Upstream, conf func(i int, u *Upstream, url string) rest.Config) *World {
	w := &World{Defs: defs, Clusters: clusters, Default: def, Ups: map[string]*Upstream{}, Configs: map[string]rest.Config{},
		Clients: map[string]kubernetes.Interface{}, Objs: map[*gvrDef]map[string]*Obj{}, events: map[string]int{}}
	for i, c := range clusters {
		u := upstream(i)
		for _, d := range defs {
			u.Serve(d.root(), d.api(), d.listKind())
		}
		w.Ups[c] = u
		w.Configs[c] = conf(i, u, u.WatchURL())
		w.Clients[c] = mkClient(conf(i, u, u.URL()))
	}
	for _, d := range defs {
		w.Objs[d] = map[string]*Obj{}
	}
	initConfig(defs, def, token)
	w.Store = &countStore{Store: newStore(defs), n: map[string]int{}}
	w.Router, w.Server = newRouter(w.Clients, w.Store)
	return w
}

func (w *World) StartWatcher() {
	var gvrs []store.GroupVersionResource
	for _, d := range w.Defs {
		gvrs = append(gvrs, d.gvr())
	}
	w.W = watcher.NewWatcher(w.Configs, gvrs, w.Store)
	_ = w.W.Start()
}

func (w *World) Close() {
	if w.W != nil {
		_ = w.W.Stop()
	}
	for _, u := range w.Ups {
		u.Close()
	}
}

// Put makes the cluster hold the object and expects one event for it.
func (w *World) Put(o *Obj) {
	w.Objs[o.Def][o.id()] = o
	w.events[o.Def.root()+"@"+o.Cluster]++
	w.Ups[o.Cluster].Put(o.Def.root(), o.key(), o.Bytes)
}

func (w *World) Del(o *Obj) {
	delete(w.Objs[o.Def], o.id())
	w.events[o.Def.root()+"@"+o.Cluster]++
	w.Ups[o.Cluster].Del(o.Def.root(), o.key())
}

// Sync waits until every event was applied (up to 20 s; the comparison afterwards tells).
func (w *World) Sync() bool {
	deadline := time.Now().Add(20 * time.Second)
	for {
		ok := true
		for _, d := range w.Defs {
			for _, c := range w.Clusters {
				if w.Store.count(d.gvr(), c) < w.events[d.root()+"@"+c] {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// SyncStreams waits until every watch stream is open.
func (w *World) SyncStreams() bool {
	deadline := time.Now().Add(20 * time.Second)
	for time.Now().Before(deadline) {
		ok := true
		for _, u := range w.Ups {
			for _, d := range w.Defs {
				if u.OpenStreams(d.root()) == 0 {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

// ---- requests

type Resp struct {
	Status  int
	Header  http.Header
	Body    []byte
	Hang    bool
	Aborted string // panic that left the handler
}

func (r *Resp) json() map[string]interface{} {
	m := map[string]interface{}{}
	_ = json.Unmarshal(r.Body, &m)
	return m
}

func newRequest(method, target string, hdr map[string]string, body []byte) *http.Request {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return nil
	}
	req := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Host: "ckube.local", RequestURI: target, RemoteAddr: "192.0.2.1:1234"}
	req.Body = http.NoBody
	if len(body) > 0 {
		req.Body = io.NopCloser(bytes.NewReader(body))
		req.ContentLength = int64(len(body))
	}
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	return req
}

// do sends one request through the router, with a 60 s watchdog.
func do(h http.Handler, method, target string, hdr map[string]string, body []byte) *Resp {
	req := newRequest(method, target, hdr, body)
	if req == nil {
		return &Resp{Status: 400}
	}
	return doReq(h, req)
}

func doReq(h http.Handler, req *http.Request) *Resp {
	rec := httptest.NewRecorder()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("%v\n%s", p, debug.Stack())
				return
			}
			done <- ""
		}()
		h.ServeHTTP(rec, req)
	}()
	limit := time.NewTimer(60 * time.Second)
	defer limit.Stop()
	select {
	case p := <-done:
		return &Resp{Status: rec.Code, Header: rec.Result().Header, Body: rec.Body.Bytes(), Aborted: p}
	case <-limit.C:
		return &Resp{Hang: true}
	}
}

func (w *World) get(target string) *Resp { return do(w.Router, "GET", target, nil, nil) }

// contacts returns the proxied requests the upstreams saw since the last call, per cluster.
func (w *World) contacts() map[string][]RecReq {
	res := map[string][]RecReq{}
	for c, u := range w.Ups {
		if rs := u.Take(); len(rs) > 0 {
			res[c] = rs
		}
	}
	return res
}

// listItem is what a list response says about one item.
type listItem struct {
	ID    string // cluster|ns|name
	Anno  map[string]string
	Index map[string]string
	Raw   map[string]interface{}
}

const (
	annoCluster = "ckube.doacloud.io/cluster"
	annoIndex   = "ckube.daocloud.io/indexes"
)

func itemOf(v interface{}) (listItem, error) {
	m, ok := v.(map[string]interface{})
	if !ok {
		return listItem{}, fmt.Errorf("item is %T", v)
	}
	md, _ := m["metadata"].(map[string]interface{})
	if md == nil {
		return listItem{}, fmt.Errorf("item without metadata")
	}
	it := listItem{Raw: m, Anno: map[string]string{}, Index: map[string]string{}}
	if a, ok := md["annotations"].(map[string]interface{}); ok {
		for k, v := range a {
			it.Anno[k], _ = v.(string)
		}
	}
	ns, _ := md["namespace"].(string)
	name, _ := md["name"].(string)
	it.ID = it.Anno[annoCluster] + "|" + ns + "|" + name
	_ = json.Unmarshal([]byte(it.Anno[annoIndex]), &it.Index)
	return it, nil
}

type listResp struct {
	Items  []listItem
	IDs    []string
	Remain int64
	APIV   string
	Kind   string
}

// parseList decodes a list response; problems with its form are returned as an error.
func parseList(r *Resp) (*listResp, error) {
	if r.Hang {
		return nil, fmt.Errorf("no answer within 60 s")
	}
	if r.Aborted != "" {
		return nil, fmt.Errorf("handler died: %s", r.Aborted)
	}
	if r.Status != 200 {
		return nil, fmt.Errorf("status %d: %s", r.Status, trunc(r.Body))
	}
	dec := json.NewDecoder(bytes.NewReader(r.Body))
	dec.UseNumber()
	m := map[string]interface{}{}
	if err := dec.Decode(&m); err != nil {
		return nil, fmt.Errorf("not JSON: %v: %s", err, trunc(r.Body))
	}
	l := &listResp{}
	l.APIV, _ = m["apiVersion"].(string)
	l.Kind, _ = m["kind"].(string)
	items, ok := m["items"].([]interface{})
	if !ok {
		return nil, fmt.Errorf("items is not an array: %s", trunc(r.Body))
	}
	for _, it := range items {
		x, err := itemOf(it)
		if err != nil {
			return nil, err
		}
		l.Items = append(l.Items, x)
		l.IDs = append(l.IDs, x.ID)
	}
	if md, ok := m["metadata"].(map[string]interface{}); ok {
		if n, ok := md["remainingItemCount"].(json.Number); ok {
			l.Remain, _ = n.Int64()
		} else {
			l.Remain = -1
		}
	}
	return l, nil
}

func trunc(b []byte) string {
	s := string(b)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return strings.TrimSpace(s)
}

// startServer serves the router over real connections.
// testServer can be closed although handlers are stuck.
type testServer struct{ *httptest.Server }

func (s *testServer) Close() {
	s.CloseClientConnections()
	within(s.Server.Close)
}

func startServer(h http.Handler) *testServer {
	s := httptest.NewUnstartedServer(h)
	s.Config.ErrorLog = discardLog
	s.Start()
	return &testServer{s}
}
