package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"
)

// Upstream is a scripted Kubernetes API server: lists and watches of collections, faults, and a record of
// every request it received.

type RecReq struct {
	Method   string
	Path     string // decoded
	RawPath  string // as it was escaped
	RawQuery string
	Query    url.Values
	Header   http.Header
	Body     []byte
	Watch    bool
	Remote   string
}

type coll struct {
	kind string // list kind
	api  string
	objs map[string]json.RawMessage
}

type stream struct {
	path  string
	mu    sync.Mutex
	cond  *sync.Cond
	queue [][]byte
	end   string // "", "close", "abort"
	gone  bool
	sent  int // object events written
}

type Upstream struct {
	Name string
	Base string // path the API server is served below, behind which it is the only thing to be reached

	mu      sync.Mutex
	colls   map[string]*coll
	streams map[*stream]bool
	fault   map[string]string // list path -> fault for watch requests
	reqs    []RecReq
	opened  map[string]int // watches opened per path (after faults: all attempts)
	served  map[string]int // watches that delivered the full state
	rv      int
	// Hook may answer a request itself (body already read).
	Hook func(w http.ResponseWriter, r *http.Request, body []byte) bool

	// Auth is the Authorization header with which requests are let in, if set, and wrong is what else has arrived.
	Auth  *string
	wrong map[string]bool
	// TLS makes it serve HTTP/2.
	TLS bool

	// two front ends on the same state: one for the watcher, and a recorded one for proxied requests
	addr [2]string
	srv  [2]*http.Server
}

func NewUpstream(name string) *Upstream { return newUpstream(name, false) }

func newUpstream(name string, tls bool) *Upstream {
	u := &Upstream{
		Name: name, TLS: tls, wrong: map[string]bool{}, colls: map[string]*coll{}, streams: map[*stream]bool{}, fault: map[string]string{},
		opened: map[string]int{}, served: map[string]int{},
	}
	u.addr = [2]string{"127.0.0.1:0", "127.0.0.1:0"}
	u.Up()
	return u
}

// URL is the front end whose requests are recorded; WatchURL the other one.
func (u *Upstream) URL() string      { return u.scheme() + u.addr[0] + u.Base }
func (u *Upstream) WatchURL() string { return u.scheme() + u.addr[1] + u.Base }

func (u *Upstream) scheme() string {
	if u.TLS {
		return "https://"
	}
	return "http://"
}

// CA is what clients verify it with, if at all.
func (u *Upstream) CA() []byte {
	if !u.TLS {
		return nil
	}
	return testCert().pem
}

type cert struct {
	tls tls.Certificate
	pem []byte
}

var testCert = sync.OnceValue(func() *cert {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "upstream"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(crand.Reader, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	return &cert{tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
})

// letIn sets the credentials it accepts from now on.
func (u *Upstream) letIn(auth string) {
	u.mu.Lock()
	u.Auth = &auth
	u.mu.Unlock()
}

// strange returns the credentials that arrived and were not accepted.
func (u *Upstream) strange() []string {
	u.mu.Lock()
	defer u.mu.Unlock()
	return sortedStrings(u.wrong)
}

// Up starts listening (again, on the same ports).
func (u *Upstream) Up() {
	for i := 0; i < 2; i++ {
		var ln net.Listener
		var err error
		for j := 0; j < 500; j++ {
			ln, err = net.Listen("tcp", u.addr[i])
			if err == nil {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		if err != nil {
			panic(err)
		}
		rec := i == 0
		srv := &http.Server{ErrorLog: discardLog, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { u.serve(w, r, rec) })}
		u.mu.Lock()
		u.srv[i], u.addr[i] = srv, ln.Addr().String()
		u.mu.Unlock()
		if u.TLS {
			srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{testCert().tls}}
			go func() { _ = srv.ServeTLS(ln, "", "") }()
			continue
		}
		go func() { _ = srv.Serve(ln) }()
	}
}

// Down refuses and drops all connections.
func (u *Upstream) Down() {
	u.mu.Lock()
	srv := u.srv
	u.mu.Unlock()
	u.endStreams("", "abort")
	for _, s := range srv {
		_ = s.Close()
	}
}

func (u *Upstream) Close() { u.Down() }

func (u *Upstream) coll(path string) *coll {
	c := u.colls[path]
	if c == nil {
		c = &coll{objs: map[string]json.RawMessage{}, kind: "List", api: "v1"}
		u.colls[path] = c
	}
	return c
}

func (u *Upstream) Serve(path, api, listKind string) {
	u.mu.Lock()
	c := u.coll(path)
	c.kind, c.api = listKind, api
	u.mu.Unlock()
}

func eventJSON(typ string, obj []byte) []byte {
	b := make([]byte, 0, len(obj)+40)
	b = append(b, fmt.Sprintf(`{"type":%q,"object":`, typ)...)
	b = append(b, obj...)
	return append(b, "}\n"...)
}

func (u *Upstream) broadcast(path string, b []byte) {
	for s := range u.streams {
		if s.path == path {
			s.push(b)
		}
	}
}

func (s *stream) push(b []byte) {
	s.mu.Lock()
	if s.end == "" { // nothing follows the end
		s.queue = append(s.queue, b)
		s.cond.Broadcast()
	}
	s.mu.Unlock()
}

// Put stores an object and sends ADDED or MODIFIED on open streams.
func (u *Upstream) Put(path, key string, obj []byte) {
	u.mu.Lock()
	defer u.mu.Unlock()
	c := u.coll(path)
	typ := "ADDED"
	if _, ok := c.objs[key]; ok {
		typ = "MODIFIED"
	}
	c.objs[key] = obj
	u.broadcast(path, eventJSON(typ, obj))
}

// Del removes an object and sends DELETED.
func (u *Upstream) Del(path, key string) {
	u.mu.Lock()
	defer u.mu.Unlock()
	c := u.coll(path)
	if o, ok := c.objs[key]; ok {
		delete(c.objs, key)
		u.broadcast(path, eventJSON("DELETED", o))
	}
}

// Raw sends bytes on the open streams of path.
func (u *Upstream) Raw(path string, b []byte) {
	u.mu.Lock()
	u.broadcast(path, b)
	u.mu.Unlock()
}

func (u *Upstream) Keys(path string) []string {
	u.mu.Lock()
	defer u.mu.Unlock()
	var ks []string
	for k := range u.coll(path).objs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (u *Upstream) Obj(path, key string) []byte {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.coll(path).objs[key]
}

// endStreams ends the streams of path ("" for all): "close" ends the response, "abort" resets the connection.
func (u *Upstream) endStreams(path, how string) int {
	u.mu.Lock()
	defer u.mu.Unlock()
	n := 0
	for s := range u.streams {
		if path == "" || s.path == path {
			s.mu.Lock()
			s.end = how
			s.cond.Broadcast()
			s.mu.Unlock()
			n++
		}
	}
	return n
}

func (u *Upstream) OpenStreams(path string) int {
	u.mu.Lock()
	defer u.mu.Unlock()
	n := 0
	for s := range u.streams {
		if path == "" || s.path == path {
			n++
		}
	}
	return n
}

func (u *Upstream) SetFault(path, f string) {
	u.mu.Lock()
	u.fault[path] = f
	u.mu.Unlock()
}

func (u *Upstream) Opened(path string) int {
	u.mu.Lock()
	defer u.mu.Unlock()
	if path == "" {
		n := 0
		for _, v := range u.opened {
			n += v
		}
		return n
	}
	return u.opened[path]
}

func (u *Upstream) Requests() []RecReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]RecReq{}, u.reqs...)
}

// Take returns the requests recorded since the last Take.
func (u *Upstream) Take() []RecReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.reqs
	u.reqs = nil
	return r
}

func isWatch(r *http.Request) bool {
	w := strings.ToLower(r.URL.Query().Get("watch"))
	return w == "true" || w == "1" || w == "y" || strings.Contains(r.URL.Path, "/watch/")
}

func (u *Upstream) serve(w http.ResponseWriter, r *http.Request, record bool) {
	body, _ := io.ReadAll(r.Body)
	outside := !strings.HasPrefix(r.URL.Path, u.Base+"/")
	if !outside && u.Base != "" {
		v := *r.URL
		v.Path, v.RawPath = r.URL.Path[len(u.Base):], r.URL.EscapedPath()[len(u.Base):]
		r.URL = &v
	} else if outside {
		r.URL.Path, r.URL.RawPath = "outside of the cluster:"+r.URL.Path, ""
	}
	u.mu.Lock()
	if record {
		u.reqs = append(u.reqs, RecReq{Method: r.Method, Path: r.URL.Path, RawPath: r.URL.EscapedPath(), RawQuery: r.URL.RawQuery, Query: r.URL.Query(),
			Header: r.Header.Clone(), Body: body, Watch: isWatch(r), Remote: r.RemoteAddr})
	}
	hook := u.Hook
	if !record {
		hook = nil
	}
	denied := u.Auth != nil && r.Header.Get("Authorization") != *u.Auth
	if denied {
		u.wrong[r.Header.Get("Authorization")] = true
	}
	u.mu.Unlock()
	if denied {
		u.fail(w, "status401")
		return
	}
	if outside {
		http.Error(w, "<html>no such page</html>", http.StatusNotFound)
		return
	}
	if hook != nil && hook(w, r, body) {
		return
	}
	path := r.URL.Path
	if isWatch(r) {
		u.serveWatch(w, r, path)
		return
	}
	u.mu.Lock()
	c := u.colls[path]
	var out []byte
	if c != nil && r.Method == http.MethodGet {
		var items []string
		for _, k := range sortedRaw(c.objs) {
			items = append(items, string(c.objs[k]))
			if r.URL.Query().Get("limit") == "1" {
				break
			}
		}
		out = []byte(fmt.Sprintf(`{"apiVersion":%q,"kind":%q,"metadata":{"resourceVersion":"%d"},"items":[%s]}`, c.api, c.kind, 1000+u.rv, strings.Join(items, ",")))
	}
	f := u.fault[path]
	u.mu.Unlock()
	if out != nil {
		switch f {
		case "", "emptyend":
		case "hang", "listhang":
			<-r.Context().Done()
			return
		case "junk200": // an intermediary answers
			w.Header().Set("Content-Type", "application/json")
			_, _ = io.WriteString(w, `{"kind":"Status","apiVersion":"v1","status":"Success"}`)
			return
		default:
			u.fail(w, f)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		_, _ = w.Write(out)
		return
	}
	w.Header().Set("Content-Type", "application/json")
	_, _ = io.WriteString(w, fmt.Sprintf(`{"kind":"Echo","apiVersion":"v1","cluster":%q,"path":%q}`, u.Name, path))
}

func sortedRaw(m map[string]json.RawMessage) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

const status500 = `{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"etcdserver: no leader","reason":"InternalError","code":500}`

const status410 = `{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"too old resource version","reason":"Expired","code":410}`

func (u *Upstream) fail(w http.ResponseWriter, f string) {
	switch f {
	case "status500":
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(500)
		_, _ = io.WriteString(w, `{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"etcd is gone","reason":"InternalError","code":500}`)
	case "status503text":
		w.WriteHeader(503)
		_, _ = io.WriteString(w, "no backends")
	case "status403":
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(403)
		_, _ = io.WriteString(w, `{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"forbidden","reason":"Forbidden","code":403}`)
	case "status404json":
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(404)
		_, _ = io.WriteString(w, `{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"the server could not find the requested resource","reason":"NotFound","details":{},"code":404}`)
	case "status401":
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(401)
		_, _ = io.WriteString(w, `{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"Unauthorized","reason":"Unauthorized","code":401}`)
	case "status410":
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(410)
		_, _ = io.WriteString(w, status410)
	case "status429":
		w.WriteHeader(429)
		_, _ = io.WriteString(w, "too many requests")
	case "status404":
		w.Header().Set("Content-Type", "text/plain; charset=utf-8")
		w.WriteHeader(404)
		_, _ = io.WriteString(w, "404 page not found\n")
	case "drop":
		if h, ok := w.(http.Hijacker); ok {
			c, _, err := h.Hijack()
			if err == nil {
				if t, ok := c.(*net.TCPConn); ok {
					_ = t.SetLinger(0)
				}
				_ = c.Close()
			}
			return
		}
		panic(http.ErrAbortHandler) // of HTTP/2, there is one stream to reset
	default:
		panic(http.ErrAbortHandler)
	}
}

func (u *Upstream) serveWatch(w http.ResponseWriter, r *http.Request, path string) {
	fl := w.(http.Flusher)
	s := &stream{path: path}
	s.cond = sync.NewCond(&s.mu)
	u.mu.Lock()
	u.opened[path]++
	f := u.fault[path]
	switch f {
	case "status500", "status503text", "status403", "status404", "status404json", "status401", "status410", "status429", "drop":
		u.mu.Unlock()
		u.fail(w, f)
		return
	case "hang":
		u.mu.Unlock()
		<-r.Context().Done()
		return
	}
	var initial bytes.Buffer
	c := u.coll(path)
	for _, k := range sortedRaw(c.objs) {
		initial.Write(eventJSON("ADDED", c.objs[k]))
	}
	if f == "" || f == "listhang" {
		u.served[path]++
		u.streams[s] = true
	}
	u.mu.Unlock()
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	fl.Flush()
	switch f {
	case "emptyend":
		return
	case "emptyabort":
		panic(http.ErrAbortHandler)
	case "errevent":
		_, _ = w.Write(eventJSON("ERROR", []byte(status410)))
		fl.Flush()
		return
	case "erridle": // an error event, then the stream stays open for a while
		_, _ = w.Write(eventJSON("ERROR", []byte(status410)))
		fl.Flush()
		select {
		case <-r.Context().Done():
		case <-time.After(300 * time.Millisecond):
		}
		return
	case "garbage", "junk200":
		_, _ = io.WriteString(w, "<html>bad gateway</html>\n")
		fl.Flush()
		return
	case "partial":
		_, _ = io.WriteString(w, `{"type":"ADDED","object":{"apiVersion":"v1","ki`)
		fl.Flush()
		panic(http.ErrAbortHandler)
	case "bookmark":
		_, _ = io.WriteString(w, fmt.Sprintf(`{"type":"BOOKMARK","object":{"apiVersion":%q,"kind":%q,"metadata":{"resourceVersion":"5"}}}`+"\n", c.api, strings.TrimSuffix(c.kind, "List")))
		fl.Flush()
		return
	}
	defer func() {
		u.mu.Lock()
		delete(u.streams, s)
		u.mu.Unlock()
	}()
	if initial.Len() > 0 {
		if _, err := w.Write(initial.Bytes()); err != nil {
			return
		}
		fl.Flush()
	}
	stopped := make(chan struct{})
	defer close(stopped)
	go func() {
		select {
		case <-r.Context().Done():
			s.mu.Lock()
			s.gone = true
			s.cond.Broadcast()
			s.mu.Unlock()
		case <-stopped:
		}
	}()
	for {
		s.mu.Lock()
		for len(s.queue) == 0 && s.end == "" && !s.gone {
			s.cond.Wait()
		}
		q, end, gone := s.queue, s.end, s.gone
		s.queue = nil
		s.mu.Unlock()
		for _, b := range q {
			if _, err := w.Write(b); err != nil {
				return
			}
		}
		if len(q) > 0 {
			fl.Flush()
		}
		if gone {
			return
		}
		if end == "abort" {
			panic(http.ErrAbortHandler)
		}
		if end != "" {
			return
		}
	}
}
