package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C24", "exploration", c24)
	register("C27", "exploration", c27)
}

// dworld is a set of clusters, a daemon on them, and what it is expected to do.
type dworld struct {
	c      *Ctx
	g      *rand.Rand
	tag    string
	ups    map[string]*Upstream // by name, all that exist
	all    []*gvrDef
	objs   map[string]map[string]*Obj // cluster/root -> key -> object
	d      *Daemon
	how    string // how files are changed
	dir    string
	ctxs   []string // contexts of the kubeconfig in effect
	cur    string
	defs   []*gvrDef
	token  string
	trace  []string
	json   bool
	limit  time.Duration
	failed bool
	// single is the deployment in a pod: one cluster, named by the configuration, without a kubeconfig to follow
	single bool
	// kinds and probes are what is configured of the types beyond their names: list kinds, and an index of a field
	kinds  map[*gvrDef]string
	probes map[*gvrDef]string
	// spare is the number of contexts of clusters which are not there
	spare int
	// gen is the generation of the credentials in the kubeconfig
	gen int
}

var daemonClusters = []string{"c1", "kubernetes-admin@kubernetes", "prod-2", "extra", "default"}

func newDWorld(c *Ctx, g *rand.Rand, tag, how string) *dworld {
	w := &dworld{c: c, g: g, tag: tag, how: how, ups: map[string]*Upstream{}, objs: map[string]map[string]*Obj{}, limit: 60 * time.Second,
		all: []*gvrDef{defPods, defSvcs, defNS, defDeps, defWidgets, defTools}, dir: filepath.Join(c.Tmp, tag)}
	_ = os.MkdirAll(filepath.Join(w.dir, "conf"), 0o755)
	for _, n := range daemonClusters {
		u := newUpstream(n, n != "c1" && n != "extra")
		if n == "prod-2" {
			u.Base = "/k8s/clusters/c-m8x"
		}
		for _, d := range w.all {
			u.Serve(d.root(), d.api(), d.listKind())
			w.objs[n+d.root()] = map[string]*Obj{}
		}
		w.ups[n] = u
		for _, d := range w.all {
			for i := 0; i < 1+g.Intn(6); i++ {
				w.put(n, d)
			}
		}
	}
	return w
}

func (w *dworld) put(cl string, d *gvrDef) {
	o := genObj(w.g, d, cl, pick(w.g, nsNames), pick(w.g, objNames))
	w.objs[cl+d.root()][o.key()] = o
	w.ups[cl].Put(d.root(), o.key(), o.Bytes)
}

func (w *dworld) del(cl string, d *gvrDef) {
	for k := range w.objs[cl+d.root()] {
		delete(w.objs[cl+d.root()], k)
		w.ups[cl].Del(d.root(), k)
		return
	}
}

func (w *dworld) close() {
	if w.d != nil {
		w.d.Stop()
	}
	for _, u := range w.ups {
		u.Close()
	}
}

func (w *dworld) confPath() string { return filepath.Join(w.dir, "conf", "local.json") }
func (w *dworld) kubePath() string { return filepath.Join(w.dir, ".kube", "config") }

func (w *dworld) change(path string, b []byte) error {
	switch w.how {
	case "rename":
		return replaceByRename(path, b)
	case "recreate":
		return removeAndCreate(path, b)
	case "configmap":
		if path == w.confPath() {
			return mountConfigMap(filepath.Dir(path), filepath.Base(path), b)
		}
		return replaceByRename(path, b)
	}
	return writeInPlace(path, b)
}

// kube is a kubeconfig with new credentials, which are the only ones the clusters accept from then on.
func (w *dworld) kube(ctxs []string, cur string) []byte {
	var ks []kctx
	w.gen++
	for _, n := range ctxs {
		user, header := credentials(n, w.gen)
		if !w.ups[n].TLS {
			header = "" // clients keep them to themselves on insecure connections
		}
		w.ups[n].letIn(header)
		ks = append(ks, kctx{Name: n, URL: w.ups[n].URL(), CA: w.ups[n].CA(), User: user})
	}
	for i := 0; i < w.spare; i++ {
		ks = append(ks, kctx{Name: fmt.Sprintf("spare-%d", i), URL: "http://127.0.0.1:1"})
	}
	return kubeYAML(ks, cur, w.json)
}

var probes = []string{"", "name", "namespace", "uid", "resourceVersion"}

func (w *dworld) listKind(d *gvrDef) string {
	if k := w.kinds[d]; k != "" {
		return k
	}
	return d.listKind()
}

// conf is the configuration file that asks for the state of w.
func (w *dworld) conf() []byte {
	var defs []*gvrDef
	for _, d := range w.defs {
		x := *d
		x.ListKind = w.kinds[d]
		if f := w.probes[d]; f != "" {
			x.Index = append(append([]idx{}, x.Index...), idx{Key: "probe", Expr: "{.metadata." + f + "}"})
		}
		defs = append(defs, &x)
	}
	if w.single {
		if w.cur == "default" && w.g.Intn(2) == 0 {
			return configJSON(defs, w.token)
		}
		return configJSON(defs, w.token, w.cur)
	}
	// a default cluster in the file does not count
	return configJSON(defs, w.token, pick(w.g, []string{"", "", "extra", "other", "default"}))
}

// someSingle chooses the only cluster of a daemon in a pod.
func (w *dworld) someSingle() error {
	w.cur = pick(w.g, []string{"default", "default", "c1", "prod-2"})
	w.ctxs = []string{w.cur}
	return os.WriteFile(filepath.Join(w.dir, "credentials"), w.kube(w.ctxs, w.cur), 0o600)
}

func (w *dworld) start(explicitKube bool) bool {
	if w.single {
		return w.run("", "KUBECONFIG="+filepath.Join(w.dir, "credentials"))
	}
	_ = os.MkdirAll(filepath.Dir(w.kubePath()), 0o755)
	if err := os.WriteFile(w.kubePath(), w.kube(w.ctxs, w.cur), 0o600); err != nil {
		w.c.Inconclusive("%v", err)
		return false
	}
	k := ""
	if explicitKube {
		k = w.kubePath()
	}
	return w.run(k)
}

func (w *dworld) run(k string, env ...string) bool {
	var err error
	if w.how == "configmap" {
		err = mountConfigMap(filepath.Dir(w.confPath()), filepath.Base(w.confPath()), w.conf())
	} else {
		err = os.WriteFile(w.confPath(), w.conf(), 0o644)
	}
	if err != nil {
		w.c.Inconclusive("%v", err)
		return false
	}
	w.d, err = startDaemon(w.dir, w.confPath(), k, env...)
	if err != nil {
		w.c.Inconclusive("%v", err)
		return false
	}
	if err := w.d.Ready(60 * time.Second); err != nil {
		w.violate("start", err.Error())
		return false
	}
	w.trace = append(w.trace, fmt.Sprintf("start: contexts %q, current %q, types %s, token %q", w.ctxs, w.cur, defNames(w.defs), w.token))
	return true
}

func defNames(ds []*gvrDef) string {
	var s []string
	for _, d := range ds {
		s = append(s, d.R)
	}
	return strings.Join(s, "+")
}

func (w *dworld) violate(key, what string) {
	w.failed = true
	l := ""
	if w.d != nil {
		l = w.d.Log()
		for _, cl := range daemonClusters {
			for _, d := range w.all {
				w.trace = append(w.trace, fmt.Sprintf("%s %s: %d watches open, %d objects", cl, d.R, w.ups[cl].OpenStreams(d.root()), len(w.objs[cl+d.root()])))
			}
		}
		if dir := os.Getenv("VERIF_DEBUG"); dir != "" {
			_ = os.WriteFile(filepath.Join(dir, w.tag+".log"), []byte(l), 0o644)
		}
		if len(l) > 2500 {
			l = l[len(l)-2500:]
		}
	}
	w.c.Violate(key+"/"+w.how, w.tag+": "+what, map[string]interface{}{"history": w.trace, "daemon_log": l})
}

func (w *dworld) hdr() map[string]string {
	if w.token == "" {
		return nil
	}
	return map[string]string{"Authorization": "Bearer " + w.token}
}

func (w *dworld) has(d *gvrDef) bool {
	for _, x := range w.defs {
		if x == d {
			return true
		}
	}
	return false
}

// wrong compares the daemon with what the configuration in effect asks for; "" if everything is as it should be.
func (w *dworld) wrong() string {
	if !w.d.Alive() {
		return "the daemon ended"
	}
	if w.token != "" {
		if r := w.d.Get(defPods.root()); r.Status != 401 {
			return fmt.Sprintf("a request without the token is answered %d", r.Status)
		}
	}
	if msg := w.leaked(); msg != "" {
		return msg
	}
	active := map[string]bool{}
	for _, cl := range w.ctxs {
		active[cl] = true
	}
	for _, d := range w.all {
		for _, cl := range append([]string{""}, daemonClusters...) {
			target, eff := d.root(), cl
			if cl == "" {
				eff = w.cur
			}
			if w.has(d) {
				if cl != "" {
					p := page.Paginate{}
					if p.Clusters([]string{cl}) != nil {
						continue // not selectable: its name is not a label value
					}
					o, err := page.QueryListOptions(metav1.ListOptions{}, p)
					if err != nil {
						return "the SDK refuses a query: " + err.Error()
					}
					target += "?labelSelector=" + url.QueryEscape(o.LabelSelector)
				}
				l, err := parseList(w.d.Do("GET", target, w.hdr(), nil))
				if err != nil {
					return fmt.Sprintf("list %s of cluster %q: %v", d.R, eff, err)
				}
				want, probe := map[string]string{}, map[string]string{}
				if active[eff] {
					for _, o := range w.objs[eff+d.root()] {
						want[o.id()] = rv(o.Raw)
						if w.probes[d] != "" {
							probe[o.id()] = text(at(o.Raw, "metadata", w.probes[d]))
						}
					}
				}
				got := map[string]string{}
				for _, it := range l.Items {
					if it.Index["cluster"] != eff {
						return fmt.Sprintf("list %s of cluster %q: item %s is not from the cache of that cluster", d.R, eff, it.ID)
					}
					got[it.ID] = rv(it.Raw)
					if p, ok := it.Index["probe"]; got[it.ID] == want[it.ID] && (p != probe[it.ID] || ok != (w.probes[d] != "")) {
						return fmt.Sprintf("list %s of cluster %q: index probe of %s is %q (%v), configured as %q it is %q", d.R, eff, it.ID, p, ok, w.probes[d], probe[it.ID])
					}
				}
				if df := mapDiff(got, want); df != "" {
					return fmt.Sprintf("list %s of cluster %q: %s", d.R, eff, df)
				}
				if l.Kind != w.listKind(d) {
					return fmt.Sprintf("list %s has kind %q instead of %q", d.R, l.Kind, w.listKind(d))
				}
				w.c.Count("cached_lists_right", 1)
			} else { // forwarded
				if cl != "" {
					target += "?cluster=" + url.QueryEscape(cl)
				}
				r := w.d.Do("GET", target, w.hdr(), nil)
				if !active[eff] {
					if r.Status != 404 {
						return fmt.Sprintf("forwarding %s to cluster %q, which is not configured, is answered %d", d.R, eff, r.Status)
					}
					continue
				}
				l, err := parseList(r)
				if err != nil {
					return fmt.Sprintf("forwarded list %s of cluster %q: %v", d.R, eff, err)
				}
				if len(l.Items) != len(w.objs[eff+d.root()]) {
					return fmt.Sprintf("forwarded list %s of cluster %q: %d instead of %d items", d.R, eff, len(l.Items), len(w.objs[eff+d.root()]))
				}
				for _, it := range l.Items {
					if len(it.Index) > 0 || it.Anno["origin"] != eff {
						return fmt.Sprintf("list %s of cluster %q, which is not configured to be cached: item %s %v", d.R, eff, it.ID, it.Anno)
					}
				}
				w.c.Count("forwarded_lists_right", 1)
			}
		}
	}
	for _, cl := range daemonClusters {
		for _, d := range w.all {
			want := 0
			if active[cl] && w.has(d) {
				want = 1
			}
			if n := w.ups[cl].OpenStreams(d.root()); n != want {
				return fmt.Sprintf("%d watches of %s are open on cluster %q instead of %d", n, d.R, cl, want)
			}
		}
	}
	return ""
}

// leaked tells of credentials that were sent to a cluster they are not for.
func (w *dworld) leaked() string {
	for _, cl := range daemonClusters {
		for _, h := range w.ups[cl].strange() {
			own := false
			for gen := 0; gen <= w.gen && !own; gen++ {
				_, x := credentials(cl, gen)
				own = x == h && w.ups[cl].TLS
			}
			if !own { // of an earlier kubeconfig
				return fmt.Sprintf("cluster %q received a request with the Authorization header %q, the credentials of somebody else", cl, h)
			}
		}
	}
	return ""
}

// settle waits until the daemon does what the configuration in effect asks for.
func (w *dworld) settle(key string) bool {
	if w.failed {
		return false
	}
	deadline := time.Now().Add(w.limit)
	for {
		msg := w.wrong()
		if msg == "" {
			w.c.Count("settled_states", 1)
			return true
		}
		if time.Now().After(deadline) || !w.d.Alive() {
			w.violate(key, msg+" ("+w.limit.String()+" after the change)")
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// hold checks that what is in service stays so for a while.
func (w *dworld) hold(key string, d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
		if msg := w.wrong(); msg != "" {
			w.violate(key, msg)
			return false
		}
		w.c.Count("held_states", 1)
	}
	return true
}

// awaitReload waits until the counter exceeds n.
func (w *dworld) awaitReload(status string, n float64) bool {
	for end := time.Now().Add(w.limit); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
		if v := w.d.reloads(status); v > n {
			w.c.Count("reloads_counted_"+status, 1)
			return true
		}
		if !w.d.Alive() {
			break
		}
	}
	w.violate("counter", fmt.Sprintf("reloads counted as %q stayed at %v for %s after the change", status, n, w.limit))
	return false
}

func (w *dworld) someDefs() []*gvrDef {
	var ds []*gvrDef
	for _, i := range w.g.Perm(len(w.all))[:2+w.g.Intn(3)] {
		ds = append(ds, w.all[i])
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].root() < ds[j].root() })
	w.kinds, w.probes = map[*gvrDef]string{}, map[*gvrDef]string{}
	for _, d := range ds {
		if !d.Custom { // of other types it tells the kind of the objects, too
			w.kinds[d] = pick(w.g, []string{"", "", d.Kind + "ListV2", d.Kind + "Collection"})
		}
		w.probes[d] = pick(w.g, probes)
	}
	return ds
}

func (w *dworld) someCtxs() ([]string, string) {
	var cs []string
	for _, i := range w.g.Perm(len(daemonClusters))[:1+w.g.Intn(3)] {
		cs = append(cs, daemonClusters[i])
	}
	return cs, pick(w.g, cs)
}

// badUser has one context with a user whose client certificate is missing.
const badUser = `apiVersion: v1
kind: Config
current-context: good
clusters: [{name: k, cluster: {server: "http://127.0.0.1:1"}}]
users: [{name: good, user: {token: t}}, {name: bad, user: {client-certificate: /nonexistent/c.pem, client-key: /nonexistent/k.pem}}]
contexts: [{name: good, context: {cluster: k, user: good}}, {name: bad, context: {cluster: k, user: bad}}]
`

var badConfigs = []string{"", `{"proxies": [{"group": "apps", "resource": "deployments", "list_kind": "DeploymentList"}]}`, "{", `{"proxies": [{"group": 1}]}`, "not json", `{"proxies": {}}`, `{"proxies": [], "token": 5}`, "\x00\x00"}
var badKubes = []string{"", badUser, strings.Replace(badUser, "cluster: {server: \"http:", "cluster: {certificate-authority: /nonexistent/ca.pem, server: \"https:", 1), strings.NewReplacer("client-certificate: /nonexistent/c.pem, client-key: /nonexistent/k.pem", "auth-provider: {name: nosuch}", "http:", "https:").Replace(badUser), "{", "\tfoo: [", "contexts: 5\n", "apiVersion: v1\ncontexts:\n- name: odd\n  context:\n    cluster: odd\nclusters:\n- name: odd\n  cluster:\n    server: \"http://[::1\"\ncurrent-context: odd\n"}

func c24(c *Ctx) {
	c.Rule("a case is one state of a running daemon after a start or a change of its files: every type of every cluster is listed, the watches open on the clusters and the reload counter are compared with the configuration in effect; distinct by history; all are non-trivial")
	c.Assume("a change takes effect within 60 s; a configuration that cannot be loaded is one the daemon cannot read or parse, or whose clients cannot be created; the kubeconfig counts as configuration; at least one reload is counted per change (rewriting in place may be seen as several)")
	hows := []string{"in-place", "rename", "recreate", "configmap"}
	var wg sync.WaitGroup
	n := c.N(8, 32)
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		i := i
		g := c.Rand(int64(10 + i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			w := newDWorld(c, g, fmt.Sprintf("daemon-%d", i), hows[i%len(hows)])
			w.single = i%8 == 1 || i%8 == 7
			defer w.close()
			c24daemon(w, i)
		}()
	}
	wg.Wait()
	for i := 0; i < c.N(8, 24) && !c.Stop(); i += 4 {
		for j := i; j < i+4; j++ {
			j := j
			g := c.Rand(int64(900 + j))
			wg.Add(1)
			go func() {
				defer wg.Done()
				c24busy(c, g, j)
			}()
		}
		wg.Wait()
	}
	c.Need("changes_during_start", 6)
	c.Need("rewrites_during_loading", 400)
	c.Need("settled_states", 30)
	c.Need("held_states", 10)
	c.Need("reloads_counted_success", 15)
	c.Need("reloads_counted_failed", 6)
	c.Need("reloads_without_kubeconfig", 2)
	c.Need("broken_kubeconfigs", 10)
}

func c24daemon(w *dworld, i int) {
	c, g := w.c, w.g
	w.json = i%2 == 1
	w.ctxs, w.cur = w.someCtxs()
	w.defs = w.someDefs()
	if i%3 == 0 {
		w.token = "first-token"
	}
	if w.single {
		if err := w.someSingle(); err != nil {
			c.Inconclusive("%v", err)
			return
		}
	}
	if !w.start(i%4 != 2) || !w.settle("start") {
		return
	}
	if i == 0 {
		c.Sample(w.trace)
	}
	steps := c.N(5, 14)
	for s := 0; s < steps && !c.Stop(); s++ {
		w.mutate(4)
		ok, bad := w.d.reloads("success"), w.d.reloads("failed")
		step := (s + i) % 5
		if s == 0 {
			step = 0
		}
		if w.single && step == 2 {
			step = 3
		}
		switch step {
		case 0, 3: // another configuration
			w.defs = w.someDefs()
			w.token = pick(g, []string{"", "tok-A", "tok-B"})
			if w.single {
				if err := w.someSingle(); err != nil {
					c.Inconclusive("%v", err)
					return
				}
				c.Count("reloads_without_kubeconfig", 1)
			}
			w.trace = append(w.trace, fmt.Sprintf("configuration: types %s, token %q, default cluster %q", defNames(w.defs), w.token, w.cur))
			if err := w.change(w.confPath(), w.conf()); err != nil {
				c.Inconclusive("%v", err)
				return
			}
			if !w.settle("configuration") || !w.awaitReload("success", ok) {
				return
			}
		case 1, 4: // a configuration that cannot be loaded
			b := badConfigs[(i*3+s)%len(badConfigs)]
			w.trace = append(w.trace, fmt.Sprintf("broken configuration %q", b))
			if err := w.change(w.confPath(), []byte(b)); err != nil {
				c.Inconclusive("%v", err)
				return
			}
			if !w.awaitReload("failed", bad) || !w.hold("broken-configuration", 1500*time.Millisecond) {
				return
			}
			w.mutate(3)
			if !w.settle("broken-configuration") {
				return
			}
			// and back
			ok = w.d.reloads("success")
			w.defs = w.someDefs()
			w.trace = append(w.trace, fmt.Sprintf("configuration: types %s, token %q", defNames(w.defs), w.token))
			if err := w.change(w.confPath(), w.conf()); err != nil {
				c.Inconclusive("%v", err)
				return
			}
			if !w.settle("configuration-again") || !w.awaitReload("success", ok) {
				return
			}
		case 2: // another kubeconfig
			for j := 0; j < 3; j++ {
				b := badKubes[(i*3+j)%len(badKubes)]
				bad = w.d.reloads("failed")
				w.trace = append(w.trace, fmt.Sprintf("broken kubeconfig %q", b))
				if err := w.change(w.kubePath(), []byte(b)); err != nil {
					c.Inconclusive("%v", err)
					return
				}
				if !w.awaitReload("failed", bad) || !w.hold("broken-kubeconfig", 1500*time.Millisecond) {
					return
				}
				c.Count("broken_kubeconfigs", 1)
				ok = w.d.reloads("success")
			}
			w.ctxs, w.cur = w.someCtxs()
			w.trace = append(w.trace, fmt.Sprintf("kubeconfig: contexts %q, current %q", w.ctxs, w.cur))
			if err := w.change(w.kubePath(), w.kube(w.ctxs, w.cur)); err != nil {
				c.Inconclusive("%v", err)
				return
			}
			if !w.settle("kubeconfig") || !w.awaitReload("success", ok) {
				return
			}
		}
		c.Eval(w.tag + strings.Join(w.trace, ";"))
	}
	if !w.hold("end", 500*time.Millisecond) {
		return
	}
	if w.d.Alive() && strings.Contains(w.d.Log(), "panic:") {
		w.violate("panic", "the daemon's log shows a panic")
	}
}

// afterReading returns a channel that is closed when a file has been read, by anybody.
func afterReading(path string) (<-chan struct{}, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC)
	if err != nil {
		return nil, err
	}
	if _, err := syscall.InotifyAddWatch(fd, path, syscall.IN_CLOSE_NOWRITE); err != nil {
		_ = syscall.Close(fd)
		return nil, err
	}
	read := make(chan struct{})
	go func() {
		defer syscall.Close(fd)
		b := make([]byte, 4096)
		for {
			if n, err := syscall.Read(fd, b); n > 0 || err != syscall.EINTR {
				close(read)
				return
			}
		}
	}()
	return read, nil
}

// c24busy changes the files of a daemon while it is loading them, which takes some time with many contexts.
func c24busy(c *Ctx, g *rand.Rand, i int) {
	w := newDWorld(c, g, fmt.Sprintf("busy-%d", i), "in-place")
	defer w.close()
	w.spare = 40
	w.ctxs, w.cur = w.someCtxs()
	w.defs = w.someDefs()
	w.token = "first-token"
	_ = os.MkdirAll(filepath.Dir(w.kubePath()), 0o755)
	for p, b := range map[string][]byte{w.kubePath(): w.kube(w.ctxs, w.cur), w.confPath(): w.conf()} {
		if err := os.WriteFile(p, b, 0o600); err != nil {
			c.Inconclusive("%v", err)
			return
		}
	}
	watched := w.confPath()
	if i%2 == 1 {
		watched = w.kubePath()
	}
	read, err := afterReading(watched)
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	w.trace = append(w.trace, fmt.Sprintf("start: contexts %q, current %q, types %s, token %q", w.ctxs, w.cur, defNames(w.defs), w.token))
	if w.d, err = startDaemon(w.dir, w.confPath(), w.kubePath()); err != nil {
		c.Inconclusive("%v", err)
		return
	}
	select {
	case <-read:
	case <-time.After(30 * time.Second):
		w.violate("start-busy", "30 s after its start the daemon has not read "+watched)
		return
	}
	if i%2 == 1 {
		w.cur = pick(g, w.ctxs)
		for _, n := range w.ctxs {
			if n != w.cur && g.Intn(2) == 0 {
				w.cur = n
			}
		}
		err = replaceByRename(w.kubePath(), w.kube(w.ctxs, w.cur))
	} else {
		w.defs, w.token = w.someDefs(), "second-token"
		err = replaceByRename(w.confPath(), w.conf())
	}
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	w.trace = append(w.trace, fmt.Sprintf("%s replaced as soon as it was read: current %q, types %s, token %q", watched, w.cur, defNames(w.defs), w.token))
	if err := w.d.Ready(60 * time.Second); err != nil {
		w.violate("start-busy", err.Error())
		return
	}
	if !w.settle("changed-during-start") {
		return
	}
	c.Count("changes_during_start", 1)
	c.Eval(w.tag + strings.Join(w.trace, ";"))
	// the kubeconfig is written over and over: it is truncated first, and changes between two readings of one loading
	n := c.N(100, 300)
	for k := 0; k < n && w.d.Alive(); k++ {
		w.cur = pick(g, w.ctxs)
		if err := os.WriteFile(w.kubePath(), w.kube(w.ctxs, w.cur), 0o600); err != nil {
			c.Inconclusive("%v", err)
			return
		}
		time.Sleep(time.Duration(g.Intn(12000)) * time.Microsecond)
		c.Count("rewrites_during_loading", 1)
	}
	w.trace = append(w.trace, fmt.Sprintf("the kubeconfig is rewritten %d times, the last time with current context %q", n, w.cur))
	if !w.settle("rewritten-during-loading") {
		return
	}
	w.defs, w.token = w.someDefs(), "third-token"
	w.trace = append(w.trace, fmt.Sprintf("configuration: types %s, token %q", defNames(w.defs), w.token))
	if err := w.change(w.confPath(), w.conf()); err != nil {
		c.Inconclusive("%v", err)
		return
	}
	if w.settle("after-rewriting") {
		c.Eval(w.tag + strings.Join(w.trace, ";"))
	}
}

// mutate changes objects on all clusters.
func (w *dworld) mutate(n int) {
	for _, cl := range daemonClusters {
		for _, d := range w.all {
			for i := 0; i < w.g.Intn(n+1); i++ {
				if w.g.Intn(3) == 0 {
					w.del(cl, d)
				} else {
					w.put(cl, d)
				}
			}
		}
	}
}

// gaugeWrong compares the daemon's resource gauge with the objects of the configured clusters and types.
func (w *dworld) gaugeWrong() string {
	got, err := w.d.metrics("ckube_resources_total")
	if err != nil {
		return err.Error()
	}
	want := map[string]float64{}
	for _, cl := range w.ctxs {
		for _, d := range w.defs {
			for _, o := range w.objs[cl+d.root()] {
				q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
				want[fmt.Sprintf("{cluster=%s,group=%s,namespace=%s,resource=%s,version=%s}", q(cl), q(d.G), q(o.NS), q(d.R), q(d.V))]++
			}
		}
	}
	for k, v := range got {
		w.c.Count("daemon_gauges_compared", 1)
		if want[k] != v {
			return fmt.Sprintf("gauge %s is %v, %v objects are cached", k, v, want[k])
		}
	}
	for k, v := range want {
		if got[k] != v {
			return fmt.Sprintf("gauge %s is %v, %v objects are cached", k, got[k], v)
		}
	}
	return ""
}

func c27(c *Ctx) {
	c.Rule("a case is one history of cache updates after which the gauge is compared with the cached objects, or one state of a running daemon; distinct by history; all are non-trivial")
	c.Assume("an absent gauge value counts as 0; the daemon's gauge is read when lists show that every event was applied")
	done := make(chan struct{})
	go func() { defer close(done); c27daemons(c) }()
	c27memory(c)
	<-done
	c.Need("gauges_compared", 5000)
	c.Need("daemon_gauges_compared", 100)
	c.Need("daemon_states", 12)
}

func c27daemons(c *Ctx) {
	var wg sync.WaitGroup
	for i := 0; i < c.N(4, 16); i++ {
		i := i
		g := c.Rand(int64(50 + i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newDWorld(c, g, fmt.Sprintf("gauge-%d", i), []string{"in-place", "rename"}[i%2])
			defer w.close()
			w.ctxs, w.cur = w.someCtxs()
			w.defs = w.someDefs()
			if !w.start(true) {
				return
			}
			for s := 0; s < c.N(6, 20) && !c.Stop(); s++ {
				if !w.settle("gauge-settle") {
					return
				}
				// the daemon's gauge may lag an instant behind the list that showed the update
				msg := ""
				for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
					if msg = w.gaugeWrong(); msg == "" {
						break
					}
				}
				if msg != "" {
					w.violate("gauge-daemon", msg)
					return
				}
				c.Count("daemon_states", 1)
				c.Eval(w.tag + strings.Join(w.trace, ";") + fmt.Sprint(s))
				switch s % 3 {
				case 0:
					w.mutate(5)
					w.trace = append(w.trace, "objects change")
				case 1:
					if s%2 == 0 {
						w.ctxs, w.cur = w.someCtxs()
						_ = w.change(w.kubePath(), w.kube(w.ctxs, w.cur))
					} else {
						w.defs = w.someDefs()
						_ = w.change(w.confPath(), w.conf())
					}
					w.trace = append(w.trace, fmt.Sprintf("contexts %q, types %s", w.ctxs, defNames(w.defs)))
				case 2: // everything of a type goes, and the watches are re-established
					cl, d := pick(g, w.ctxs), w.defs[g.Intn(len(w.defs))]
					for len(w.objs[cl+d.root()]) > 0 {
						w.del(cl, d)
					}
					w.ups[cl].endStreams("", "abort")
					w.trace = append(w.trace, fmt.Sprintf("all %s of %s deleted, watches broken", d.R, cl))
				}
			}
		}()
	}
	wg.Wait()
}
