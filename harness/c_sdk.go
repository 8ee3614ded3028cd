package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8slabels "k8s.io/apimachinery/pkg/labels"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
)

func init() {
	register("C01", "exploration", c01)
}

// recStore records the query the proxy hands to its store and answers with fixed items.
type recStore struct {
	store.Store
	mu    sync.Mutex
	q     []store.Query
	items []interface{}
}

func (s *recStore) IsStoreGVR(g store.GroupVersionResource) bool { return g.Resource == "pods" }

func (s *recStore) Query(g store.GroupVersionResource, q store.Query) store.QueryResult {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.q = append(s.q, q)
	return store.QueryResult{Items: append([]interface{}{}, s.items...), Total: int64(len(s.items))}
}

func (s *recStore) take() []store.Query {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := s.q
	s.q = nil
	return q
}

var uniPool = []rune("abcxyz019 _-=!;\"'\\/<>&?~{}[],.:%+\t\n\r\x00\x01\x1f\x7f\u0080\u00ff\u0100\u07ff\u0800\u2028\u2029\ud7ff\ue000\ufeff\ufffd\uffff\U00010000\U0001f600\U0010ffff日本語éß÷¿")

func genUni(g *rand.Rand, n int) string {
	r := make([]rune, 0, n)
	mode := g.Intn(4)
	for i := 0; i < n; i++ {
		switch {
		case mode == 0:
			r = append(r, uniPool[g.Intn(len(uniPool))])
		case mode == 1:
			r = append(r, []rune("?~>>??~~ÿ\u07ff")[g.Intn(10)])
		case mode == 2:
			r = append(r, rune('a'+g.Intn(26)))
		default:
			x := rune(g.Intn(0x110000))
			if x >= 0xd800 && x <= 0xdfff {
				x = 'z'
			}
			r = append(r, x)
		}
	}
	return string(r)
}

func genPaginate(g *rand.Rand, max int) page.Paginate {
	p := page.Paginate{}
	if g.Intn(2) == 0 {
		p.Page = []int64{0, 1, 2, 3, 7, -1, 1 << 31, 1<<53 + 1, 1<<63 - 1, -1 << 63}[g.Intn(10)]
		p.PageSize = []int64{0, 1, 5, 10, 100, -3, 1 << 31, 1<<53 + 1, 1<<63 - 1}[g.Intn(9)]
	}
	if g.Intn(2) == 0 {
		p.Sort = []string{"name", "namespace!int desc", "a!int, b desc,c", genUni(g, g.Intn(30))}[g.Intn(4)]
	}
	switch g.Intn(4) {
	case 0:
	case 1:
		p.Search = genUni(g, g.Intn(12))
	case 2:
		p.Search = genUni(g, g.Intn(200))
	case 3:
		p.Search = genUni(g, g.Intn(max))
	}
	return p
}

// sdkKeys are keys of labels, also some which resemble that of the query.
var sdkKeys = append([]string{"app.kubernetes.io/query", "query", "ckube.daocloud.io/q"}, labelKeys...)

// labelSets for judging selectors: every interesting combination a random selector over labelKeys/labelVs can tell apart.
func genLabelSets(g *rand.Rand, n int) []map[string]string {
	r := []map[string]string{{}}
	for len(r) < n {
		m := map[string]string{}
		for _, k := range sdkKeys {
			if g.Intn(2) == 0 {
				m[k] = pick(g, labelVs)
			}
		}
		r = append(r, m)
	}
	return r
}

func c01(c *Ctx) {
	c.Rule("a case is one pagination query and user selector sent through QueryListOptions (or ckubecli) and the proxy's HTTP route; non-trivial when the query or the selector is not empty; the sweep of search lengths covers every length up to the stated bound")
	c.Assume("searches are valid UTF-8; Kubernetes' own selector parser (apimachinery labels.Parse) defines which selectors are accepted")
	g := c.Rand(1)
	rs := &recStore{}
	def := &gvrDef{V: "v1", R: "pods", Kind: "Pod", Namespaced: true}
	initConfig([]*gvrDef{def}, "c1", "")
	up := NewUpstream("c1")
	defer up.Close()
	clients := mkClients(map[string]*Upstream{"c1": up})
	router, _ := newRouter(clients, rs)
	var sets []map[string]string
	fill := func() {
		sets = genLabelSets(g, 40)
		rs.mu.Lock()
		rs.items = nil
		for i, m := range sets {
			om := metav1.ObjectMeta{Name: fmt.Sprintf("p%02d", i), Namespace: "default", Labels: m}
			if i%2 == 0 {
				rs.items = append(rs.items, &corev1.Pod{ObjectMeta: om})
			} else {
				rs.items = append(rs.items, &watcher.ObjType{ObjectMeta: om, Data: map[string]interface{}{}})
			}
		}
		rs.mu.Unlock()
	}
	fill()

	// send puts the options through the proxy and compares what arrives with the query and the selector.
	send := func(what string, o metav1.ListOptions, p page.Paginate, sel Sel, clusterSel bool, base interface{}) bool {
		wit := map[string]interface{}{"labelSelector": o.LabelSelector, "query": p, "selector": fmt.Sprint(sel), "input": base}
		if _, err := k8slabels.Parse(o.LabelSelector); err != nil {
			c.Violate(what+"/not-a-selector", "Kubernetes does not accept the produced selector: "+err.Error(), wit)
			return false
		}
		target := "/api/v1/pods"
		if o.LabelSelector != "" {
			target += "?labelSelector=" + url.QueryEscape(o.LabelSelector)
		}
		resp := do(router, "GET", target, nil, nil)
		qs := rs.take()
		if len(qs) != 1 {
			c.Violate(what+"/not-answered", fmt.Sprintf("the proxy asked its store %d times: status %d %s", len(qs), resp.Status, trunc(resp.Body)), wit)
			return false
		}
		got := qs[0].Paginate
		wit["recovered"] = got
		if got.Sort != p.Sort {
			c.Violate(what+"/sort", fmt.Sprintf("sort %q arrived as %q", p.Sort, got.Sort), wit)
			return false
		}
		if clusterSel {
			if got.Search != p.Search {
				c.Violate(what+"/search", fmt.Sprintf("search arrived changed (%d bytes sent, %d arrived)", len(p.Search), len(got.Search)), wit)
				return false
			}
		} else if bad := sameSearch(g, &p, &got, "c1"); bad != "" {
			c.Violate(what+"/search", bad, wit)
			return false
		}
		if len(sel) == 0 {
			if got.Page != p.Page || got.PageSize != p.PageSize {
				c.Violate(what+"/page", fmt.Sprintf("page %d of size %d arrived as %d of %d", p.Page, p.PageSize, got.Page, got.PageSize), wit)
				return false
			}
		}
		// items under the label condition, sliced by the page
		var want []string
		for i, m := range sets {
			if sel.match(m) {
				want = append(want, fmt.Sprintf("p%02d", i))
			}
		}
		if len(sel) > 0 {
			if p.Page < 0 || p.PageSize < 0 {
				return resp.Status == 400
			}
			if p.Page > 0 && p.PageSize > 0 {
				if p.Page > 1 && p.Page-1 >= (int64(len(want))+p.PageSize-1)/p.PageSize {
					return true // past the end; C07
				}
				s := (p.Page - 1) * p.PageSize
				e := int64(len(want))
				if p.PageSize < e-s {
					e = s + p.PageSize
				}
				want = want[s:e]
			}
			l, err := parseList(resp)
			if err != nil {
				c.Violate(what+"/items", "no list: "+err.Error(), wit)
				return false
			}
			var have []string
			for _, it := range l.IDs {
				have = append(have, it[strings.LastIndex(it, "|")+1:])
			}
			if strings.Join(have, ",") != strings.Join(want, ",") {
				wit["sets"] = sets
				c.Violate(what+"/labels", fmt.Sprintf("the label condition selects %v instead of %v", have, want), wit)
				return false
			}
			c.Count("label_conditions_judged", 1)
		}
		c.Count("queries_recovered", 1)
		return true
	}

	encode := func(what string, o metav1.ListOptions, p page.Paginate) (metav1.ListOptions, bool) {
		r, err := page.QueryListOptions(o, p)
		if err != nil {
			c.Violate(what+"/refused", "the SDK refuses valid options: "+err.Error(), map[string]interface{}{"options": o, "query": p})
			return r, false
		}
		a, b := o, r
		a.LabelSelector, b.LabelSelector = "", ""
		if !reflect.DeepEqual(a, b) {
			c.Violate(what+"/options", "other list options changed", map[string]interface{}{"before": o, "after": r})
			return r, false
		}
		return r, true
	}
	reform := func(o metav1.ListOptions) metav1.ListOptions {
		// the same selector as another Kubernetes client writes it
		if g.Intn(3) == 0 && o.LabelSelector != "" {
			if s, err := k8slabels.Parse(o.LabelSelector); err == nil {
				o.LabelSelector = s.String()
				c.Count("selectors_rewritten_by_kubernetes", 1)
			}
		}
		return o
	}

	// every length of the search
	limit := c.N(700, 3000)
	var lens []int
	for n := 0; n <= limit; n++ {
		lens = append(lens, n)
	}
	for _, m := range []int{7380, 74900} { // the part positions get a digit more around here
		for n := m; n < m+c.N(90, 400); n += 1 + m/20000 {
			lens = append(lens, n)
		}
	}
	for _, n := range lens {
		if c.Stop() {
			return
		}
		p := page.Paginate{Search: strings.Repeat("abcdefghij", n/10+1)[:n], Page: 3, PageSize: 5}
		if err := p.Clusters([]string{"c1"}); err != nil {
			panic(refused(err.Error()))
		}
		o, ok := encode("sweep", metav1.ListOptions{}, p)
		if !ok {
			continue
		}
		send("sweep", o, p, nil, true, n)
		c.Eval("len" + strconv.Itoa(n))
	}

	n := c.N(4000, 60000)
	for i := 0; i < n && !c.Stop(); i++ {
		if i%50 == 0 {
			fill()
		}
		max := 600
		if i%40 == 0 {
			max = 12000
		}
		p := genPaginate(g, max)
		var sel Sel
		o := metav1.ListOptions{}
		if g.Intn(2) == 0 {
			sel = genSel(g, sdkKeys, labelVs, 1+g.Intn(4))
			o.LabelSelector = sel.render(g)
			if g.Intn(3) > 0 { // keep the page small enough to see items
				p.Page, p.PageSize = int64(g.Intn(4)), int64(g.Intn(9))
			}
		}
		if g.Intn(3) == 0 {
			o.FieldSelector, o.Limit, o.Continue, o.ResourceVersion = "a=b", 7, "tok", "5"
			t := int64(9)
			o.TimeoutSeconds, o.Watch, o.AllowWatchBookmarks, o.ResourceVersionMatch = &t, true, true, "Exact"
		}
		clusterSel := false
		if g.Intn(2) == 0 {
			q := p
			if err := q.Clusters([][]string{{"c1"}, {"c1", "c2"}, {"zz"}}[g.Intn(3)]); err == nil {
				p, clusterSel = q, true
			} else {
				c.Count("cluster_selection_refused", 1)
			}
		}
		in := o
		switch g.Intn(3) {
		case 1: // re-encode
			p1 := genPaginate(g, 300)
			_ = p1.Clusters([]string{"old"})
			o1, ok := encode("first", o, p1)
			if !ok {
				continue
			}
			o = reform(o1)
			c.Count("re_encodings", 1)
		case 2: // options that carry a query in the equality form
			if g.Intn(3) == 0 {
				eq := "ckube.daocloud.io/query=eyJwYWdlIjo3fQ"
				if o.LabelSelector != "" {
					eq = o.LabelSelector + "," + eq
				}
				o.LabelSelector = eq
				c.Count("re_encodings", 1)
			}
		}
		o2, ok := encode("encode", o, p)
		if !ok {
			continue
		}
		o2 = reform(o2)
		if !send("sdk", o2, p, sel, clusterSel, in) {
			continue
		}
		sig := ""
		if p != (page.Paginate{}) || len(sel) > 0 {
			sig = o2.LabelSelector
		}
		c.Eval(sig)
		if i%1500 == 0 {
			c.Sample(map[string]interface{}{"query": p, "selector": in.LabelSelector, "encoded": o2.LabelSelector})
		}
	}

	// types that are not cached: the user's selector is forwarded
	n = c.N(1200, 12000)
	for i := 0; i < n && !c.Stop(); i++ {
		p := genPaginate(g, 200)
		if g.Intn(2) == 0 {
			p = page.Paginate{}
		} else if g.Intn(2) == 0 {
			_ = p.Clusters([]string{"c1"})
		}
		if cs := p.GetClusters(); len(cs) > 0 && cs[0] != "c1" {
			continue
		}
		sel := genSel(g, sdkKeys, labelVs, g.Intn(4))
		in := sel.render(g)
		o, ok := encode("forward", metav1.ListOptions{LabelSelector: in}, p)
		if !ok {
			continue
		}
		target := "/api/v1/secrets"
		if o.LabelSelector != "" {
			target += "?labelSelector=" + url.QueryEscape(o.LabelSelector)
		}
		resp := do(router, "GET", target, nil, nil)
		reqs := up.Take()
		if len(reqs) != 1 {
			c.Violate("forward/count", fmt.Sprintf("forwarded %d times, status %d", len(reqs), resp.Status), map[string]interface{}{"target": target})
			continue
		}
		fwd := reqs[0].Query.Get("labelSelector")
		s, err := k8slabels.Parse(fwd)
		wit := map[string]interface{}{"selector": in, "encoded": o.LabelSelector, "forwarded": fwd}
		if err != nil || strings.Contains(fwd, "ckube.daocloud.io/query") {
			c.Violate("forward/selector", fmt.Sprintf("forwarded selector unusable or carries the marker: %v", err), wit)
			continue
		}
		for _, m := range genLabelSets(g, 12) {
			if s.Matches(k8slabels.Set(m)) != sel.match(m) {
				wit["labels"] = m
				c.Violate("forward/meaning", "the forwarded selector accepts other label sets than the user's", wit)
				break
			}
		}
		c.Count("forwarded_selectors_judged", 1)
		c.Eval("fwd" + o.LabelSelector)
	}

	c01cli(c, send)
	c.Need("queries_recovered", 2000)
	c.Need("forwarded_selectors_judged", 300)
	c.Need("cli_runs", 40)
}

// sameSearch compares two searches by what they match: got must be want restricted to the cluster.
func sameSearch(g *rand.Rand, want, got *page.Paginate, cluster string) string {
	for j := 0; j < 6; j++ {
		m := map[string]string{"name": pick(g, objNames), "namespace": "default", "cluster": cluster, "is_deleted": "false", "app": pick(g, labelVs)}
		if j >= 2 && len(want.Search) > 0 {
			// a value the search may hit
			m["name"] = "x" + strings.Trim(want.Search, ";! ") + "y"
		}
		if j%3 == 0 {
			m["cluster"] = "other"
		}
		w, werr := want.Match(m)
		h, herr := got.Match(m)
		if m["cluster"] != cluster {
			if h {
				return fmt.Sprintf("without a cluster selection, an object of another cluster matches: %v", m)
			}
			continue
		}
		if w != h || (werr == nil) != (herr == nil) {
			return fmt.Sprintf("on %v the query says %v (%v), the recovered one %v (%v)", m, w, werr, h, herr)
		}
	}
	return ""
}

func c01cli(c *Ctx, send func(string, metav1.ListOptions, page.Paginate, Sel, bool, interface{}) bool) {
	bin := filepath.Join(os.Getenv("VERIF_BUILD"), "ckubecli")
	if _, err := os.Stat(bin); err != nil {
		c.Inconclusive("no ckubecli binary: %v", err)
		return
	}
	g := c.Rand(2)
	n := c.N(150, 1500)
	type res struct {
		args     []string
		p        page.Paginate
		clusters []string
		bad      bool
		out      []byte
		errOut   []byte
		code     int
	}
	runs := make([]*res, n)
	for i := range runs {
		r := &res{}
		m := genIndex(g)
		var ps []*Part
		for j := g.Intn(3); j > 0; j-- {
			p := genPart(g, m, false)
			if p.Kind == pSelector {
				for _, q := range p.Sel {
					if q.Key == "cluster" {
						p = &Part{Kind: pFree, Text: "a"}
						break
					}
				}
			}
			ps = append(ps, p)
		}
		r.p.Search = renderSearch(g, ps, true)
		if g.Intn(4) == 0 {
			r.p.Search = strings.ReplaceAll(genUni(g, g.Intn(2000)), "\x00", "")
		}
		if strings.Contains(r.p.Search, "\x00") {
			r.p.Search = strings.ReplaceAll(r.p.Search, "\x00", "")
		}
		if g.Intn(2) == 0 {
			r.p.Page, r.p.PageSize = int64(g.Intn(5)), int64(g.Intn(50))
		}
		if g.Intn(2) == 0 {
			r.p.Sort = pick(g, []string{"name", "size!int desc, name", "ünï"})
		}
		if r.p.Page != 0 {
			r.args = append(r.args, "-p", strconv.FormatInt(r.p.Page, 10))
		}
		if r.p.PageSize != 0 {
			r.args = append(r.args, "-s", strconv.FormatInt(r.p.PageSize, 10))
		}
		if r.p.Sort != "" {
			r.args = append(r.args, "-sort", r.p.Sort)
		}
		if r.p.Search != "" {
			r.args = append(r.args, "-search", r.p.Search)
		}
		switch g.Intn(4) {
		case 0, 1:
			r.clusters = [][]string{{"c1"}, {"c1", "c2"}, {"a-b.c_d", "zz", "c1"}}[g.Intn(3)]
		case 2:
			r.clusters = [][]string{{"c1", ""}, {"kubernetes-admin@kubernetes"}, {"c1", "a/b"}, {"arn:aws:eks"}, {"-a"}, {strings.Repeat("x", 64)}}[g.Intn(6)]
			r.bad = true
		}
		if r.clusters != nil {
			r.args = append(r.args, "-c", strings.Join(r.clusters, ","))
		}
		runs[i] = r
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, r := range runs {
		wg.Add(1)
		sem <- struct{}{}
		go func(r *res) {
			defer func() { <-sem; wg.Done() }()
			cmd := exec.Command(bin, r.args...)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			if err := cmd.Start(); err != nil {
				r.code = -1
				return
			}
			t := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
			_ = cmd.Wait()
			t.Stop()
			r.out, r.errOut, r.code = so.Bytes(), se.Bytes(), cmd.ProcessState.ExitCode()
		}(r)
	}
	wg.Wait()
	for _, r := range runs {
		if c.Stop() {
			return
		}
		wit := map[string]interface{}{"args": r.args, "stdout": string(r.out), "stderr": string(r.errOut), "exit": r.code}
		c.Count("cli_runs", 1)
		if r.bad {
			if r.code == 0 {
				c.Violate("cli/bad-clusters", "ckubecli ignores clusters it cannot express", wit)
			}
			c.Eval("")
			continue
		}
		want := r.p
		if r.clusters != nil {
			if err := want.Clusters(r.clusters); err != nil { // a selector in the search that does not parse
				if r.code == 0 {
					c.Violate("cli/search-dropped", "ckubecli accepts what the SDK refuses", wit)
				}
				continue
			}
		}
		if r.code != 0 {
			c.Violate("cli/failed", "ckubecli refuses a valid query", wit)
			continue
		}
		send("cli", metav1.ListOptions{LabelSelector: string(r.out)}, want, nil, r.clusters != nil, r.args)
		c.Eval("cli" + string(r.out))
	}
}

func mkClients(ups map[string]*Upstream) clientMap {
	m := clientMap{}
	for c, u := range ups {
		m[c] = mkClient(restConfig(u, u.URL(), false))
	}
	return m
}
