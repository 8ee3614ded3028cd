package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strconv"
	"strings"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C04", "exploration", c04)
	register("C05", "exploration", c05)
	register("C06", "exploration", c06)
	register("C07", "exploration", c07)
	register("C08", "exploration", c08)
	register("C09", "exploration", c09)
}

type listQ struct {
	def    *gvrDef
	ns     string
	sel    []string // selected clusters; nil: none selected
	parts  []*Part
	labels Sel
	page   int64
	size   int64
	sort   string
	extra  string
	how    int
	not    []string // the clusters excluded, when sel is all the others
}

func (q *listQ) describe() map[string]interface{} {
	var ps []string
	for _, p := range q.parts {
		ps = append(ps, p.raw)
	}
	return map[string]interface{}{"resource": q.def.R, "namespace": q.ns, "clusters": q.sel, "parts": ps, "labels": fmt.Sprint(q.labels), "page": q.page, "size": q.size, "sort": q.sort}
}

// indexPart makes a search part about the index of one of the objects.
func indexPart(g *rand.Rand, w *World, d *gvrDef) *Part {
	m := map[string]string{"name": "web", "namespace": "default", "cluster": w.Default, "is_deleted": "false"}
	if os := w.objs(d); len(os) > 0 {
		m = os[g.Intn(len(os))].Index
	}
	keys := sortedKeys(m)
	switch n := g.Intn(10); {
	case n < 3:
		neg := g.Intn(4) == 0
		t := plainText(strings.ReplaceAll(genText(g, m), "=", ""), neg)
		if t == "" {
			t = "a"
		}
		return &Part{Kind: pFree, Text: t, Neg: neg}
	case n < 7:
		k := keys[g.Intn(len(keys))]
		p := &Part{Kind: pKeyed, Key: k, Text: genText(g, m), Neg: g.Intn(4) == 0}
		if g.Intn(2) == 0 {
			r := []rune(m[k])
			if len(r) > 0 {
				i := g.Intn(len(r))
				p.Text = string(r[i:])
			}
		}
		p.Text = plainText(p.Text, p.Neg)
		if g.Intn(3) == 0 {
			p.Exact, p.Text = true, m[k]
		}
		return p
	default:
		var ks []string
		for _, k := range keys {
			if k != "cluster" {
				ks = append(ks, k)
			}
		}
		ks = append(ks, "absent")
		vals := append([]string{}, labelVals...)
		for _, k := range ks {
			if v := m[k]; v != "" && len(v) < 60 && reLabel(v) {
				vals = append(vals, v, v)
			}
		}
		return &Part{Kind: pSelector, Sel: genSel(g, ks, vals, 1+g.Intn(2))}
	}
}

func reLabel(s string) bool {
	if len(s) > 63 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		if !al && (i == 0 || i == len(s)-1 || c != '-' && c != '_' && c != '.') {
			return false
		}
	}
	return true
}

func genListQ(g *rand.Rand, w *World) *listQ {
	q := &listQ{def: w.Defs[g.Intn(len(w.Defs))], how: g.Intn(3)}
	if q.def.Namespaced && g.Intn(3) == 0 {
		q.ns = pick(g, append(append([]string{}, nsNames...), "absent-ns"))
	}
	var selectable []string
	for _, c := range w.Clusters {
		if reLabel(c) {
			selectable = append(selectable, c)
		}
	}
	if g.Intn(3) > 0 && len(selectable) > 0 {
		for _, c := range selectable {
			if g.Intn(3) > 0 {
				q.sel = append(q.sel, c)
			}
		}
		if g.Intn(10) == 0 {
			q.sel = append(q.sel, "nosuchcluster")
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		q.parts = append(q.parts, indexPart(g, w, q.def))
	}
	if g.Intn(3) == 0 {
		vals := append([]string{}, labelVs...)
		q.labels = genSel(g, labelKeys, vals, 1+g.Intn(2))
	}
	if g.Intn(5) == 0 {
		q.extra = pick(g, []string{"timeout=30s", "limit=500", "timeoutSeconds=10", "limit=2"})
	}
	return q
}

func (q *listQ) matches(w *World, o *Obj) bool {
	if q.ns != "" && o.NS != q.ns {
		return false
	}
	if q.sel == nil {
		if o.Cluster != w.Default {
			return false
		}
	} else {
		in := false
		for _, c := range q.sel {
			in = in || c == o.Cluster
		}
		if !in {
			return false
		}
	}
	return evalParts(q.parts, o.Index) == isMatch && q.labels.match(o.Labels)
}

func (q *listQ) expect(w *World) []*Obj {
	var r []*Obj
	for _, o := range w.objs(q.def) {
		if q.matches(w, o) {
			r = append(r, o)
		}
	}
	return r
}

// target is the request a client would send; the query goes through the SDK.
func (q *listQ) target(g *rand.Rand) string {
	parts := append([]*Part{}, q.parts...)
	p := page.Paginate{Page: q.page, PageSize: q.size, Sort: q.sort}
	if q.not != nil {
		op := "notin"
		if len(q.not) == 1 && g.Intn(2) == 0 {
			op = "!="
		}
		parts = append(parts, &Part{Kind: pSelector, Sel: Sel{{Key: "cluster", Op: op, Vals: q.not}}})
	} else if q.sel != nil && q.how == 1 {
		parts = append(parts, &Part{Kind: pSelector, Sel: Sel{{Key: "cluster", Op: "in", Vals: q.sel}}})
	} else if q.sel != nil && q.how == 2 && len(q.sel) == 1 {
		parts = append(parts, &Part{Kind: pSelector, Sel: Sel{{Key: "cluster", Op: "=", Vals: q.sel}}})
	}
	p.Search = renderSearch(g, parts, g.Intn(2) == 0)
	if q.sel != nil && q.not == nil && (q.how == 0 || q.how == 2 && len(q.sel) != 1) {
		if err := p.Clusters(append([]string{}, q.sel...)); err != nil {
			panic(refused(fmt.Sprintf("Clusters(%q) on %q: %v", q.sel, p.Search, err)))
		}
	}
	o := metav1.ListOptions{LabelSelector: q.labels.render(g)}
	o, err := page.QueryListOptions(o, p)
	if err != nil {
		panic(refused(fmt.Sprintf("QueryListOptions(%+v): %v", p, err)))
	}
	t := q.def.path(q.ns)
	v := url.Values{}
	if o.LabelSelector != "" {
		v.Set("labelSelector", o.LabelSelector)
	}
	s := v.Encode()
	if q.extra != "" {
		if s != "" {
			s += "&"
		}
		s += q.extra
	}
	if s != "" {
		t += "?" + s
	}
	return t
}

// emptySel gives selections of zero clusters no meaning: drop them.
func (q *listQ) normalise() *listQ {
	if len(q.sel) == 0 {
		q.sel = nil
	}
	return q
}

func ids(os []*Obj) []string {
	var r []string
	for _, o := range os {
		r = append(r, o.id())
	}
	return r
}

// bagDiff describes how got differs from want as multisets ("" when equal).
func bagDiff(got, want []string) string {
	n := map[string]int{}
	for _, s := range want {
		n[s]++
	}
	for _, s := range got {
		n[s]--
	}
	var miss, extra []string
	for s, k := range n {
		if k > 0 {
			miss = append(miss, s)
		} else if k < 0 {
			extra = append(extra, s)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	if len(miss)+len(extra) == 0 {
		return ""
	}
	if len(miss) > 8 {
		miss = miss[:8]
	}
	if len(extra) > 8 {
		extra = extra[:8]
	}
	return fmt.Sprintf("missing %q, unexpected or repeated %q", miss, extra)
}

var clusterSets = [][]string{
	{"c1"},
	{"c1", "c2"},
	{"c1", "c10", "c1-x"},
	{"kubernetes-admin@kubernetes", "c2", "prod"},
	{"default", "default-2"},
	{"arn:aws:eks:eu-west-1:1234:cluster/prod", "admin@c2", "C1", "c1"},
}

// worlds runs fn on n worlds, each synchronised after population and again after churn.
func worlds(c *Ctx, n, size int, sets [][]string, defs func(g *rand.Rand) []*gvrDef, fn func(w *World, g *rand.Rand)) {
	for i := 0; i < n && !c.Stop(); i++ {
		g := c.Rand(int64(100 + i))
		cs := sets[i%len(sets)]
		w := NewWorld(defs(g), cs, cs[g.Intn(len(cs))], "")
		w.StartWatcher()
		if !w.SyncStreams() {
			c.Count("sync_incomplete", 1)
		}
		w.genPopulation(g, size)
		for round := 0; round < 2 && !c.Stop(); round++ {
			if !w.Sync() {
				c.Count("sync_incomplete", 1)
			}
			fn(w, g)
			w.churn(g, size*len(w.Defs)*len(w.Clusters)/4)
		}
		w.Close()
		c.Count("worlds", 1)
	}
}

func everyDef(*rand.Rand) []*gvrDef { return allDefs }

// bigWorld is a world with thousands of objects of few types: sizes at which nothing fits in one batch of anything.
func bigWorld(c *Ctx, fn func(w *World, g *rand.Rand)) {
	if c.Stop() {
		return
	}
	g := c.Rand(99)
	w := NewWorld([]*gvrDef{defPods, defWidgets}, []string{"c1", "c2"}, "c1", "")
	w.Share = 12
	w.StartWatcher()
	if !w.SyncStreams() {
		c.Count("sync_incomplete", 1)
	}
	for _, d := range w.Defs {
		for i, cl := range w.Clusters {
			for k := c.N(1400, 6000) / (1 + i); k > 0; k-- {
				w.Put(genObj(g, d, cl, pick(g, nsNames), fmt.Sprintf("o-%d", g.Intn(100000))))
			}
		}
	}
	if !w.Sync() {
		c.Count("sync_incomplete", 1)
	}
	fn(w, g)
	w.Close()
	c.Count("big_worlds", 1)
}

// beyondCache are parameters which change what a list returns in ways the cache does not know.
var beyondCache = []string{"fieldSelector=metadata.name%3Dweb", "fieldSelector=status.phase%21%3DRunning", "fieldSelector=spec.nodeName%3Dnode-1%2Cmetadata.namespace%3Da", "continue=abc",
	"limit=5&continue=eyJ2IjoibWV0YS5rOHMuaW8vdjEifQ", "resourceVersion=12&resourceVersionMatch=Exact", "resourceVersionMatch=NotOlderThan&resourceVersion=0", "resourceVersion=123",
	"includeObject=Metadata", "sendInitialEvents=true", "shardSelector=x", "pretty=true"}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func c04(c *Ctx) {
	c.Rule("worlds of 1-4 clusters with 6 types (4 built-in, 2 custom; namespaced and not) are filled through scripted watch streams, names colliding across clusters and namespaces, then changed; random list requests (namespace, clusters selected three ways, search, label selector) are compared as multisets with a model filter. Non-trivial: a request with at least one filter and a non-empty result.")
	run := func(w *World, g *rand.Rand) {
		w.contacts()
		for i := w.n(c.N(500, 1500)); i > 0 && !c.Stop(); i-- {
			q := genListQ(g, w).normalise()
			if q.sel != nil && g.Intn(6) == 0 { // the others
				q.not, q.sel = q.sel, []string{}
				for _, cl := range w.Clusters {
					if !contains(q.not, cl) {
						q.sel = append(q.sel, cl)
					}
				}
				c.Count("excluding", 1)
			}
			t := q.target(g)
			r := w.get(t)
			l, err := parseList(r)
			want := q.expect(w)
			wit := map[string]interface{}{"request": t, "query": q.describe(), "default": w.Default}
			if err != nil {
				c.Violate("list", fmt.Sprintf("list %v failed: %v", q.describe(), err), wit)
				continue
			}
			if d := bagDiff(l.IDs, ids(want)); d != "" {
				c.Violate("list", fmt.Sprintf("list %v: %s", q.describe(), d), wit)
				continue
			}
			if l.Kind != q.def.listKind() || l.APIV != q.def.api() {
				c.Violate("list-kind", fmt.Sprintf("list of %s is %s %s", q.def.R, l.APIV, l.Kind), wit)
			}
			for _, it := range l.Items {
				if uid := text(at(it.Raw, "metadata", "uid")); uid != text(at(w.Objs[q.def][it.ID].Raw, "metadata", "uid")) {
					c.Violate("list-version", fmt.Sprintf("%s of %s is an older or another object", it.ID, q.def.R), wit)
				}
			}
			if got := w.contacts(); len(got) > 0 {
				c.Violate("contacts", fmt.Sprintf("a cached list contacted %v", got), wit)
			}
			c.Count("items", int64(len(l.Items)))
			sig := ""
			if len(want) > 0 && (len(q.parts) > 0 || q.labels != nil || q.ns != "" || q.sel != nil) {
				sig = t
				c.Count("filtered_nonempty", 1)
			}
			if len(want) == 0 {
				c.Count("empty_results", 1)
			}
			c.Eval(sig)
			if i == 1 && w.Share == 0 {
				c.Sample(map[string]interface{}{"query": q.describe(), "items": l.IDs})
			}
			// what the cache cannot take into account is not its to answer
			if i%5 == 0 && q.not == nil {
				q.extra = pick(g, beyondCache)
				t := q.target(g)
				r := w.get(t)
				got := w.contacts()
				wit := map[string]interface{}{"request": t, "query": q.describe(), "default": w.Default, "contacted": got}
				to := []string{w.Default}
				if q.sel != nil {
					to = q.sel
				}
				c.Count("beyond_cache", 1)
				switch {
				case len(got) == 0 && r.Status == 404 && q.sel != nil && strings.Contains(strings.Join(q.sel, " "), "nosuchcluster"):
				case len(got) != 1 || strings.Contains(string(r.Body), annoIndex):
					c.Violate("beyond-cache", fmt.Sprintf("list with %s, which the cache cannot take into account, was answered without the cluster: %d %s", q.extra, r.Status, trunc(r.Body)), wit)
				default:
					for cl, rs := range got {
						if len(rs) != 1 || !contains(to, cl) {
							c.Violate("beyond-cache", fmt.Sprintf("list with %s was sent to %q %d times", q.extra, cl, len(rs)), wit)
						}
					}
				}
			}
		}
	}
	worlds(c, c.N(9, 60), 14, clusterSets, everyDef, run)
	bigWorld(c, run)
	c.Need("filtered_nonempty", 200)
	c.Need("beyond_cache", 300)
	c.Need("excluding", 100)
	c.Need("empty_results", 20)
}

func c05(c *Ctx) {
	c.Rule("worlds whose cluster names are prefixes of one another or not valid label values (user@cluster, ARNs, separators, quotes, spaces, non-ASCII), each in turn the default, with the same objects in every cluster; every object names its origin in an annotation. Lists without selection, lists with every subset of selectable clusters, and single reads with and without the cluster marker; the origin and the cluster annotation of every returned item must be in the allowed set. Non-trivial: at least one item returned.")
	sets := [][]string{
		{"c1", "c10", "c1-x", "xc1"},
		{"kubernetes-admin@kubernetes", "kubernetes-admin@kubernetes2", "c2"},
		{"arn:aws:eks:eu-west-1:1234:cluster/prod", "prod", "cluster/prod"},
		{"has space", "has", "space"},
		{"a;b", "a", "b"}, {`q"uote`, "q", "uote"}, {"日本", "日", "c"},
		{"!x", "x"}, {"-lead", "lead"}, {"a,b", "a", "b"}, {"A", "a"}, {"gke_proj_zone_cluster-1", "gke_proj_zone_cluster"},
		{strings.Repeat("long", 20), "long"}, {"a=b", "a", "b"}, {"a&b", "a"}, {"a%41", "aA"}, {";x", "x"}, {"x;", "x"}, {"a+b", "a b"},
	}
	// there are tools in one cluster only
	defs := func(g *rand.Rand) []*gvrDef { return []*gvrDef{defPods, defWidgets, defNS, defTools} }
	for si, cs := range sets {
		for di := range cs {
			if c.Stop() {
				break
			}
			g := c.Rand(int64(1000 + si*10 + di))
			w := NewWorld(defs(g), cs, cs[di], "")
			w.StartWatcher()
			w.SyncStreams()
			for _, d := range w.Defs {
				for i := 0; i < 6; i++ {
					ns, name := pick(g, nsNames[:2]), pick(g, objNames)
					for _, cl := range cs {
						if g.Intn(6) > 0 && (d != defTools || cl == cs[(si+di)%len(cs)]) {
							w.Put(genObj(g, d, cl, ns, name))
						}
					}
				}
			}
			w.Sync()
			check := func(what string, its []listItem, allowed []string, wit interface{}) {
				for _, it := range its {
					ok := false
					for _, a := range allowed {
						ok = ok || a == it.Anno["origin"] && a == it.Anno[annoCluster]
					}
					if !ok {
						c.Violate("boundary", fmt.Sprintf("%s returned %s of cluster %q (annotated %q), allowed %q", what, it.ID, it.Anno["origin"], it.Anno[annoCluster], allowed), wit)
						return
					}
				}
				c.Count("items", int64(len(its)))
			}
			n := c.N(24, 120)
			for i := 0; i < n && !c.Stop(); i++ {
				q := genListQ(g, w).normalise()
				if i%2 == 0 {
					q.parts, q.labels, q.ns = nil, nil, ""
				}
				if i%4 == 0 {
					q.sel = nil
				}
				if i%8 == 4 {
					q.page, q.size = 1, 50
				}
				if i%5 == 0 && q.sel == nil {
					// other conditions about clusters do not select one
					oth := pick(g, cs)
					q.parts = append(q.parts, &Part{Kind: pKeyed, Key: "cluster", Text: strings.TrimLeft(strings.ReplaceAll(oth[:1+g.Intn(len(oth))], `"`, ""), "! ")})
					q.parts[len(q.parts)-1].Text = strings.ToValidUTF8(strings.TrimSpace(q.parts[len(q.parts)-1].Text), "")
				}
				t := q.target(g)
				l, err := parseList(w.get(t))
				wit := map[string]interface{}{"request": t, "query": q.describe(), "clusters": cs, "default": w.Default}
				if err != nil {
					c.Violate("list", fmt.Sprintf("list %v failed: %v", q.describe(), err), wit)
					continue
				}
				allowed := q.sel
				if allowed == nil {
					allowed = []string{w.Default}
				}
				check("list", l.Items, allowed, wit)
				if len(q.parts) == 0 && q.labels == nil && q.page == 0 {
					if d := bagDiff(l.IDs, ids(q.expect(w))); d != "" {
						c.Violate("list", fmt.Sprintf("list %v: %s", q.describe(), d), wit)
					}
				}
				sig := ""
				if len(l.Items) > 0 {
					sig = t + w.Default
				}
				c.Eval(sig)
				// single reads
				d := w.Defs[g.Intn(len(w.Defs))]
				os := w.objs(d)
				if len(os) == 0 {
					continue
				}
				o := os[g.Intn(len(os))]
				addr := w.Default
				t = d.path(o.NS) + "/" + o.Name
				if g.Intn(3) > 0 {
					addr = pick(g, cs)
					op, err := page.QueryGetOptions(metav1.GetOptions{}, addr)
					if err != nil {
						c.Violate("get-options", err.Error(), addr)
						continue
					}
					t += "?resourceVersion=" + url.QueryEscape(op.ResourceVersion)
				}
				r := w.get(t)
				wit = map[string]interface{}{"request": t, "addressed": addr, "clusters": cs, "default": w.Default}
				if _, ok := w.Objs[d][addr+"|"+o.NS+"|"+o.Name]; ok {
					if r.Status != 200 {
						c.Violate("get", fmt.Sprintf("read of %s in %q: status %d", o.key(), addr, r.Status), wit)
						continue
					}
					it, err := itemOf(map[string]interface{}(r.json()))
					if err != nil {
						c.Violate("get", err.Error(), wit)
						continue
					}
					check("get", []listItem{it}, []string{addr}, wit)
					c.Eval(t + w.Default)
				} else if r.Status != 404 {
					c.Violate("get", fmt.Sprintf("read of %s, absent in %q: status %d %s", o.key(), addr, r.Status, trunc(r.Body)), wit)
				}
			}
			w.Close()
			c.Count("worlds", 1)
		}
	}
	c.Need("items", 500)
}

// ---------------------------------------------------------------------------

func intKeys(d *gvrDef) []string {
	switch d {
	case defPods:
		return []string{"prio"}
	case defDeps:
		return []string{"replicas"}
	case defWidgets:
		return []string{"size", "big"}
	case defTools:
		return []string{"size"}
	}
	return nil
}

func genSort(g *rand.Rand, w *World, d *gvrDef) []sortKey {
	keys := []string{"cluster", "namespace", "name", "is_deleted"}
	for _, i := range d.Index {
		keys = append(keys, i.Key)
	}
	var ks []sortKey
	for i := 1 + g.Intn(3); i > 0; i-- {
		k := sortKey{Key: pick(g, keys), Desc: g.Intn(2) == 0}
		if ik := intKeys(d); len(ik) > 0 && g.Intn(2) == 0 {
			k.Key, k.Int = pick(g, ik), true
		}
		ks = append(ks, k)
	}
	return ks
}

// spoilSort writes the keys down with one of them made one which names an unknown key, type or direction, or asks for
// numbers where there are none.
func spoilSort(g *rand.Rand, ks []sortKey) string {
	i := g.Intn(len(ks))
	part := func(ks []sortKey) []string {
		if len(ks) == 0 {
			return nil
		}
		return strings.Split(renderSort(g, ks), ",")
	}
	k := ks[i].Key
	dir := pick(g, []string{"", "", " asc", " desc"})
	typ := pick(g, []string{"", "", "!str"})
	switch g.Intn(6) {
	case 0: // unknown key
		k = pick(g, []string{"nosuch", k + "x", "x" + k, k[:len(k)-1], strings.ToUpper(k), "", k + "." + k, k + "=1"}) + pick(g, []string{typ, typ, "!int"}) + dir
		if strings.TrimSpace(k) == "" {
			k = "!str"
		}
	case 1: // unknown type
		k += "!" + pick(g, []string{"", "float", "Int", "INT", "string", "ints", "in", "st", "number", "bool", "desc", "str!", "int!"}) + dir
	case 2: // several types
		k += pick(g, []string{"!str", "!int"}) + pick(g, []string{"!", "!x", "!str", "!int", "!str!str"}) + dir
	case 3: // unknown direction
		k += typ + " " + pick(g, []string{"up", "down", "DESC", "Asc", "des", "descending", "ascending", "desc!int", "-", "1", "str"})
	case 4: // several directions
		k += typ + pick(g, []string{" asc", " desc", " up"}) + pick(g, []string{" asc", " desc", " x", " desc desc"})
	case 5: // not a number
		k = pick(g, []string{"name", "cluster", "is_deleted"}) + "!int" + dir
	}
	return strings.Join(append(append(part(ks[:i]), k), part(ks[i+1:])...), pick(g, []string{",", ", "}))
}

func c06(c *Ctx) {
	c.Rule("worlds as for C04 with few distinct index values (many ties); lists with 1-3 random sort keys (string or number, ascending or descending), with and without filters and label selectors, must be ordered by the model comparator and come in the same order when repeated and in another order of requests; malformed sorts must be rejected with a 4xx status. Non-trivial: at least two items with distinct keys.")
	run := func(w *World, g *rand.Rand) {
		seen := map[string]string{} // request -> order
		for i := w.n(c.N(350, 1200)); i > 0 && !c.Stop(); i-- {
			q := genListQ(g, w).normalise()
			q.extra = ""
			if g.Intn(2) == 0 {
				q.parts, q.labels = nil, nil
			}
			ks := defaultSort
			if g.Intn(5) > 0 {
				ks = genSort(g, w, q.def)
				q.sort = renderSort(g, ks)
			}
			bad := g.Intn(8) == 0
			if bad {
				q.sort = spoilSort(g, genSort(g, w, q.def))
			}
			t := q.target(g)
			r := w.get(t)
			want := q.expect(w)
			wit := map[string]interface{}{"request": t, "query": q.describe(), "default": w.Default}
			if bad {
				// with fewer than two objects there is no order to get wrong
				all := 0
				for _, o := range w.objs(q.def) {
					q2 := *q
					q2.labels = nil
					if q2.matches(w, o) {
						all++
					}
				}
				c.Count("bad_sorts", 1)
				if all >= 2 && (r.Status < 400 || r.Status >= 500) {
					c.Violate("bad-sort", fmt.Sprintf("sort %q over %d objects was answered with %d", q.sort, all, r.Status), wit)
				}
				if r.Status >= 500 || r.Hang {
					c.Violate("bad-sort", fmt.Sprintf("sort %q: status %d", q.sort, r.Status), wit)
				}
				c.Eval("bad|" + q.sort)
				continue
			}
			l, err := parseList(r)
			if err != nil {
				c.Violate("list", fmt.Sprintf("list %v failed: %v", q.describe(), err), wit)
				continue
			}
			strict := false
			okay := true
			for j := 1; j < len(l.IDs); j++ {
				a, b := w.Objs[q.def][l.IDs[j-1]], w.Objs[q.def][l.IDs[j]]
				if a == nil || b == nil {
					c.Violate("list", fmt.Sprintf("unknown item among %q", l.IDs), wit)
					okay = false
					break
				}
				x := cmpBy(ks, a.Index, b.Index)
				if x > 0 {
					c.Violate("order", fmt.Sprintf("list sorted by %q: %s comes before %s", q.sort, a.id(), b.id()), wit)
					okay = false
					break
				}
				if x < 0 {
					strict = true
				} else {
					c.Count("ties", 1)
				}
			}
			if !okay {
				continue
			}
			if d := bagDiff(l.IDs, ids(want)); d != "" {
				c.Violate("set", fmt.Sprintf("sorted list %v: %s", q.describe(), d), wit)
			}
			order := strings.Join(l.IDs, " ")
			for k := 0; k < 2; k++ {
				l2, err := parseList(w.get(t))
				if err != nil || strings.Join(l2.IDs, " ") != order {
					c.Violate("stable", fmt.Sprintf("the same list %v came in different orders", q.describe()), wit)
					break
				}
				c.Count("repeats", 1)
			}
			if old, ok := seen[t]; ok && old != order {
				c.Violate("stable", fmt.Sprintf("the same list %v came in different orders", q.describe()), wit)
			}
			seen[t] = order
			if strict {
				c.Eval(t)
			} else {
				c.Eval("")
			}
			if i == 1 {
				c.Sample(map[string]interface{}{"sort": q.sort, "items": l.IDs})
			}
		}
	}
	worlds(c, c.N(6, 40), 16, clusterSets, everyDef, run)
	bigWorld(c, run)
	c.Need("ties", 200)
	c.Need("bad_sorts", 50)
}

// ---------------------------------------------------------------------------

func c07(c *Ctx) {
	c.Rule("worlds as for C04; for random filters, label selectors, sorts and page sizes (1..n+2) all pages are read and concatenated; they must equal the unpaginated list, with remainingItemCount = matches after the page, and the SDK's derived total = matches. Pages past the end, negative and huge pages and sizes must give 4xx, zero page or size everything. Non-trivial: at least two pages.")
	run := func(w *World, g *rand.Rand) {
		for i := w.n(c.N(60, 250)); i > 0 && !c.Stop(); i-- {
			q := genListQ(g, w).normalise()
			q.extra = ""
			if g.Intn(2) == 0 {
				q.parts = nil
				for len(q.sel) == 0 && g.Intn(3) > 0 {
					q.sel = genListQ(g, w).sel
				}
			}
			if g.Intn(2) == 0 {
				q.labels = nil
			} else if g.Intn(2) == 0 {
				q.labels = Sel{{Key: pick(g, labelKeys), Op: "!=", Vals: []string{"nope"}}}
			}
			q.normalise()
			if g.Intn(2) == 0 {
				q.sort = renderSort(g, genSort(g, w, q.def))
			}
			q.page, q.size = 0, 0
			full, err := parseList(w.get(q.target(g)))
			wit := map[string]interface{}{"query": q.describe(), "default": w.Default}
			if err != nil {
				c.Violate("list", fmt.Sprintf("list %v failed: %v", q.describe(), err), wit)
				continue
			}
			want := q.expect(w)
			n := int64(len(want))
			if d := bagDiff(full.IDs, ids(want)); d != "" {
				c.Violate("list", fmt.Sprintf("list %v: %s", q.describe(), d), wit)
				continue
			}
			if full.Remain != 0 {
				c.Violate("remain", fmt.Sprintf("unpaginated list reports %d remaining", full.Remain), wit)
			}
			size := 1 + g.Int63n(n+2)
			if g.Intn(3) == 0 {
				size = 1 + g.Int63n(4)
			}
			if w.Share > 1 && size < n/16 {
				size += n / 16
			}
			var got []string
			pages := (n + size - 1) / size
			if pages == 0 {
				pages = 1
			}
			broken := false
			for p := int64(1); p <= pages && !broken; p++ {
				q.page, q.size = p, size
				t := q.target(g)
				r := w.get(t)
				l, err := parseList(r)
				if err != nil {
					c.Violate("page", fmt.Sprintf("page %v of %d matches failed: %v", q.describe(), n, err), t)
					broken = true
					break
				}
				rem := n - p*size
				if rem < 0 {
					rem = 0
				}
				if l.Remain != rem {
					c.Violate("remain", fmt.Sprintf("page %d of size %d of %d matches reports %d remaining, want %d", p, size, n, l.Remain, rem), t)
					broken = true
				}
				if int64(len(l.IDs)) > size {
					c.Violate("page", fmt.Sprintf("page of size %d has %d items", size, len(l.IDs)), t)
					broken = true
				}
				if who := sdkClusters(r, l); who != "" {
					c.Violate("cluster", who, t)
				}
				if tot := sdkTotal(r, q); tot != n {
					c.Violate("total", fmt.Sprintf("SDK total on page %d of size %d is %d, want %d", p, size, tot, n), t)
					broken = true
				}
				got = append(got, l.IDs...)
				c.Count("pages", 1)
			}
			if broken {
				continue
			}
			if strings.Join(got, " ") != strings.Join(full.IDs, " ") {
				c.Violate("partition", fmt.Sprintf("pages of size %d of %v: concatenation differs from the list: %s", size, q.describe(), bagDiff(got, full.IDs)), wit)
				continue
			}
			if pages > 1 {
				c.Eval(fmt.Sprintf("%v", q.describe()))
			} else {
				c.Eval("")
			}
			// boundaries
			type bc struct {
				p, s int64
				kind string
			}
			const big = int64(1) << 62
			mx := int64(^uint64(0) >> 1)
			cases := []bc{{0, size, "all"}, {1 + g.Int63n(5), 0, "all"}, {pages + 1, size, "past"}, {pages + 1 + g.Int63n(100), size, "past"},
				{-1, size, "neg"}, {1, -1, "neg"}, {-g.Int63n(100) - 1, -g.Int63n(100) - 1, "neg"}, {-mx - 1, -mx - 1, "neg"}, {-mx - 1, 1, "neg"}, {1, -mx - 1, "neg"},
				{0, -1, "neg"}, {-1, 0, "neg"},
				{big, big, "past"}, {mx, mx, "past"}, {mx, 1, "past"}, {1, mx, "all"}, {2, mx, "past"}, {4, big, "past"}, {3, big, "past"}, {5, big, "past"}, {big + 1, 4, "past"}, {mx, 2, "past"}, {1, n + 1, "all"}}
			for k := 0; k < 8; k++ {
				b := cases[g.Intn(len(cases))]
				q.page, q.size = b.p, b.s
				t := q.target(g)
				r := w.get(t)
				what := fmt.Sprintf("page %d size %d (%d matches, labels %v)", b.p, b.s, n, q.labels != nil)
				switch b.kind {
				case "all":
					l, err := parseList(r)
					if err != nil {
						c.Violate("bound-all", what+": "+err.Error(), t)
					} else if strings.Join(l.IDs, " ") != strings.Join(full.IDs, " ") || l.Remain != 0 {
						c.Violate("bound-all", fmt.Sprintf("%s: %d items, %d remaining", what, len(l.IDs), l.Remain), t)
					} else if tot := sdkTotal(r, q); tot != n {
						c.Violate("total", fmt.Sprintf("%s: SDK total is %d", what, tot), t)
					}
				default:
					if r.Hang || r.Status < 400 || r.Status >= 500 {
						c.Violate("bound-"+b.kind, fmt.Sprintf("%s: status %d", what, r.Status), t)
					}
				}
				c.Count("boundaries_"+b.kind, 1)
				c.Eval(fmt.Sprintf("%s%d/%d/%d", b.kind, b.p, b.s, n))
			}
			if i == 1 {
				c.Sample(map[string]interface{}{"query": q.describe(), "pages": pages, "matches": n})
			}
		}
	}
	worlds(c, c.N(6, 40), 18, clusterSets, everyDef, run)
	bigWorld(c, run)
	c.Need("pages", 500)
	c.Need("boundaries_neg", 50)
}

// sdkClusters compares the cluster the SDK names for each object of a list with the one the list names.
func sdkClusters(r *Resp, l *listResp) string {
	pl := &metav1.PartialObjectMetadataList{}
	_ = json.Unmarshal(r.Body, pl)
	for i := range pl.Items {
		if got := page.GetObjectCluster(&pl.Items[i]); i >= len(l.Items) || got == "" || got != l.Items[i].Anno[annoCluster] {
			return fmt.Sprintf("object %d is said to be of cluster %q", i, got)
		}
	}
	// a list which says nothing of what remains is complete
	if tot := page.MakeupResPaginate(&metav1.PartialObjectMetadataList{Items: pl.Items}, page.Paginate{}).Total; tot != int64(len(pl.Items)) {
		return fmt.Sprintf("the total of %d objects without more is %d", len(pl.Items), tot)
	}
	return ""
}

func sdkTotal(r *Resp, q *listQ) int64 {
	l := &metav1.PartialObjectMetadataList{}
	_ = json.Unmarshal(r.Body, l)
	return page.MakeupResPaginate(l, page.Paginate{Page: q.page, PageSize: q.size}).Total
}

// ---------------------------------------------------------------------------

func c08(c *Ctx) {
	c.Rule("worlds as for C04 with six types of different index configurations; every random list request is sent as a list and as a table; rows are compared with items one by one and cell by cell against the index annotation. Non-trivial: at least one row.")
	bare := &gvrDef{G: "example.io", V: "v1", R: "gauges", Kind: "Gauge", Namespaced: true, Custom: true, Index: []idx{field("size", "spec", "size"), field("zone", "metadata", "labels", "zone"), literal("Name", "upper"), field("a", "spec", "color")}}
	none := &gvrDef{G: "example.io", V: "v1", R: "hats", Kind: "Hat", Namespaced: true, Custom: true}
	defs := func(*rand.Rand) []*gvrDef { return append(append([]*gvrDef{}, allDefs...), bare, none) }
	accepts := []string{
		"application/json;as=Table;v=v1;g=meta.k8s.io,application/json",
		"application/json;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1beta1;g=meta.k8s.io,application/json",
		"application/json;as=Table",
		"application/vnd.kubernetes.protobuf;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1;g=meta.k8s.io,application/json",
	}
	run := func(w *World, g *rand.Rand) {
		for i := w.n(c.N(200, 800)); i > 0 && !c.Stop(); i-- {
			q := genListQ(g, w).normalise()
			if g.Intn(2) == 0 {
				q.parts, q.labels = nil, nil
			}
			if g.Intn(3) == 0 {
				q.sort = renderSort(g, genSort(g, w, q.def))
			}
			if g.Intn(3) == 0 {
				q.page, q.size = 1, 1+g.Int63n(6)
			}
			t := q.target(g)
			l, err := parseList(w.get(t))
			if err != nil {
				c.Violate("list", fmt.Sprintf("list %v failed: %v", q.describe(), err), t)
				continue
			}
			r := do(w.Router, "GET", t, map[string]string{"Accept": pick(g, accepts)}, nil)
			wit := map[string]interface{}{"request": t, "query": q.describe()}
			var tab metav1.Table
			if r.Hang || r.Status != 200 || json.Unmarshal(r.Body, &tab) != nil || tab.Kind != "Table" || tab.APIVersion != "meta.k8s.io/v1" {
				c.Violate("table", fmt.Sprintf("table of %v: status %d, %s", q.describe(), r.Status, trunc(r.Body)), wit)
				continue
			}
			if len(tab.Rows) != len(l.Items) {
				c.Violate("rows", fmt.Sprintf("table of %v has %d rows for %d items", q.describe(), len(tab.Rows), len(l.Items)), wit)
				continue
			}
			if len(l.Items) == 0 {
				c.Eval("")
				continue
			}
			var cols []string
			for _, cd := range tab.ColumnDefinitions {
				cols = append(cols, cd.Name)
			}
			okay := true
			seen := map[string]int{}
			for _, n := range cols {
				seen[n]++
			}
			wantFirst := []string{"cluster", "name"}
			if _, ok := l.Items[0].Index["namespace"]; ok {
				wantFirst = []string{"cluster", "namespace", "name"}
			}
			for j, n := range wantFirst {
				if len(cols) <= j || cols[j] != n {
					c.Violate("columns", fmt.Sprintf("table of %s has columns %q", q.def.R, cols), wit)
					okay = false
					break
				}
			}
			for _, ix := range q.def.Index {
				if seen[ix.Key] != 1 {
					c.Violate("columns", fmt.Sprintf("key %q appears %d times in columns %q", ix.Key, seen[ix.Key], cols), wit)
					okay = false
				}
			}
			for n, k := range seen {
				if k != 1 {
					c.Violate("columns", fmt.Sprintf("column %q appears %d times", n, k), wit)
					okay = false
				}
			}
			if !okay {
				continue
			}
			for ri, row := range tab.Rows {
				it := l.Items[ri]
				model := w.Objs[q.def][it.ID]
				if len(row.Cells) != len(cols) {
					c.Violate("cells", fmt.Sprintf("row %d of %s has %d cells for %d columns", ri, q.def.R, len(row.Cells), len(cols)), wit)
					break
				}
				bad := false
				for ci, n := range cols {
					got, _ := row.Cells[ci].(string)
					want, known := "", false
					if model != nil {
						want, known = model.Index[n]
					}
					if !known {
						want = it.Index[n]
					}
					if got != want {
						c.Violate("cells", fmt.Sprintf("row %d (%s) column %q holds %q, want %q", ri, it.ID, n, got, want), wit)
						bad = true
						break
					}
					c.Count("cells", 1)
				}
				if bad {
					break
				}
			}
			c.Count("rows", int64(len(tab.Rows)))
			c.Eval(t)
			if i == 1 {
				c.Sample(map[string]interface{}{"columns": cols, "rows": len(tab.Rows)})
			}
		}
	}
	worlds(c, c.N(6, 40), 12, clusterSets, defs, run)
	bigWorld(c, run)
	c.Need("rows", 500)
}

// ---------------------------------------------------------------------------

func c09(c *Ctx) {
	c.Rule("worlds as for C04; single reads of existing objects, of absent names and namespaces, of names existing only in another cluster, namespace or type, namespaced and cluster-scoped, with and without the cluster marker; body compared with the model object. Reads of uncached types, subresources and non-GET methods must reach the upstream. Non-trivial: distinct requests answered.")
	worlds(c, c.N(6, 40), 14, clusterSets, everyDef, func(w *World, g *rand.Rand) {
		w.contacts()
		for i := c.N(500, 2000); i > 0 && !c.Stop(); i-- {
			d := w.Defs[g.Intn(len(w.Defs))]
			cl := w.Default
			ns, name := "", pick(g, objNames)
			if d.Namespaced {
				ns = pick(g, nsNames)
			}
			if os := w.objs(d); len(os) > 0 && g.Intn(3) > 0 {
				o := os[g.Intn(len(os))]
				ns, name = o.NS, o.Name
				if g.Intn(2) == 0 {
					cl = o.Cluster
				}
			}
			if g.Intn(6) == 0 { // nearly the name
				name = pick(g, []string{name + "x", "x" + name, name[:len(name)-1], strings.ToUpper(name), name + ".", name + "-0", fmt.Sprintf("%%%02x%s", name[0], name[1:])})
				if name == "" {
					name = "nosuch"
				}
				c.Count("near_names", 1)
			}
			if g.Intn(12) == 0 && ns != "" { // nearly the namespace
				ns = pick(g, []string{ns + "x", "x" + ns, ns[:len(ns)-1] + "_", strings.ToUpper(ns), strings.Title(ns)})
				c.Count("near_namespaces", 1)
			}
			t := d.path(ns) + "/" + name
			if g.Intn(6) == 0 { // in a namespace although the type has none, or without one
				if !d.Namespaced {
					ns = pick(g, nsNames)
					t = strings.TrimSuffix(d.path(""), d.R) + "namespaces/" + ns + "/" + d.R + "/" + name
				} else {
					ns = ""
					t = d.path("") + "/" + name
				}
				c.Count("misplaced_namespaces", 1)
			}
			name, _ = url.PathUnescape(name)
			marked := cl != w.Default || g.Intn(3) == 0
			if g.Intn(6) == 0 {
				cl, marked = pick(g, w.Clusters), true
			}
			if marked {
				op, _ := page.QueryGetOptions(metav1.GetOptions{}, cl)
				t += "?resourceVersion=" + url.QueryEscape(op.ResourceVersion)
			}
			r := w.get(t)
			wit := map[string]interface{}{"request": t, "cluster": cl}
			want := w.Objs[d][cl+"|"+ns+"|"+name]
			if got := w.contacts(); len(got) > 0 {
				c.Violate("contacts", fmt.Sprintf("a cached read contacted %v", got), wit)
			}
			c.Eval(t + strconv.Itoa(r.Status))
			if want == nil {
				c.Count("absent", 1)
				m := r.json()
				if r.Status != 404 || m["kind"] != "Status" || m["reason"] != "NotFound" || text(m["code"]) != "404" || m["status"] != "Failure" {
					c.Violate("notfound", fmt.Sprintf("read of absent %s %s/%s in %s: %d %s", d.R, ns, name, cl, r.Status, trunc(r.Body)), wit)
				}
				continue
			}
			c.Count("present", 1)
			if r.Status != 200 || r.Hang {
				c.Violate("get", fmt.Sprintf("read of %s %s in %s: %d %s", d.R, want.key(), cl, r.Status, trunc(r.Body)), wit)
				continue
			}
			m := r.json()
			it, err := itemOf(m)
			if err != nil || it.ID != want.id() || text(at(m, "metadata", "uid")) != text(at(want.Raw, "metadata", "uid")) {
				c.Violate("get", fmt.Sprintf("read of %s returned %s", want.id(), trunc(r.Body)), wit)
				continue
			}
			if m["kind"] != d.Kind || m["apiVersion"] != d.api() {
				c.Violate("gvk", fmt.Sprintf("read of %s %s has kind %v and apiVersion %v, want %s %s", d.R, want.key(), m["kind"], m["apiVersion"], d.Kind, d.api()), wit)
			}
			if i == 1 {
				c.Sample(map[string]interface{}{"request": t, "kind": m["kind"]})
			}
		}
		// what the cache must not answer
		paths := []string{
			"/api/v1/namespaces/default/configmaps/a", "/api/v1/namespaces/default/configmaps", "/api/v1/nodes", "/api/v1/nodes/a", "/apis/apps/v1/namespaces/a/statefulsets",
			"/apis/apps/v1beta1/namespaces/a/deployments/web", "/apis/extensions/v1/deployments", "/apis/example.io/v2/widgets", "/apis/v1/v1/pods", "/api/v2/pods",
			"/api/v1/namespaces/default/pods/a/log", "/api/v1/namespaces/default/pods/a/status", "/apis/apps/v1/namespaces/a/deployments/web/scale", "/api/v1/namespaces/default/status",
			"/apis/example.io/v1/namespaces/a/widgets/b/status", "/version", "/api", "/apis", "/apis/apps/v1", "/api/v1", "/healthz", "/openapi/v2",
		}
		for _, p := range paths {
			r := w.get(p)
			got := w.contacts()
			if len(got[w.Default]) != 1 || len(got) != 1 || r.json()["kind"] != "Echo" {
				c.Violate("uncached", fmt.Sprintf("GET %s was not answered by the cluster: contacts %d, %s", p, len(got[w.Default]), trunc(r.Body)), p)
			}
			c.Count("passed", 1)
		}
		for i := 0; i < 40; i++ {
			d := w.Defs[g.Intn(len(w.Defs))]
			os := w.objs(d)
			if len(os) == 0 {
				continue
			}
			o := os[g.Intn(len(os))]
			t, to := d.path(o.NS)+"/"+o.Name+"?"+pick(g, []string{"resourceVersion=12", "pretty=true", "export=true", "exact=true", "resourceVersion=0", "fieldSelector=a%3Db", "x"}), w.Default
			if g.Intn(2) == 0 {
				op, _ := page.QueryGetOptions(metav1.GetOptions{}, o.Cluster)
				t = strings.Split(t, "?")[0] + "?pretty=true&resourceVersion=" + url.QueryEscape(op.ResourceVersion)
				to = o.Cluster
			}
			r := w.get(t)
			if got := w.contacts(); len(got) != 1 || len(got[to]) != 1 || r.json()["kind"] != "Echo" {
				c.Violate("uncached", fmt.Sprintf("GET %s was not answered by cluster %q: contacts %v, %s", t, to, got, trunc(r.Body)), t)
			}
			c.Count("passed", 1)
		}
		for i := 0; i < 60; i++ {
			d := w.Defs[g.Intn(len(w.Defs))]
			ns := ""
			if d.Namespaced {
				ns = pick(g, nsNames)
			}
			name := pick(g, objNames)
			if os := w.objs(d); len(os) > 0 {
				o := os[g.Intn(len(os))]
				ns, name = o.NS, o.Name
			}
			meth := pick(g, []string{"POST", "PUT", "PATCH", "DELETE"})
			t := d.path(ns)
			if meth != "POST" {
				t += "/" + name
			}
			r := do(w.Router, meth, t, map[string]string{"Content-Type": "application/json"}, []byte(`{"a":1}`))
			got := w.contacts()
			if len(got) != 1 || len(got[w.Default]) != 1 || got[w.Default][0].Method != meth || got[w.Default][0].Path != strings.SplitN(t, "?", 2)[0] {
				c.Violate("method", fmt.Sprintf("%s %s was not forwarded once to the default cluster: %d %s", meth, t, r.Status, trunc(r.Body)), t)
			}
			c.Count("passed", 1)
		}
	})
	c.Need("near_names", 50)
	c.Need("near_namespaces", 50)
	c.Need("misplaced_namespaces", 50)
	c.Need("present", 300)
	c.Need("absent", 200)
}
