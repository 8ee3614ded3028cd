package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/prometheus/client_golang/prometheus"
	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

func init() {
	register("C10", "exploration", c10)
	register("C12", "exploration", c12)
}

// decoded is the object as a watcher hands it to the cache.
func decoded(d *gvrDef, b []byte) metav1.Object {
	var o metav1.Object
	switch {
	case d.Custom:
		o = &watcher.ObjType{}
	case d.R == "pods":
		o = &corev1.Pod{}
	case d.R == "services":
		o = &corev1.Service{}
	case d.R == "namespaces":
		o = &corev1.Namespace{}
	case d.R == "deployments":
		o = &appsv1.Deployment{}
	default:
		o = &watcher.ObjType{}
	}
	if err := json.Unmarshal(b, o); err != nil {
		panic(err)
	}
	return o
}

type slot struct {
	g       int
	cluster string
	ns      string
	name    string
}

func c10(c *Ctx) {
	c.Rule("a case is one history of add, modify, delete and clean operations on one store, compared with its replay after every step; non-trivial when it has at least one deletion or clean of something present; distinct histories by their operations")
	c.Assume("versions of an object are told apart by a label, and have resource versions of their own, in no order; reads are lists over all and single namespaces and single reads of every slot of the universe")
	g := c.Rand(1)
	defs := []*gvrDef{
		defPods,
		{V: "v1", R: "services", Kind: "Service", Namespaced: true, Index: baseIndex},
		{G: "example.io", V: "v1", R: "pods", Kind: "Pod", Namespaced: true, Custom: true, Index: []idx{literal("namespace", "lie"), literal("name", "lie"), field("uid", "metadata", "uid")}},
		{G: "example.io", V: "v2", R: "pods", Kind: "Pod", Namespaced: true, Custom: true},
		{G: "pods", V: "v1", R: "example.io", Kind: "Pod", Custom: true, Index: baseIndex},
	}
	clusters := []string{"c1", "c2", "c1/c2", "", "default"}
	nss := []string{"", "default", "a", "b", "a/b", "c1"}
	names := []string{"a", "b", "a/b", "default", "lie", "c1", "a.b"}
	hist := c.N(60, 600)
	for h := 0; h < hist && !c.Stop(); h++ {
		ic := map[store.GroupVersionResource]map[string]string{}
		for _, d := range defs {
			ic[d.gvr()] = d.indexConf()
		}
		st := memory.NewMemoryStore(ic)
		model := map[slot]string{} // slot -> version
		last := map[slot]func() metav1.Object{}
		// a small universe in half of the histories, for many collisions
		cs, ns, nm := clusters, nss, names
		if h%2 == 0 {
			cs, ns, nm = clusters[:2], nss[:3], names[:3]
		}
		var log []string
		version := 0
		effective := false
		steps := 40 + g.Intn(120)
		for s := 0; s < steps; s++ {
			k := slot{g: g.Intn(len(defs)), cluster: pick(g, cs), ns: pick(g, ns), name: pick(g, nm)}
			d := defs[k.g]
			if g.Intn(3) > 0 && len(model) > 0 { // prefer slots in use
				ks := modelSlots(model)
				k = ks[g.Intn(len(ks))]
				d = defs[k.g]
			}
			version++
			v := strconv.Itoa(version)
			again := g.Intn(4) == 0 && last[k] != nil // as the last one there, which a cluster sends again
			mk := func() metav1.Object {
				if again {
					v = versionOf(last[k]())
					return last[k]()
				}
				o := genObj(g, &gvrDef{G: d.G, V: d.V, R: d.R, Kind: d.Kind, Namespaced: true, Custom: d.Custom, Index: d.Index}, k.cluster, k.ns, k.name)
				r, v := pick(g, []string{v, v, strconv.Itoa(1000000 - version), "x" + v, ""}), v
				last[k] = func() metav1.Object {
					x := decoded(d, o.Bytes)
					x.SetResourceVersion(r)
					ls := map[string]string{verLabel: v}
					for k, l := range x.GetLabels() {
						ls[k] = l
					}
					x.SetLabels(ls)
					return x
				}
				return last[k]()
			}
			op := ""
			switch n := g.Intn(20); {
			case n < 8:
				op = "add"
				_ = st.OnResourceAdded(d.gvr(), k.cluster, mk())
				model[k] = v
			case n < 14:
				op = "modify"
				_ = st.OnResourceModified(d.gvr(), k.cluster, mk())
				model[k] = v
			case n < 19:
				op = "delete"
				if _, ok := model[k]; ok {
					effective = true
				}
				before := last[k]
				gone := mk()
				last[k] = before
				if g.Intn(3) == 0 { // as it was earlier, or hardly described
					gone.SetResourceVersion(pick(g, []string{"", "1", strconv.Itoa(version / 2), "1" + v}))
					gone.SetUID(types.UID(pick(g, []string{"", "other"})))
					gone.SetLabels(nil)
				}
				_ = st.OnResourceDeleted(d.gvr(), k.cluster, gone)
				delete(model, k)
			default:
				op = "clean"
				_ = st.Clean(d.gvr(), k.cluster)
				for x := range model {
					if x.g == k.g && x.cluster == k.cluster {
						effective = true
						delete(model, x)
					}
				}
			}
			log = append(log, fmt.Sprintf("%s %s/%s/%s %q %q/%q v%s", op, d.G, d.V, d.R, k.cluster, k.ns, k.name, v))
			c.Count("operations", 1)
			full := s%8 == 7 || s == steps-1 || op == "clean"
			if bad := c10compare(c, st, defs, model, cs, ns, nm, k, full); bad != "" {
				c.Violate("replay/"+op, bad, map[string]interface{}{"history": log, "expected": fmt.Sprint(model)})
				return
			}
			if full {
				// reading in all ways changes nothing
				before := c10dump(st, defs)
				for r := 0; r < 12; r++ {
					q := store.Query{Namespace: pick(g, append([]string{""}, ns...)), Paginate: page.Paginate{
						Page: int64(g.Intn(4)), PageSize: int64(g.Intn(4)), Sort: pick(g, []string{"", "name desc", "uid", "name!int", "nope"}),
						Search: pick(g, []string{"", "a", "name=a", "nope=1", asPrefix + "cluster in (c1)", asPrefix + "x y"})}}
					_ = st.Query(defs[g.Intn(len(defs))].gvr(), q)
					_ = st.Get(defs[g.Intn(len(defs))].gvr(), pick(g, cs), pick(g, ns), pick(g, nm))
					_ = st.Get(defs[g.Intn(len(defs))].gvr(), "never", "never", "never")
					c.Count("reads", 2)
				}
				if after := c10dump(st, defs); after != before {
					c.Violate("read-changes", "reading changed the contents", map[string]interface{}{"before": before, "after": after, "history": log})
					return
				}
			}
		}
		sig := ""
		if effective {
			sig = strings.Join(log, "\n")
		}
		c.Eval(sig)
		if h < 1 {
			c.Sample(log)
		}
	}
	// many objects in one namespace
	for i := 0; i < c.N(2, 10) && !c.Stop(); i++ {
		st := newStore([]*gvrDef{defPods})
		n := 3000
		for j := 0; j < n; j++ {
			p := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Name: "p" + strconv.Itoa(j), Namespace: "n" + strconv.Itoa(j%7), ResourceVersion: "1"}}
			_ = st.OnResourceAdded(defPods.gvr(), "c"+strconv.Itoa(j%3), p)
		}
		r := st.Query(defPods.gvr(), store.Query{})
		if len(r.Items) != n || r.Total != int64(n) {
			c.Violate("replay/bulk", fmt.Sprintf("%d objects added, %d listed (total %d)", n, len(r.Items), r.Total), nil)
		}
		c.Count("operations", int64(n))
		c.Eval("bulk")
	}
	// and in many namespaces, one cluster of which is cleaned
	for i := 0; i < c.N(3, 12) && !c.Stop(); i++ {
		st := newStore([]*gvrDef{defPods})
		n := []int{30, 300, 1500}[i%3]
		for j := 0; j < 3*n; j++ {
			p := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Name: "p" + strconv.Itoa(j%2), Namespace: "n" + strconv.Itoa(j/3), ResourceVersion: "1"}}
			_ = st.OnResourceAdded(defPods.gvr(), "c"+strconv.Itoa(j%3), p)
		}
		_ = st.Clean(defPods.gvr(), "c1")
		for j := 0; j < 3; j++ {
			want := int64(n)
			if j == 1 {
				want = 0
			}
			r := st.Query(defPods.gvr(), store.Query{Paginate: page.Paginate{Search: "cluster=c" + strconv.Itoa(j)}})
			if r.Total != want {
				c.Violate("replay/clean-many", fmt.Sprintf("c1 of three clusters with %d namespaces each was cleaned: %d objects of c%d are left", n, r.Total, j), nil)
			}
		}
		c.Count("operations", int64(3*n+1))
		c.Eval("many namespaces")
	}
	c.Need("operations", 1000)
	c.Need("slots_compared", 10000)
}

func modelSlots(m map[slot]string) []slot {
	var ks []slot
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	return ks
}

const verLabel = "verif/version"

func versionOf(x metav1.Object) string { return x.GetLabels()[verLabel] }

func c10compare(c *Ctx, st store.Store, defs []*gvrDef, model map[slot]string, cs, nss, names []string, k slot, full bool) string {
	one := func(k slot) string {
		o := st.Get(defs[k.g].gvr(), k.cluster, k.ns, k.name)
		v, ok := model[k]
		c.Count("slots_compared", 1)
		if !ok {
			if o != nil {
				return fmt.Sprintf("read of %+v returns an object that is not cached", k)
			}
			return ""
		}
		if o == nil {
			return fmt.Sprintf("read of %+v returns nothing, expected version %s", k, v)
		}
		x, is := o.(metav1.Object)
		if !is || versionOf(x) != v || x.GetName() != k.name || x.GetNamespace() != k.ns {
			return fmt.Sprintf("read of %+v returns %v, expected version %s", k, o, v)
		}
		if x.GetAnnotations()[annoCluster] != k.cluster {
			return fmt.Sprintf("read of %+v returns an object of cluster %q", k, x.GetAnnotations()[annoCluster])
		}
		return ""
	}
	if bad := one(k); bad != "" {
		return bad
	}
	if !full {
		return ""
	}
	for gi := range defs {
		for _, cl := range cs {
			for _, ns := range nss {
				for _, n := range names {
					if bad := one(slot{gi, cl, ns, n}); bad != "" {
						return bad
					}
				}
			}
		}
		for _, ns := range nss { // includes "": all
			r := st.Query(defs[gi].gvr(), store.Query{Namespace: ns})
			if r.Error != nil {
				return "query error: " + r.Error.Error()
			}
			got := map[slot]string{}
			for _, it := range r.Items {
				x, ok := it.(metav1.Object)
				if !ok {
					return fmt.Sprintf("listed %T", it)
				}
				s := slot{gi, x.GetAnnotations()[annoCluster], x.GetNamespace(), x.GetName()}
				if _, dup := got[s]; dup {
					return fmt.Sprintf("%+v is listed twice", s)
				}
				got[s] = versionOf(x)
			}
			n := 0
			for s, v := range model {
				if s.g == gi && (ns == "" || s.ns == ns) {
					n++
					if got[s] != v {
						return fmt.Sprintf("list of namespace %q has %+v in version %q, expected %q", ns, s, got[s], v)
					}
				}
			}
			if n != len(got) || r.Total != int64(n) {
				return fmt.Sprintf("list of namespace %q has %d objects (total %d), expected %d", ns, len(got), r.Total, n)
			}
			c.Count("lists_compared", 1)
		}
	}
	return ""
}

func c10dump(st store.Store, defs []*gvrDef) string {
	var sb strings.Builder
	for _, d := range defs {
		r := st.Query(d.gvr(), store.Query{})
		var ls []string
		for _, it := range r.Items {
			b, _ := json.Marshal(it)
			ls = append(ls, string(b))
		}
		sort.Strings(ls)
		sb.WriteString(strings.Join(ls, "\n") + "\n==\n")
	}
	return sb.String()
}

// ---- C12

// expr is an index expression with the values it may have.
type expr struct {
	text string
	want func(o map[string]interface{}) []string // admissible values
	bad  bool
}

func one(f func(o map[string]interface{}) string) func(o map[string]interface{}) []string {
	return func(o map[string]interface{}) []string { return []string{f(o)} }
}

func prefixes(s string) []string {
	r := []string{}
	for i := 0; i <= len(s); i++ {
		r = append(r, s[:i])
	}
	return r
}

func strs(v interface{}) []string {
	var r []string
	l, _ := v.([]interface{})
	for _, x := range l {
		r = append(r, text(x))
	}
	return r
}

func mdS(o map[string]interface{}, k string) string { return text(at(o, "metadata", k)) }

// orDefault is the value of a field, or the default when it is not there; one of something which is not there fails.
func orDefault(o map[string]interface{}, def string, path ...string) []string {
	v := at(o, path...)
	if v != nil {
		return []string{text(v)}
	}
	if m, _ := at(o, path[:len(path)-1]...).(map[string]interface{}); len(m) == 0 {
		return []string{def, ""}
	}
	return []string{def}
}

var exprPool = []expr{
	{text: "{.metadata.name}", want: one(func(o map[string]interface{}) string { return mdS(o, "name") })},
	{text: "{ .metadata.uid }", want: one(func(o map[string]interface{}) string { return mdS(o, "uid") })},
	{text: "{$.metadata.resourceVersion}", want: one(func(o map[string]interface{}) string { return mdS(o, "resourceVersion") })},
	{text: "pre-{.metadata.name}-{.metadata.uid}", want: one(func(o map[string]interface{}) string { return "pre-" + mdS(o, "name") + "-" + mdS(o, "uid") })},
	{text: "{.metadata.labels}", want: one(func(o map[string]interface{}) string { return text(at(o, "metadata", "labels")) })},
	{text: "{.metadata.labels.app}", want: one(func(o map[string]interface{}) string { return text(at(o, "metadata", "labels", "app")) })},
	{text: `{.metadata.labels.app\.kubernetes\.io/name}`, want: one(func(o map[string]interface{}) string {
		return text(at(o, "metadata", "labels", "app.kubernetes.io/name"))
	})},
	{text: `{.metadata.labels['app\.kubernetes\.io/name']}`, want: one(func(o map[string]interface{}) string {
		return text(at(o, "metadata", "labels", "app.kubernetes.io/name"))
	})},
	{text: "{.metadata.annotations.note}", want: one(func(o map[string]interface{}) string { return text(at(o, "metadata", "annotations", "note")) })},
	{text: "{.metadata.generation}", want: one(func(o map[string]interface{}) string { return text(at(o, "metadata", "generation")) })},
	{text: "{.spec.priority}", want: one(func(o map[string]interface{}) string { return text(at(o, "spec", "priority")) })},
	{text: "{.spec.replicas}", want: one(func(o map[string]interface{}) string { return text(at(o, "spec", "replicas")) })},
	{text: "{.spec.size}", want: one(func(o map[string]interface{}) string { return text(at(o, "spec", "size")) })},
	{text: "{.spec.big}", want: one(func(o map[string]interface{}) string { return text(at(o, "spec", "big")) })},
	{text: "{.spec.absent.deeper}", want: one(func(map[string]interface{}) string { return "" })},
	{text: "{.spec.containers[*].name}", want: one(func(o map[string]interface{}) string { return strings.Join(containersOf(o), " ") })},
	{text: "{range .spec.containers[*]}{.name};{end}", want: one(func(o map[string]interface{}) string {
		s := ""
		for _, n := range containersOf(o) {
			s += n + ";"
		}
		return s
	})},
	{text: "{.spec.list[*]}", want: one(func(o map[string]interface{}) string { return strings.Join(strs(at(o, "spec", "list")), " ") })},
	{text: "{{ .metadata.name }}", want: one(func(o map[string]interface{}) string { return mdS(o, "name") })},
	{text: `{{ join "/" .metadata.uid .metadata.name }}`, want: one(func(o map[string]interface{}) string { return mdS(o, "uid") + "/" + mdS(o, "name") })},
	{text: `{{ .metadata.name | quote }}`, want: one(func(o map[string]interface{}) string { return strconv.Quote(mdS(o, "name")) })},
	{text: `x{{ default "none" .metadata.generation }}y`, want: one(func(o map[string]interface{}) string {
		if v := at(o, "metadata", "generation"); v != nil {
			return "x" + text(v) + "y"
		}
		return "xnoney"
	})},
	{text: `{{ default "none" .metadata.labels.app }}`, want: func(o map[string]interface{}) []string { return orDefault(o, "none", "metadata", "labels", "app") }},
	{text: `{{ .metadata.annotations.note | default "none" }}`, want: func(o map[string]interface{}) []string {
		return orDefault(o, "none", "metadata", "annotations", "note")
	}},
	{text: `{{ default "unset" .spec.flag }}`, want: func(o map[string]interface{}) []string { return orDefault(o, "unset", "spec", "flag") }},
	{text: `{{ default "-1" .spec.size }}/{{ default "" .spec.nosuch }}`, want: func(o map[string]interface{}) []string {
		if at(o, "spec") == nil { // the Kubernetes types write an empty one
			return []string{"", "-1/"}
		}
		return []string{orDefault(o, "-1", "spec", "size")[0] + "/"}
	}},
	{text: `{{ join "," "a" .metadata.uid (default "none" .metadata.generation) "" }}`, want: one(func(o map[string]interface{}) string {
		v := "none"
		if x := at(o, "metadata", "generation"); x != nil {
			v = text(x)
		}
		return "a," + mdS(o, "uid") + "," + v + ","
	})},
	{text: "{.spec.flag}", want: one(func(o map[string]interface{}) string { return text(at(o, "spec", "flag")) })},
	{text: "{.spec.containers[0].name}", want: func(o map[string]interface{}) []string {
		if cs := containersOf(o); len(cs) > 0 {
			return cs[:1]
		}
		return []string{""}
	}},
	{text: "{.spec.containers[-1:].name}", want: func(o map[string]interface{}) []string {
		if cs := containersOf(o); len(cs) > 0 {
			return cs[len(cs)-1:]
		}
		return []string{""}
	}},
	{text: `{.spec.containers[?(@.name=="c1")].name}`, want: func(o map[string]interface{}) []string {
		for _, n := range containersOf(o) {
			if n == "c1" {
				return []string{"c1"}
			}
		}
		return []string{""}
	}},
	{text: `{{ if .metadata.labels }}labelled{{ else }}bare{{ end }}`, want: one(func(o map[string]interface{}) string {
		if l, _ := at(o, "metadata", "labels").(map[string]interface{}); len(l) > 0 {
			return "labelled"
		}
		return "bare"
	})},
	{text: `{{ range .spec.containers }}{{ .name }},{{ end }}`, want: one(func(o map[string]interface{}) string {
		s := ""
		for _, n := range containersOf(o) {
			s += n + ","
		}
		return s
	})},
	{text: `{{ if .spec.size }}{{ .spec.size }}/{{ quote .spec.big }}{{ end }}`, want: one(func(o map[string]interface{}) string {
		if v := text(at(o, "spec", "size")); v != "" && v != "0" {
			return v + "/" + strconv.Quote(text(at(o, "spec", "big")))
		}
		return ""
	})},
	{text: "literal", want: one(func(map[string]interface{}) string { return "literal" })},
	{text: "with space; and }", want: one(func(map[string]interface{}) string { return "with space; and }" })},
	{text: "", want: one(func(map[string]interface{}) string { return "" })},
	{text: "日本 %s %d", want: one(func(map[string]interface{}) string { return "日本 %s %d" })},
	// expressions that do not parse or do not evaluate: empty, or what was written up to the error
	{text: "{.metadata.name", bad: true, want: func(o map[string]interface{}) []string { return []string{""} }},
	{text: "{{ .metadata.name", bad: true, want: func(o map[string]interface{}) []string { return []string{""} }},
	{text: "{{ nofunc .metadata.name }}", bad: true, want: func(o map[string]interface{}) []string { return []string{""} }},
	{text: "{{ end }}", bad: true, want: func(o map[string]interface{}) []string { return []string{""} }},
	{text: "{[}", bad: true, want: func(o map[string]interface{}) []string { return []string{""} }},
	{text: "{.a[?(@.b}", bad: true, want: func(o map[string]interface{}) []string { return []string{""} }},
	{text: "pre{{ .metadata.name.deeper }}post", bad: true, want: func(o map[string]interface{}) []string { return prefixes("pre") }},
	{text: `{{ .metadata.uid }}{{ join "/" .metadata.name 3 }}`, bad: true, want: func(o map[string]interface{}) []string { return prefixes(mdS(o, "uid")) }},
	{text: `{{ .metadata.uid }}{{ join "/" .nope.deeper.x }}`, bad: true, want: func(o map[string]interface{}) []string { return prefixes(mdS(o, "uid")) }},
	{text: "pre{.spec.containers[99].name}", bad: true, want: func(o map[string]interface{}) []string { return prefixes("pre") }},
	{text: "{.metadata.name}{.metadata.name[0]}", bad: true, want: func(o map[string]interface{}) []string { return prefixes(mdS(o, "name")) }},
}

func c12(c *Ctx) {
	c.Rule("a case is one object stored under one random index configuration; every index value, the annotations and one search per key are judged; distinct by configuration and object; all are non-trivial")
	c.Assume("the meaning of an expression is the table in c_store.go, written independently of the JSONPath and template packages; an expression that fails may leave any prefix of what it had written")
	g := c.Rand(1)
	keyPool := []string{"k1", "k2", "k3", "k4", "k5", "k6", "labels", "created_at", "x.y/z", "ü", "uid", "cluster", "is_deleted", "namespace", "name"}
	n := c.N(500, 6000)
	for i := 0; i < n && !c.Stop(); i++ {
		d := allDefs[g.Intn(len(allDefs))]
		conf, ex := map[string]string{}, map[string]expr{}
		for j := 1 + g.Intn(10); j > 0; j-- {
			k := pick(g, keyPool)
			e := exprPool[g.Intn(len(exprPool))]
			if i%3 == 0 && g.Intn(2) == 0 { // more failing neighbours
				e = exprPool[len(exprPool)-1-g.Intn(12)]
			}
			conf[k], ex[k] = e.text, e
		}
		gvr := d.gvr()
		st := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{gvr: conf})
		type exp struct {
			o    *Obj
			anno map[string]string
		}
		var exps []exp
		var wg sync.WaitGroup
		par, cnt := i%6 == 5, 1+g.Intn(4)
		if par {
			cnt = 16
			c.Count("concurrent_batches", 1)
		}
		for j := cnt; j > 0; j-- {
			o := genObj(g, d, "up", pick(g, nsNames), fmt.Sprintf("o%d", j))
			if d.Custom {
				switch g.Intn(5) {
				case 0:
					o.Raw["spec"].(map[string]interface{})["flag"] = ""
				case 1:
					o.Raw["spec"].(map[string]interface{})["flag"] = int64(0)
				case 2:
					o.Raw["spec"].(map[string]interface{})["flag"] = g.Intn(2) == 0
				case 3:
					o.Raw["spec"].(map[string]interface{})["flag"] = pick(g, []string{"none", " ", "0", "false", "null"})
				}
				o.Raw["spec"].(map[string]interface{})["list"] = []interface{}{int64(1), int64(123456789), "x"}
				o.Raw["spec"].(map[string]interface{})["containers"] = []interface{}{map[string]interface{}{"name": "z1"}, map[string]interface{}{"name": "z2"}}
			}
			if g.Intn(6) == 0 {
				delete(o.Raw["metadata"].(map[string]interface{}), "annotations")
			} else if g.Intn(6) == 0 {
				o.Raw["metadata"].(map[string]interface{})["annotations"] = map[string]interface{}{"note": "", "other": "x"}
			} else if g.Intn(8) == 0 {
				o.Raw["metadata"].(map[string]interface{})["annotations"] = map[string]interface{}{"note": longText(g)}
			}
			if g.Intn(5) == 0 { // as served by another proxy
				a, _ := o.Raw["metadata"].(map[string]interface{})["annotations"].(map[string]interface{})
				if a != nil {
					a[annoCluster], a[annoIndex] = "stale", `{"k1":"stale"}`
				}
			}
			o = finishObj(d, pick(g, []string{"c1", "up@x/y", ""}), o.NS, o.Name, o.Raw)
			own := map[string]string{}
			if a, ok := at(o.Raw, "metadata", "annotations").(map[string]interface{}); ok {
				for k, v := range a {
					own[k] = v.(string)
				}
			}
			exps = append(exps, exp{o, own})
			x := decoded(d, o.Bytes)
			put := st.OnResourceModified
			if g.Intn(2) == 0 {
				put = st.OnResourceAdded
			}
			if par {
				wg.Add(1)
				go func() {
					defer wg.Done()
					_ = put(gvr, o.Cluster, x)
				}()
			} else {
				_ = put(gvr, o.Cluster, x)
			}
		}
		wg.Wait()
		for _, e := range exps {
			wit := map[string]interface{}{"index": conf, "object": json.RawMessage(e.o.Bytes), "cluster": e.o.Cluster}
			got, _ := st.Get(gvr, e.o.Cluster, e.o.NS, e.o.Name).(metav1.Object)
			if got == nil {
				c.Violate("lost", "the stored object cannot be read", wit)
				break
			}
			anno := got.GetAnnotations()
			index := map[string]string{}
			if err := json.Unmarshal([]byte(anno[annoIndex]), &index); err != nil {
				c.Violate("annotation", "no index annotation: "+err.Error(), wit)
				break
			}
			wit["got"] = index
			always := map[string]string{"cluster": e.o.Cluster, "namespace": e.o.NS, "name": e.o.Name,
				"is_deleted": strconv.FormatBool(at(e.o.Raw, "metadata", "deletionTimestamp") != nil)}
			bad := false
			for k, v := range always {
				if index[k] != v {
					c.Violate("always/"+k, fmt.Sprintf("index %s is %q, want %q", k, index[k], v), wit)
					bad = true
				}
			}
			for k, x := range ex {
				if _, fixed := always[k]; fixed {
					continue
				}
				v, ok := index[k]
				if !ok {
					c.Violate("missing", fmt.Sprintf("configured key %s is not indexed", k), wit)
					bad = true
					continue
				}
				okv := false
				ws := x.want(e.o.Raw)
				for _, w := range ws {
					if v == w {
						okv = true
					}
				}
				if !okv {
					c.Violate("value/"+x.text, fmt.Sprintf("key %s with expression %q has value %q, want %q", k, x.text, v, ws[len(ws)-1]), wit)
					bad = true
				}
				c.Count("values_judged", 1)
				if x.bad {
					c.Count("failing_expressions", 1)
				}
			}
			for k := range index {
				_, a := conf[k]
				_, b := always[k]
				if !a && !b {
					c.Violate("foreign-key", fmt.Sprintf("index has key %q which is not configured", k), wit)
					bad = true
				}
			}
			if anno[annoCluster] != e.o.Cluster {
				c.Violate("cluster-annotation", fmt.Sprintf("cluster annotation is %q", anno[annoCluster]), wit)
				bad = true
			}
			for k, v := range e.anno {
				if k != annoCluster && k != annoIndex && anno[k] != v {
					c.Violate("own-annotations", fmt.Sprintf("the object's annotation %s became %q", k, anno[k]), wit)
					bad = true
				}
			}
			extra := 0
			for k := range anno {
				if _, ok := e.anno[k]; !ok && k != annoCluster && k != annoIndex {
					extra++
				}
			}
			if extra > 0 {
				c.Violate("extra-annotations", "annotations appeared", wit)
				bad = true
			}
			// searches see the same values
			for _, k := range sortedKeys(index) {
				v := index[k]
				if strings.ContainsAny(k, "=!") || strings.Contains(v, `"`) || strings.HasPrefix(v, "!") || strings.TrimSpace(v) != v {
					continue
				}
				q := store.Query{Paginate: page.Paginate{Search: k + `="` + strings.ReplaceAll(v, ";", ";;") + `"; name="` + e.o.Name + `"; cluster="` + e.o.Cluster + `"; namespace="` + e.o.NS + `"`}}
				r := st.Query(gvr, q)
				found := false
				for _, it := range r.Items {
					if x, ok := it.(metav1.Object); ok && x.GetName() == e.o.Name && x.GetNamespace() == e.o.NS && x.GetAnnotations()[annoCluster] == e.o.Cluster {
						found = true
					}
				}
				if r.Error != nil || !found {
					c.Violate("search", fmt.Sprintf("the object is not found by its index value %s=%q: %v", k, v, r.Error), wit)
					bad = true
				}
				c.Count("searches", 1)
			}
			c.Eval(fmt.Sprint(conf) + string(e.o.Bytes))
			if i%200 == 0 {
				c.Sample(map[string]interface{}{"index": conf, "values": index})
			}
			if bad {
				break
			}
		}
	}
	c.Need("values_judged", 1000)
	c.Need("failing_expressions", 200)
}

// ---- C27, the part inside one process

func gaugeValues() (map[string]float64, error) {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return nil, err
	}
	res := map[string]float64{}
	for _, f := range fs {
		if f.GetName() != "ckube_resources_total" {
			continue
		}
		for _, m := range f.GetMetric() {
			l := map[string]string{}
			for _, p := range m.GetLabel() {
				l[p.GetName()] = p.GetValue()
			}
			res[fmt.Sprintf("%s|%s|%s|%s|%s", l["cluster"], l["group"], l["version"], l["resource"], l["namespace"])] = m.GetGauge().GetValue()
		}
	}
	return res, nil
}

// c27memory checks the gauge against the cache after random and after concurrent updates.
func c27memory(c *Ctx) {
	g := c.Rand(1)
	defs := []*gvrDef{defPods, defSvcs, defWidgets, defTools}
	compare := func(st store.Store, tag string, cs []string, log interface{}) bool {
		want := map[string]float64{}
		for _, d := range defs {
			for _, it := range st.Query(d.gvr(), store.Query{}).Items {
				x := it.(metav1.Object)
				want[fmt.Sprintf("%s|%s|%s|%s|%s", x.GetAnnotations()[annoCluster], d.G, d.V, d.R, x.GetNamespace())]++
			}
		}
		got, err := gaugeValues()
		if err != nil {
			c.Violate("gather", err.Error(), nil)
			return false
		}
		mine := map[string]bool{}
		for _, x := range cs {
			mine[x] = true
		}
		for k, v := range got {
			if mine[strings.SplitN(k, "|", 2)[0]] {
				c.Count("gauges_compared", 1)
				if v != want[k] {
					c.Violate("gauge/"+tag, fmt.Sprintf("gauge %s is %v, %v objects are cached", k, v, want[k]), map[string]interface{}{"log": log})
					return false
				}
			}
		}
		for k, v := range want {
			if got[k] != v {
				c.Violate("gauge/"+tag, fmt.Sprintf("gauge %s is %v, %v objects are cached", k, got[k], v), map[string]interface{}{"log": log})
				return false
			}
		}
		return true
	}
	// clusters are never reused: the gauge is global
	hist := c.N(80, 800)
	for h := 0; h < hist && !c.Stop(); h++ {
		st := newStore(defs)
		cs := []string{fmt.Sprintf("h%da", h), fmt.Sprintf("h%db", h)}
		var log []string
		for s := 0; s < 40; s++ {
			d := defs[g.Intn(len(defs))]
			cl := pick(g, cs)
			o := genObj(g, d, cl, pick(g, nsNames[:3]), pick(g, objNames[:4]))
			x := decoded(d, o.Bytes)
			n := g.Intn(10)
			switch {
			case n < 4:
				_ = st.OnResourceAdded(d.gvr(), cl, x)
			case n < 6:
				_ = st.OnResourceModified(d.gvr(), cl, x)
			case n < 9:
				_ = st.OnResourceDeleted(d.gvr(), cl, x)
			default:
				_ = st.Clean(d.gvr(), cl)
			}
			log = append(log, fmt.Sprintf("%d %s %s %s", n, cl, d.R, o.key()))
			if !compare(st, "sequential", cs, log) {
				return
			}
		}
		c.Count("updates", 40)
		c.Eval(strings.Join(log, ";"))
	}
	rounds := c.N(60, 600)
	for r := 0; r < rounds && !c.Stop(); r++ {
		st := newStore(defs)
		cs := []string{fmt.Sprintf("r%d", r)}
		var wg sync.WaitGroup
		for t := 0; t < 8; t++ {
			wg.Add(1)
			go func(rg *rand.Rand, t int) {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					d := defs[rg.Intn(2)]
					x := &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Name: fmt.Sprintf("t%d-%d", t, rg.Intn(5)), Namespace: nsNames[rg.Intn(2)]}}
					switch rg.Intn(12) {
					case 0, 1, 2, 3, 4, 5:
						_ = st.OnResourceAdded(d.gvr(), cs[0], x)
					case 6, 7:
						_ = st.OnResourceModified(d.gvr(), cs[0], x)
					case 8, 9, 10:
						_ = st.OnResourceDeleted(d.gvr(), cs[0], x)
					default:
						if t == 0 {
							_ = st.Clean(d.gvr(), cs[0])
						}
					}
				}
			}(rand.New(rand.NewSource(c.Seed*1000+int64(r*10+t))), t)
		}
		wg.Wait()
		c.Count("updates", 480)
		c.Count("concurrent_rounds", 1)
		compare(st, "concurrent", cs, nil)
		c.Eval(fmt.Sprintf("round%d", r))
	}
}
