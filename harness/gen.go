package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// ---- index expressions with an independent evaluation

type idx struct {
	Key  string
	Expr string
	Eval func(o map[string]interface{}) string `json:"-"` // nil: the value is not predicted
}

func at(o interface{}, path ...string) interface{} {
	for _, p := range path {
		m, ok := o.(map[string]interface{})
		if !ok {
			return nil
		}
		o = m[p]
	}
	return o
}

// text renders a value the way it is shown: strings verbatim, integers in plain decimal, maps and lists as JSON.
func text(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case json.Number:
		return x.String()
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	default:
		b, _ := json.Marshal(x)
		return string(b)
	}
}

func field(key string, path ...string) idx {
	expr := "{"
	for _, p := range path {
		expr += "." + strings.ReplaceAll(p, ".", `\.`)
	}
	return idx{Key: key, Expr: expr + "}", Eval: func(o map[string]interface{}) string { return text(at(o, path...)) }}
}

func literal(key, v string) idx {
	return idx{Key: key, Expr: v, Eval: func(map[string]interface{}) string { return v }}
}

var baseIndex = []idx{
	field("namespace", "metadata", "namespace"),
	field("name", "metadata", "name"),
	field("labels", "metadata", "labels"),
	field("created_at", "metadata", "creationTimestamp"),
}

func containersOf(o map[string]interface{}) []string {
	var ns []string
	l, _ := at(o, "spec", "containers").([]interface{})
	for _, c := range l {
		ns = append(ns, text(at(c, "name")))
	}
	return ns
}

var (
	defPods = &gvrDef{V: "v1", R: "pods", Kind: "Pod", Namespaced: true, Index: append(append([]idx{}, baseIndex...),
		field("uid", "metadata", "uid"),
		field("phase", "status", "phase"),
		field("prio", "spec", "priority"),
		field("ip", "status", "podIP"),
		field("app", "metadata", "labels", "app"),
		idx{"containers", "{.spec.containers[*].name}", func(o map[string]interface{}) string { return strings.Join(containersOf(o), " ") }},
		// ranges and templates keep state while they are evaluated
		idx{"csv", "{range .spec.containers[*]}{.name},{end}", func(o map[string]interface{}) string {
			s := ""
			for _, n := range containersOf(o) {
				s += n + ","
			}
			return s
		}},
		idx{"full", `{{ join "/" .metadata.namespace .metadata.name }}`, func(o map[string]interface{}) string {
			return text(at(o, "metadata", "namespace")) + "/" + text(at(o, "metadata", "name"))
		}},
	)}
	defSvcs = &gvrDef{V: "v1", R: "services", Kind: "Service", Namespaced: true, Index: append(append([]idx{}, baseIndex...),
		field("ip", "spec", "clusterIP"),
		literal("what", "svc"),
	)}
	defNS = &gvrDef{V: "v1", R: "namespaces", Kind: "Namespace", Index: append(append([]idx{}, baseIndex...),
		field("phase", "status", "phase"),
	)}
	defDeps = &gvrDef{G: "apps", V: "v1", R: "deployments", Kind: "Deployment", Namespaced: true, Index: append(append([]idx{}, baseIndex...),
		field("uid", "metadata", "uid"),
		field("replicas", "spec", "replicas"),
	)}
	defWidgets = &gvrDef{G: "example.io", V: "v1", R: "widgets", Kind: "Widget", Namespaced: true, Custom: true, Index: append(append([]idx{}, baseIndex...),
		field("uid", "metadata", "uid"),
		field("size", "spec", "size"),
		field("big", "spec", "big"),
		field("color", "spec", "color"),
	)}
	defTools = &gvrDef{G: "tools.example.io", V: "v1beta1", R: "playlists", Kind: "PlayList", Custom: true, Index: []idx{
		field("name", "metadata", "name"),
		field("uid", "metadata", "uid"),
		field("size", "spec", "size"),
	}}
	allDefs = []*gvrDef{defPods, defSvcs, defNS, defDeps, defWidgets, defTools}
)

// ---- objects

var (
	nsNames   = []string{"default", "kube-system", "ns-a", "ns-b", "a", "default2"}
	objNames  = []string{"a", "a-1", "a-10", "ab", "app", "app-0", "app-00", "b", "b.c", "default", "web", "web-1", "zz"}
	labelKeys = []string{"app", "tier", "app.kubernetes.io/name", "env", "zone"}
	labelVs   = []string{"web", "web-1", "db", "a", "b", "prod", "test", "", "1", "x_y.z"}
)

func genLabels(g *rand.Rand) map[string]string {
	n := g.Intn(4)
	if n == 0 {
		return nil
	}
	m := map[string]string{}
	for i := 0; i < n; i++ {
		m[pick(g, labelKeys)] = pick(g, labelVs)
	}
	return m
}

func strMap(m map[string]string) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

var uidSeq int

// genObj makes an object with the content its type allows; numbers are int64 or json.Number.
func genObj(g *rand.Rand, d *gvrDef, cluster, ns, name string) *Obj {
	if !d.Namespaced {
		ns = ""
	}
	uidSeq++
	md := map[string]interface{}{
		"name":              name,
		"uid":               fmt.Sprintf("%08x-%04d", g.Uint32(), uidSeq),
		"resourceVersion":   strconv.Itoa(1000 + uidSeq),
		"creationTimestamp": fmt.Sprintf("2023-%02d-%02dT%02d:00:%02dZ", 1+g.Intn(3), 1+g.Intn(3), g.Intn(3), g.Intn(2)),
	}
	if ns != "" {
		md["namespace"] = ns
	}
	labels := genLabels(g)
	if labels != nil {
		md["labels"] = strMap(labels)
	}
	md["annotations"] = map[string]interface{}{"origin": cluster}
	if g.Intn(3) == 0 {
		md["annotations"] = map[string]interface{}{"origin": cluster, "note": pick(g, []string{"x", "ünï", `q"uote`, "a;b", "<html>&"}), "k8s.io/y": strconv.Itoa(g.Intn(5))}
	}
	if g.Intn(4) == 0 { // what tools leave on objects
		a := md["annotations"].(map[string]interface{})
		a["kubectl.kubernetes.io/last-applied-configuration"] = fmt.Sprintf("{\"apiVersion\":%q,\"kind\":%q,\"metadata\":{\"annotations\":{},\"name\":%q}}\n", d.api(), d.Kind, name)
		a["deployment.kubernetes.io/revision"] = strconv.Itoa(g.Intn(5))
		md["selfLink"] = "/a/b"
		md["ownerReferences"] = []interface{}{map[string]interface{}{"apiVersion": "v1", "kind": "Node", "name": "n", "uid": "u", "controller": true}}
		md["managedFields"] = []interface{}{map[string]interface{}{"manager": "kubectl", "operation": "Update", "apiVersion": d.api(), "time": "2023-01-01T00:00:00Z", "fieldsType": "FieldsV1", "fieldsV1": map[string]interface{}{"f:spec": map[string]interface{}{}}}}
	}
	if g.Intn(8) == 0 {
		md["deletionTimestamp"] = "2024-01-02T03:04:05Z"
		md["finalizers"] = []interface{}{"example.io/f"}
	}
	if g.Intn(4) == 0 {
		md["generation"] = int64(1 + g.Intn(9))
	}
	o := map[string]interface{}{"apiVersion": d.api(), "kind": d.Kind, "metadata": md}
	switch d {
	case defPods:
		spec := map[string]interface{}{"nodeName": fmt.Sprintf("node-%d", g.Intn(3)), "priority": int64(pickInt(g, []int{1, 2, 9, 10, 11, 100, 2000000000, 1500000, -5}))}
		var cs []interface{}
		for i := 0; i <= g.Intn(3); i++ {
			cs = append(cs, map[string]interface{}{"name": fmt.Sprintf("c%d", i), "image": pick(g, []string{"nginx:1.2", "reg.io/a/b@sha256:00", "x"}),
				"ports": []interface{}{map[string]interface{}{"containerPort": int64(1 + g.Intn(65535))}}})
		}
		spec["containers"] = cs
		o["spec"] = spec
		o["status"] = map[string]interface{}{"phase": pick(g, []string{"Running", "Pending", "Failed"}), "podIP": fmt.Sprintf("10.0.0.%d", g.Intn(30))}
	case defSvcs:
		spec := map[string]interface{}{"clusterIP": fmt.Sprintf("10.1.0.%d", g.Intn(30)), "type": "ClusterIP",
			"ports": []interface{}{map[string]interface{}{"name": "http", "port": int64(80), "protocol": "TCP", "targetPort": pickAny(g, []interface{}{int64(8080), "web"})}}}
		if g.Intn(3) > 0 {
			spec["selector"] = map[string]interface{}{"app": pick(g, labelVs[:4])}
		}
		o["spec"] = spec
	case defNS:
		o["status"] = map[string]interface{}{"phase": pick(g, []string{"Active", "Terminating"})}
	case defDeps:
		o["spec"] = map[string]interface{}{"replicas": int64(g.Intn(12)), "selector": map[string]interface{}{"matchLabels": map[string]interface{}{"app": "x"}},
			"template": map[string]interface{}{"metadata": map[string]interface{}{"labels": map[string]interface{}{"app": "x"}},
				"spec": map[string]interface{}{"containers": []interface{}{map[string]interface{}{"name": "c", "image": "i",
					"resources": map[string]interface{}{"limits": map[string]interface{}{"cpu": "500m", "memory": "1Gi"}}}}}}}
	default:
		o["spec"] = map[string]interface{}{"size": int64(pickInt(g, []int{0, 1, 2, 9, 10, 11, 100, 1000000, 12345678})), "big": pickAny(g, []interface{}{int64(9007199254740993), int64(9223372036854775807), int64(-9007199254740995), int64(123456789012), int64(9007199254740992)}),
			"color": pick(g, []string{"red", "blue", "dark blue", "ünï", "日本", "red", "blue", longText(g)}), "nested": genNested(g, 3)}
		if g.Intn(3) == 0 {
			o["extra"] = genNested(g, 2)
		}
		if g.Intn(5) == 0 { // numbers need not be integers, nor JSON numbers
			o["spec"].(map[string]interface{})["size"] = pick(g, []string{"0.25", "0.2504", "0.25040001", "-0.0001", "1e3", "1E-9", "1.5", "10.0", "100.5", "9.99", "1e300", "-2e15"})
		}
	}
	return finishObj(d, cluster, ns, name, o)
}

func finishObj(d *gvrDef, cluster, ns, name string, o map[string]interface{}) *Obj {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	x := &Obj{Def: d, Cluster: cluster, NS: ns, Name: name, Raw: o, Bytes: b, Labels: map[string]string{}}
	if l, ok := at(o, "metadata", "labels").(map[string]interface{}); ok {
		for k, v := range l {
			x.Labels[k] = v.(string)
		}
	}
	x.Index = map[string]string{}
	for _, i := range d.Index {
		if i.Eval != nil {
			x.Index[i.Key] = i.Eval(o)
		}
	}
	x.Index["cluster"] = cluster
	x.Index["namespace"] = ns
	x.Index["name"] = name
	x.Index["is_deleted"] = strconv.FormatBool(at(o, "metadata", "deletionTimestamp") != nil)
	return x
}

// longText is what descriptions and configuration kept in objects look like: long, with line breaks and markup.
func longText(g *rand.Rand) string {
	n := []int{100, 300, 600, 1100, 5000}[g.Intn(5)]
	if g.Intn(30) == 0 {
		n = 90000
	}
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(pick(g, []string{"lorem", " ", "ipsum", "日本", "\n", "\t", "<a href=x>&amp;", "é", "{{", "$", "%s", "\\"}))
	}
	return "x" + b.String() + "y"
}

func pickInt(g *rand.Rand, xs []int) int                 { return xs[g.Intn(len(xs))] }
func pickAny(g *rand.Rand, xs []interface{}) interface{} { return xs[g.Intn(len(xs))] }

func genNested(g *rand.Rand, depth int) interface{} {
	switch n := g.Intn(9); {
	case n == 0:
		return pickAny(g, []interface{}{int64(0), int64(-1), int64(9007199254740993), int64(9223372036854775807), int64(-9223372036854775808), int64(1 << 60), int64(100000000)})
	case n == 1:
		return pickAny(g, []interface{}{json.Number("1.5"), json.Number("-0.25"), json.Number("1e-7"), json.Number("3.141592653589793")})
	case n == 2:
		return g.Intn(2) == 0
	case n <= 4 || depth == 0:
		return pickAny(g, []interface{}{"", "plain", "1", "true", "null", `q"uo\te`, "<>&'", "日本語", "\u2028", "tab\t", "12345678901234567890", nil})
	case n <= 6:
		l := []interface{}{}
		for i := g.Intn(4); i > 0; i-- {
			l = append(l, genNested(g, depth-1))
		}
		return l
	default:
		m := map[string]interface{}{}
		for i := g.Intn(4); i > 0; i-- {
			m[pick(g, []string{"a", "b", "kind", "metadata", "apiVersion", "x.y/z", "Data", "items", "1", "ü"})] = genNested(g, depth-1)
		}
		return m
	}
}

// ---- populating a world

// genPopulation decides which objects exist; per cluster and type up to n objects, with names colliding across
// clusters and namespaces on purpose.
func (w *World) genPopulation(g *rand.Rand, n int) {
	for _, d := range w.Defs {
		for _, c := range w.Clusters {
			k := g.Intn(n + 1)
			if g.Intn(10) == 0 {
				k = 0
			}
			for i := 0; i < k; i++ {
				o := genObj(g, d, c, pick(g, nsNames), pick(g, objNames))
				w.Put(o)
			}
		}
	}
}

func (w *World) objs(d *gvrDef) []*Obj {
	var r []*Obj
	for _, o := range w.Objs[d] {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id() < r[j].id() })
	return r
}

// churn applies n random modifications, deletions and additions.
func (w *World) churn(g *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		d := w.Defs[g.Intn(len(w.Defs))]
		os := w.objs(d)
		switch {
		case len(os) > 0 && g.Intn(3) == 0:
			w.Del(os[g.Intn(len(os))])
		case len(os) > 0 && g.Intn(2) == 0:
			o := os[g.Intn(len(os))]
			w.Put(genObj(g, d, o.Cluster, o.NS, o.Name))
		default:
			w.Put(genObj(g, d, pick(g, w.Clusters), pick(g, nsNames), pick(g, objNames)))
		}
	}
}
