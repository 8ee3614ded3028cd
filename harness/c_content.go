package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/util/intstr"
	"k8s.io/client-go/kubernetes/scheme"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C13", "exploration", c13)
}

// mapKeys has keys tools give to annotations and labels among others.
var mapKeys = []string{"app", "cpu", "example.io/x", "k.y_z", "app", "cpu", "kubectl.kubernetes.io/last-applied-configuration", "deployment.kubernetes.io/revision", "pod-template-hash",
	"control-plane.alpha.kubernetes.io/leader", "kubernetes.io/metadata.name", "ckube.daocloud.io/other", "helm.sh/chart"}

// fill gives every field of a Kubernetes type a random canonical value.
func fill(g *rand.Rand, v reflect.Value, depth int, p float64) {
	if !v.CanSet() {
		return
	}
	switch v.Type() {
	case reflect.TypeOf(metav1.TypeMeta{}):
		return
	case reflect.TypeOf(metav1.Time{}):
		v.Set(reflect.ValueOf(metav1.NewTime(time.Unix(1600000000+int64(g.Intn(1e8)), 0).UTC())))
		return
	case reflect.TypeOf(metav1.MicroTime{}):
		v.Set(reflect.ValueOf(metav1.NewMicroTime(time.Unix(1600000000+int64(g.Intn(1e8)), int64(g.Intn(1e6))*1000).UTC())))
		return
	case reflect.TypeOf(resource.Quantity{}):
		q := resource.MustParse([]string{"1", "500m", "1Gi", "100Mi", "0", "1500m", "3k", "1u", "9223372036854775807", "12e6", "0.5"}[g.Intn(11)])
		_ = q.String()
		v.Set(reflect.ValueOf(q))
		return
	case reflect.TypeOf(intstr.IntOrString{}):
		if g.Intn(2) == 0 {
			v.Set(reflect.ValueOf(intstr.FromInt(g.Intn(65536))))
		} else {
			v.Set(reflect.ValueOf(intstr.FromString([]string{"http", "25%", "1"}[g.Intn(3)])))
		}
		return
	case reflect.TypeOf(metav1.FieldsV1{}):
		v.Set(reflect.ValueOf(metav1.FieldsV1{Raw: []byte(`{"f:metadata":{"f:labels":{".":{},"f:app":{}}}}`)}))
		return
	case reflect.TypeOf(runtime.RawExtension{}):
		v.Set(reflect.ValueOf(runtime.RawExtension{Raw: []byte(`{"a":{"n":9007199254740993},"kind":"X"}`)}))
		return
	}
	if g.Float64() > p || depth <= 0 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString([]string{"x", "web-1", "ünï", "日本", `q"uote`, "<b>&", "line\nline", "1", "true", "10.0.0.1", " sp ", "{{x}}", "a;b=c", "{\"a\":1}\n", "null", "<none>", strings.Repeat("long ", 2000)}[g.Intn(17)])
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64:
		v.SetInt([]int64{1, 30, 9007199254740993, 9223372036854775807, -5, 1000000, 123456789012}[g.Intn(7)])
	case reflect.Int32:
		v.SetInt([]int64{1, 8080, 2147483647, -7, 1000000}[g.Intn(5)])
	case reflect.Int16, reflect.Int8:
		v.SetInt(int64(g.Intn(100)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(g.Intn(200)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat([]float64{0.5, 1.25, -3}[g.Intn(3)])
	case reflect.Ptr:
		n := reflect.New(v.Type().Elem())
		fill(g, n.Elem(), depth-1, p)
		v.Set(n)
	case reflect.Slice:
		n := 1 + g.Intn(2)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, g.Intn(40))
			g.Read(b)
			v.SetBytes(b)
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(g, s.Index(i), depth-1, p)
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for i := 0; i < 1+g.Intn(2); i++ {
			k := reflect.New(v.Type().Key()).Elem()
			k.SetString(pick(g, mapKeys))
			e := reflect.New(v.Type().Elem()).Elem()
			fill(g, e, depth-1, p)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(g, v.Field(i), depth-1, p)
		}
	}
}

// contentDiff says how the object served differs from the one sent: everything sent must be there (but empty values
// of the types whose fields the proxy knows), extra parts must be empty values or the two annotations.
func contentDiff(d *gvrDef, sent, got interface{}) string {
	if d.Custom {
		s, _ := sent.(map[string]interface{})
		g, _ := got.(map[string]interface{})
		for k := range s {
			if k == "metadata" {
				continue
			}
			if x, ok := g[k]; !ok {
				return "." + k + " is missing"
			} else if diff := exactDiff("."+k, s[k], x); diff != "" {
				return diff
			}
		}
	}
	return treeDiff("", sent, got)
}

// exactDiff compares parts nobody but their owner knows the meaning of: null, empty and absent are different.
func exactDiff(path string, sent, got interface{}) string {
	switch s := sent.(type) {
	case map[string]interface{}:
		m, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: sent an object, got %T", path, got)
		}
		for k := range s {
			x, ok := m[k]
			if !ok {
				return fmt.Sprintf("%s.%s is missing", path, k)
			}
			if d := exactDiff(path+"."+k, s[k], x); d != "" {
				return d
			}
		}
		for k := range m {
			if _, ok := s[k]; !ok {
				return fmt.Sprintf("%s.%s was not sent", path, k)
			}
		}
		return ""
	case []interface{}:
		l, ok := got.([]interface{})
		if !ok || len(l) != len(s) {
			return fmt.Sprintf("%s: sent %d elements, got %v", path, len(s), got)
		}
		for i := range s {
			if d := exactDiff(fmt.Sprintf("%s[%d]", path, i), s[i], l[i]); d != "" {
				return d
			}
		}
		return ""
	}
	return treeDiff(path, sent, got)
}

func treeDiff(path string, sent, got interface{}) string {
	switch s := sent.(type) {
	case map[string]interface{}:
		m, ok := got.(map[string]interface{})
		if !ok {
			if len(s) == 0 && got == nil {
				return ""
			}
			return fmt.Sprintf("%s: sent an object, got %T", path, got)
		}
		var ks []string
		for k := range s {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x, ok := m[k]
			if !ok {
				if empty(s[k]) {
					continue
				}
				return fmt.Sprintf("%s.%s is missing", path, k)
			}
			if d := treeDiff(path+"."+k, s[k], x); d != "" {
				return d
			}
		}
		for k, v := range m {
			if _, ok := s[k]; ok {
				continue
			}
			if path == ".metadata.annotations" && (k == annoCluster || k == annoIndex) {
				continue
			}
			if path == ".metadata" && k == "annotations" {
				if d := treeDiff(".metadata.annotations", map[string]interface{}{}, v); d != "" {
					return d
				}
				continue
			}
			if !empty(v) {
				return fmt.Sprintf("%s.%s was not sent", path, k)
			}
		}
		return ""
	case []interface{}:
		l, ok := got.([]interface{})
		if !ok {
			if len(s) == 0 && got == nil {
				return ""
			}
			return fmt.Sprintf("%s: sent an array, got %T", path, got)
		}
		if len(l) != len(s) {
			return fmt.Sprintf("%s: sent %d elements, got %d", path, len(s), len(l))
		}
		for i := range s {
			if d := treeDiff(fmt.Sprintf("%s[%d]", path, i), s[i], l[i]); d != "" {
				return d
			}
		}
		return ""
	case json.Number:
		n, ok := got.(json.Number)
		if !ok || !sameNumber(s.String(), n.String()) {
			return fmt.Sprintf("%s: sent %v, got %v", path, sent, got)
		}
		return ""
	default:
		if sent != got {
			return fmt.Sprintf("%s: sent %#v, got %#v", path, sent, got)
		}
		return ""
	}
}

func sameNumber(a, b string) bool {
	if a == b {
		return true
	}
	x, ok := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	if ok && ok2 && x.Cmp(y) == 0 {
		return true
	}
	if !strings.ContainsAny(a, ".eE") {
		return false
	}
	fa, e1 := strconv.ParseFloat(a, 64)
	fb, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && fa == fb
}

func empty(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == ""
	case bool:
		return !x
	case json.Number:
		return x == "0"
	case map[string]interface{}:
		for _, e := range x {
			if !empty(e) {
				return false
			}
		}
		return true
	case []interface{}:
		return len(x) == 0
	}
	return false
}

func decodeNum(b []byte) interface{} {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return nil
	}
	return v
}

// contentDefs are the built-in types of which every field is exercised.
var contentDefs = []*gvrDef{
	{V: "v1", R: "pods", Kind: "Pod", Namespaced: true},
	{V: "v1", R: "services", Kind: "Service", Namespaced: true},
	{V: "v1", R: "configmaps", Kind: "ConfigMap", Namespaced: true},
	{V: "v1", R: "secrets", Kind: "Secret", Namespaced: true},
	{V: "v1", R: "nodes", Kind: "Node"},
	{V: "v1", R: "namespaces", Kind: "Namespace"},
	{V: "v1", R: "events", Kind: "Event", Namespaced: true},
	{V: "v1", R: "endpoints", Kind: "Endpoints", Namespaced: true},
	{V: "v1", R: "persistentvolumes", Kind: "PersistentVolume"},
	{V: "v1", R: "persistentvolumeclaims", Kind: "PersistentVolumeClaim", Namespaced: true},
	{V: "v1", R: "serviceaccounts", Kind: "ServiceAccount", Namespaced: true},
	{G: "apps", V: "v1", R: "deployments", Kind: "Deployment", Namespaced: true},
	{G: "apps", V: "v1", R: "statefulsets", Kind: "StatefulSet", Namespaced: true},
	{G: "apps", V: "v1", R: "daemonsets", Kind: "DaemonSet", Namespaced: true},
	{G: "apps", V: "v1", R: "replicasets", Kind: "ReplicaSet", Namespaced: true},
	{G: "batch", V: "v1", R: "jobs", Kind: "Job", Namespaced: true},
	{G: "networking.k8s.io", V: "v1", R: "ingresses", Kind: "Ingress", Namespaced: true},
	{G: "networking.k8s.io", V: "v1", R: "networkpolicies", Kind: "NetworkPolicy", Namespaced: true},
	{G: "rbac.authorization.k8s.io", V: "v1", R: "clusterroles", Kind: "ClusterRole"},
	{G: "rbac.authorization.k8s.io", V: "v1", R: "rolebindings", Kind: "RoleBinding", Namespaced: true},
	{G: "storage.k8s.io", V: "v1", R: "storageclasses", Kind: "StorageClass"},
	{G: "autoscaling", V: "v1", R: "horizontalpodautoscalers", Kind: "HorizontalPodAutoscaler", Namespaced: true},
	{G: "policy", V: "v1beta1", R: "poddisruptionbudgets", Kind: "PodDisruptionBudget", Namespaced: true},
	{G: "example.io", V: "v1", R: "widgets", Kind: "Widget", Namespaced: true, Custom: true},
	{G: "example.io", V: "v1", R: "playlists", Kind: "PlayList", Custom: true},
	{G: "apps", V: "v9", R: "deployments", Kind: "Deployment", Namespaced: true, Custom: true},
}

// genContent makes an object of the definition with as many fields as p says.
func genContent(g *rand.Rand, d *gvrDef, cluster, ns, name string, p float64) *Obj {
	if !d.Namespaced {
		ns = ""
	}
	var raw map[string]interface{}
	if d.Custom {
		raw = map[string]interface{}{}
		for i := g.Intn(6); i > 0; i-- {
			raw[pick(g, []string{"spec", "status", "Data", "data", "items", "extra", "metadata2", "x.y/z", "1", "type", "Metadata"})] = genNested(g, 4)
		}
		if g.Intn(12) == 0 {
			raw = map[string]interface{}{"status": genNested(g, 2)}
			raw[pick(g, []string{"spec", "data", "a"})] = map[string]interface{}{}
		}
		om := metav1.ObjectMeta{}
		fill(g, reflect.ValueOf(&om).Elem(), 5, p)
		b, _ := json.Marshal(om)
		raw["metadata"] = decodeNum(b)
		b, err := json.Marshal(raw)
		if err != nil {
			panic(err)
		}
		raw = decodeNum(b).(map[string]interface{})
	} else {
		o, err := scheme.Scheme.New(schema.GroupVersionKind{Group: d.G, Version: d.V, Kind: d.Kind})
		if err != nil {
			panic(err)
		}
		fill(g, reflect.ValueOf(o).Elem(), 9, p)
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		raw = decodeNum(b).(map[string]interface{})
	}
	raw["kind"], raw["apiVersion"] = d.Kind, d.api()
	md, _ := raw["metadata"].(map[string]interface{})
	if md == nil {
		md = map[string]interface{}{}
		raw["metadata"] = md
	}
	delete(md, "namespace")
	md["name"] = name
	if ns != "" {
		md["namespace"] = ns
	}
	return finishObj(d, cluster, ns, name, raw)
}

func c13(c *Ctx) {
	c.Rule("a case is one object sent on an upstream watch and read back through a list and (named objects) a single GET; its JSON trees are compared; distinct by object content; all are non-trivial")
	c.Assume("what an API server sends for a built-in type is what the bundled Kubernetes types write for an object with random values in all fields; quantities and times are canonical; a field that is missing is allowed only when its sent value is empty; custom objects do not have top-level fields that differ from kind or apiVersion in case only (the decoder of client-go confuses them)")
	g := c.Rand(1)
	defs := make([]*gvrDef, len(contentDefs))
	for i, d := range contentDefs {
		x := *d
		x.Index = append([]idx{}, baseIndex...)
		defs[i] = &x
	}
	rounds, per := c.N(3, 12), c.N(12, 60)
	for r := 0; r < rounds && !c.Stop(); r++ {
		w := NewWorld(defs, []string{"c1", "c2"}, "c1", "")
		for _, d := range defs {
			for _, cl := range w.Clusters {
				for i := 0; i < per; i++ {
					w.Put(genContent(g, d, cl, pick(g, nsNames), fmt.Sprintf("o%d", i), []float64{0.3, 0.7, 0.9, 1}[g.Intn(4)]))
				}
			}
		}
		w.StartWatcher()
		w.Sync()
		w.SyncStreams()
		// and modifications
		for _, d := range defs {
			os := w.objs(d)
			for i := 0; i < per/3; i++ {
				o := os[g.Intn(len(os))]
				w.Put(genContent(g, d, o.Cluster, o.NS, o.Name, 0.9))
			}
		}
		w.Sync()
		for _, d := range defs {
			target := d.root() + "?labelSelector=" + url.QueryEscape(allClusters(w))
			l, err := parseList(w.get(target))
			if err != nil {
				c.Violate("list", "no list of "+d.R+": "+err.Error(), nil)
				continue
			}
			got := map[string]listItem{}
			for _, it := range l.Items {
				got[it.ID] = it
			}
			for i, o := range w.objs(d) {
				sent := decodeNum(o.Bytes)
				wit := map[string]interface{}{"sent": json.RawMessage(o.Bytes), "cluster": o.Cluster, "resource": d.R}
				it, ok := got[o.id()]
				if !ok {
					c.Violate("missing/"+d.R, "the object is not listed: "+o.id(), wit)
					break
				}
				if diff := contentDiff(d, sent, it.Raw); diff != "" {
					wit["served"] = it.Raw
					c.Violate("list/"+d.R, "the listed object differs: "+diff, wit)
					break
				}
				if it.Anno[annoCluster] != o.Cluster {
					c.Violate("cluster/"+d.R, "cluster annotation is "+it.Anno[annoCluster], wit)
					break
				}
				c.Count("objects_compared", 1)
				c.Count("bytes_compared", int64(len(o.Bytes)))
				c.Eval(string(o.Bytes))
				if i < 25 {
					resp := w.get(d.path(o.NS) + "/" + o.Name + "?resourceVersion=" + url.QueryEscape("dsm-cluster-"+o.Cluster))
					if diff := contentDiff(d, sent, decodeNum(resp.Body)); resp.Status != 200 || diff != "" {
						wit["served"] = string(resp.Body)
						c.Violate("get/"+d.R, fmt.Sprintf("the read object differs (status %d): %s", resp.Status, diff), wit)
						break
					}
					c.Count("single_reads_compared", 1)
				}
			}
		}
		w.Close()
	}
	c.Need("objects_compared", 1000)
}

// allClusters is a label selector that carries a query selecting every (selectable) cluster.
func allClusters(w *World) string {
	return clusterQuery(w.Clusters...)
}

func clusterQuery(cs ...string) string {
	p := page.Paginate{}
	if err := p.Clusters(append([]string{}, cs...)); err != nil {
		panic(refused(err.Error()))
	}
	o, err := page.QueryListOptions(metav1.ListOptions{}, p)
	if err != nil {
		panic(refused(err.Error()))
	}
	return o.LabelSelector
}
