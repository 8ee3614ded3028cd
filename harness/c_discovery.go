package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/discovery"
	"k8s.io/client-go/dynamic"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/restmapper"

	"github.com/DaoCloud/ckube/pkg/client/fake"
)

func init() {
	register("C33", "exploration", c33)
}

func c33(c *Ctx) {
	c.Rule("a case is one configuration: everything a standard discovery client and a REST mapper find in the fake server is compared with it; distinct by numbers of groups, versions and types; all are non-trivial")
	c.Assume("types are in group \"\" version v1 or in named groups; kinds are unique in a group and version; whether a type is namespaced is not configured")
	quietLogs()
	for i := 0; i < c.N(25, 250) && !c.Stop(); i++ {
		c33config(c, c.Rand(int64(i)), i)
	}
	c.Need("types_mapped", 60)
	c.Need("groups_with_versions", 5)
}

func c33config(c *Ctx, g *rand.Rand, i int) {
	type gvrk struct{ G, V, R, K string }
	var types []gvrk
	seen := map[string]bool{}
	add := func(t gvrk) {
		if k := t.G + "/" + t.V + "/" + t.K; !seen[k] {
			seen[k] = true
			types = append(types, t)
		}
	}
	names := [][2]string{{"pods", "Pod"}, {"widgets", "Widget"}, {"policies", "Policy"}, {"ingresses", "Ingress"}, {"endpoints", "Endpoints"}, {"listers", "Lister"}, {"playlists", "PlayList"}, {"gateways", "Gateway"}}
	groups := []string{"", "apps", "example.com", "x.example.com", "networking.k8s.io"}
	for n := 1 + g.Intn(9); n > 0; n-- {
		nm := names[g.Intn(len(names))]
		t := gvrk{pick(g, groups), pick(g, []string{"v1", "v1", "v1beta1", "v2alpha1"}), nm[0], nm[1]}
		if t.G == "" {
			t.V = "v1"
		}
		add(t)
	}
	var ps []interface{}
	for _, t := range types {
		ps = append(ps, map[string]interface{}{"group": t.G, "version": t.V, "resource": t.R, "list_kind": t.K + "List", "index": map[string]string{"name": "{.metadata.name}", "namespace": "{.metadata.namespace}"}})
	}
	conf, _ := json.Marshal(map[string]interface{}{"proxies": ps, "default_cluster": "c1"})
	fs, err := fake.NewFakeCKubeServer(freeAddr(), string(conf))
	if err != nil {
		c.Violate("start", err.Error(), nil)
		return
	}
	defer fs.Stop()
	bad := func(key, f string, a ...interface{}) {
		c.Violate(key, fmt.Sprintf(f, a...), string(conf))
	}
	want := map[string]map[string]bool{}
	versions := map[string]map[string]bool{}
	for _, t := range types {
		gv := schema.GroupVersion{Group: t.G, Version: t.V}.String()
		if want[gv] == nil {
			want[gv] = map[string]bool{}
		}
		want[gv][t.R+" "+t.K] = true
		if versions[t.G] == nil {
			versions[t.G] = map[string]bool{}
		}
		versions[t.G][t.V] = true
	}
	dc := discovery.NewDiscoveryClientForConfigOrDie(rest.CopyConfig(fs.GetKubeConfig()))
	gs, rs, err := dc.ServerGroupsAndResources()
	if err != nil {
		bad("error", "discovery fails: %v", err)
	}
	found := map[string]bool{}
	for _, gr := range gs {
		if found[gr.Name] {
			bad("groups", "group %q is told twice", gr.Name)
		}
		found[gr.Name] = true
		var vs, ws []string
		for _, v := range gr.Versions {
			vs = append(vs, v.Version)
			if gv := (schema.GroupVersion{Group: gr.Name, Version: v.Version}).String(); v.GroupVersion != gv {
				bad("groups", "version %q of group %q is called %q", v.Version, gr.Name, v.GroupVersion)
			}
		}
		for v := range versions[gr.Name] {
			ws = append(ws, v)
		}
		if gr.Name == "" && ws == nil {
			continue // served by every api server
		}
		sort.Strings(vs)
		sort.Strings(ws)
		if strings.Join(vs, " ") != strings.Join(ws, " ") {
			bad("groups", "group %q has the versions %v instead of %v", gr.Name, vs, ws)
		}
		if gr.Name != "" && !versions[gr.Name][gr.PreferredVersion.Version] {
			bad("groups", "the preferred version of group %q is %+v", gr.Name, gr.PreferredVersion)
		}
		if len(ws) > 1 {
			c.Count("groups_with_versions", 1)
		}
	}
	for gr := range versions {
		if !found[gr] {
			bad("groups", "group %q is not told", gr)
		}
	}
	told := map[string]bool{}
	for _, l := range rs {
		for _, r := range l.APIResources {
			k := r.Name + " " + r.Kind
			told[l.GroupVersion+" "+k] = true
			if !want[l.GroupVersion][k] {
				bad("resources", "%s is told to be in %s", k, l.GroupVersion)
			}
		}
	}
	for gv, m := range want {
		for k := range m {
			if !told[gv+" "+k] {
				bad("resources", "%s is not told to be in %s", k, gv)
			}
		}
	}
	grs, err := restmapper.GetAPIGroupResources(dc)
	if err != nil {
		bad("mapper", "%v", err)
		return
	}
	mapper := restmapper.NewDiscoveryRESTMapper(grs)
	dyn := dynamic.NewForConfigOrDie(rest.CopyConfig(fs.GetKubeConfig()))
	for _, t := range types {
		m, err := mapper.RESTMapping(schema.GroupKind{Group: t.G, Kind: t.K}, t.V)
		if err != nil {
			bad("mapper", "kind %+v: %v", t, err)
			continue
		}
		if m.Resource != (schema.GroupVersionResource{Group: t.G, Version: t.V, Resource: t.R}) {
			bad("mapper", "kind %+v is mapped to %v", t, m.Resource)
			continue
		}
		l, err := dyn.Resource(m.Resource).Namespace("a").List(context.Background(), metav1.ListOptions{})
		if err != nil || l.GetKind() != t.K+"List" {
			bad("mapper", "the list of %+v: %v %v", t, l, err)
		}
		if ks, err := mapper.KindFor(schema.GroupVersionResource{Group: t.G, Version: t.V, Resource: t.R}); err != nil || ks.Kind != t.K {
			bad("mapper", "the resource of %+v has kind %v (%v)", t, ks, err)
		}
		c.Count("types_mapped", 1)
	}
	if v, err := dc.ServerVersion(); err != nil || v.Major == "" {
		bad("version", "the version: %v %v", v, err)
	}
	c.Eval(fmt.Sprintf("%d types in %d groups, %d versions, core %v", len(types), len(versions), len(want), versions[""] != nil))
	c.Sample(string(conf))
}
