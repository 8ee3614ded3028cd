package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strings"
)

func init() {
	register("C25", "exploration", c25)
}

var c25deps = []string{"app", "app-1", "app-1-2", "a", "ap", "web-app", "app-7d9f8", "app.v1", "app1", "1", "very-long-deployment-name-with-many-dashes", "no-pods"}

// c25pod is a pod with labels and owners as the deployment controller and others make them.
func c25pod(g *rand.Rand, cl, ns string, i int) (*Obj, string) {
	dep := c25deps[g.Intn(len(c25deps)-1)]
	rs := dep + "-" + pick(g, []string{"7d9f8", "5c", "x", "6b8d4c9f7"})
	labels := map[string]string{}
	for j := g.Intn(5); j > 0; j-- {
		labels[pick(g, labelKeys)] = pick(g, labelVs)
	}
	ctl := func(kind, name string) map[string]interface{} {
		o := map[string]interface{}{"apiVersion": pick(g, []string{"apps/v1", "apps/v1", "apps/v1", "extensions/v1beta1", "apps/v1beta2"}), "kind": kind, "name": name, "uid": "u-" + name, "controller": true}
		switch g.Intn(6) {
		case 0:
			delete(o, "controller")
		case 1:
			o["controller"] = false
		case 2:
			o["blockOwnerDeletion"] = true
		}
		return o
	}
	other := map[string]interface{}{"apiVersion": "example.io/v1", "kind": "Widget", "name": dep + "-x", "uid": "w"}
	var owners []interface{}
	belongs := ""
	switch g.Intn(12) {
	case 0: // bare pods named like those of a deployment
	case 1:
		owners = []interface{}{ctl(pick(g, []string{"StatefulSet", "DaemonSet", "Job", "ReplicationController", "Node", "replicaset", "Deployment"}), pick(g, []string{rs, dep}))}
	case 2:
		owners = []interface{}{ctl("ReplicaSet", "standalone")}
	case 3:
		owners, belongs = []interface{}{ctl("ReplicaSet", rs), other}, dep
	case 4:
		owners, belongs = []interface{}{other, ctl("ReplicaSet", rs)}, dep
	default:
		owners, belongs = []interface{}{ctl("ReplicaSet", rs)}, dep
		labels["pod-template-hash"] = rs[len(dep)+1:]
	}
	name := fmt.Sprintf("%s-%d", rs, i)
	if g.Intn(10) == 0 {
		name = pick(g, objNames)
	}
	md := map[string]interface{}{"name": name, "namespace": ns, "uid": fmt.Sprintf("u%d", i), "generateName": rs + "-"}
	if len(labels) > 0 {
		md["labels"] = strMap(labels)
	}
	if owners != nil {
		md["ownerReferences"] = owners
	}
	if g.Intn(8) == 0 {
		md["deletionTimestamp"] = "2024-01-02T03:04:05Z"
	}
	o := map[string]interface{}{"apiVersion": "v1", "kind": "Pod", "metadata": md, "status": map[string]interface{}{"phase": pick(g, []string{"Running", "Pending", "Failed", "Succeeded"})}}
	return finishObj(defPods, cl, ns, name, o), belongs
}

func c25svc(g *rand.Rand, cl, ns, name string, i int) *Obj {
	spec := map[string]interface{}{"type": "ClusterIP", "ports": []interface{}{map[string]interface{}{"port": int64(1 + i%60000)}}}
	sel := map[string]string{}
	switch g.Intn(8) {
	case 0: // none
	case 1:
		spec["selector"] = map[string]interface{}{}
	case 2:
		spec["type"], spec["externalName"] = "ExternalName", "x.example.com"
	default:
		for j := 1 + g.Intn(3); j > 0; j-- {
			sel[pick(g, append([]string{"absent"}, labelKeys...))] = pick(g, labelVs)
		}
		if g.Intn(6) == 0 {
			sel["pod-template-hash"] = "7d9f8"
		}
		spec["selector"] = strMap(sel)
		switch g.Intn(8) {
		case 0:
			spec["clusterIP"] = "None"
		case 1:
			spec["type"] = pick(g, []string{"NodePort", "LoadBalancer"})
		case 2:
			spec["type"], spec["externalName"] = "ExternalName", "y.example.com"
		case 3:
			delete(spec, "ports")
		case 4:
			spec["publishNotReadyAddresses"] = true
		}
	}
	o := map[string]interface{}{"apiVersion": "v1", "kind": "Service", "metadata": map[string]interface{}{"name": name, "namespace": ns, "uid": fmt.Sprintf("s%d", i), "labels": strMap(sel)}, "spec": spec}
	return finishObj(defSvcs, cl, ns, name, o)
}

func c25(c *Ctx) {
	c.Rule("a case is one request for the services of a deployment; non-trivial when the deployment has pods or the namespace has services whose selector some other pod meets; distinct by population and deployment")
	c.Assume("a pod belongs to deployment D when an owner of kind ReplicaSet is named D-<suffix without dash>, which is how the deployment controller names them")
	sets := [][]string{{"c1", "c10"}, {"c1", "c2", "C 3"}, {"only"}, {"a/b", "a"}, {"default", "ns-a"}}
	rounds := c.N(60, 1500)
	seq := 0
	for r := 0; r < rounds && !c.Stop(); r++ {
		g := c.Rand(int64(10 + r))
		cs := sets[r%len(sets)]
		pods, svcs := *defPods, *defSvcs
		if r%3 == 2 {
			pods.Index, svcs.Index = nil, nil
		}
		defs := []*gvrDef{&pods, &svcs, defNS, defWidgets}
		w := NewWorld(defs, cs, cs[g.Intn(len(cs))], "")
		w.StartWatcher()
		if !w.SyncStreams() {
			c.Count("sync_incomplete", 1)
		}
		member := map[string]string{}
		put := func(o *Obj, d *gvrDef) { o.Def = d; w.Put(o) }
		change := func(n int) {
			for i := 0; i < n; i++ {
				seq++
				cl, ns := pick(g, cs), pick(g, nsNames[:4])
				if g.Intn(3) > 0 {
					p, dep := c25pod(g, cl, ns, seq)
					member[p.id()] = dep
					put(p, &pods)
				} else {
					put(c25svc(g, cl, ns, pick(g, append(objNames, c25deps...)), seq), &svcs)
				}
			}
		}
		sizes := []int{0, 4, 30, 120, 600}
		change(sizes[r%len(sizes)])
		if r%15 == 5 { // very many in one namespace
			change(60)
			for i := 0; i < 1300; i++ {
				seq++
				p, dep := c25pod(g, cs[0], nsNames[0], seq)
				member[p.id()] = dep
				put(p, &pods)
			}
		}
		for step := 0; step < 3 && !c.Stop(); step++ {
			if !w.Sync() {
				c.Count("sync_incomplete", 1)
			}
			for _, cl := range cs {
				for _, ns := range append([]string{"missing"}, nsNames[:4]...) {
					for _, dep := range append([]string{"app-7d9f8-x", "App"}, c25deps...) {
						ask := cl
						if g.Intn(30) == 0 {
							ask = "nosuch"
						}
						c25one(c, w, &pods, &svcs, member, ask, ns, dep, fmt.Sprintf("%d/%d", r, step))
					}
				}
			}
			// changes, removals, and pods or services which move to other labels
			for i := 0; i < 10; i++ {
				for _, d := range []*gvrDef{&pods, &svcs} {
					os := w.objs(d)
					if len(os) == 0 {
						continue
					}
					o := os[g.Intn(len(os))]
					seq++
					switch {
					case g.Intn(2) == 0:
						w.Del(o)
						if d == &pods {
							delete(member, o.id())
						}
					case d == &svcs:
						put(c25svc(g, o.Cluster, o.NS, o.Name, seq), d)
					default:
						p, dep := c25pod(g, o.Cluster, o.NS, seq)
						at(p.Raw, "metadata").(map[string]interface{})["name"] = o.Name
						p = finishObj(defPods, o.Cluster, o.NS, o.Name, p.Raw)
						member[p.id()] = dep
						put(p, d)
					}
				}
			}
			change(5)
		}
		w.Close()
	}
	c.Need("with_services", 300)
	c.Need("without_pods", 100)
}

func c25dump(w *World, d *gvrDef, cl, ns string, member map[string]string) []string {
	var r []string
	for _, o := range w.objs(d) {
		if o.Cluster == cl && o.NS == ns {
			r = append(r, fmt.Sprintf("%s labels %v selector %v deployment %q", o.Name, o.Labels, at(o.Raw, "spec", "selector"), member[o.id()]))
		}
	}
	return r
}

func c25one(c *Ctx, w *World, pods, svcs *gvrDef, member map[string]string, cl, ns, dep, pop string) {
	want := map[string]*Obj{}
	n, near := 0, false
	var here []*Obj
	for _, s := range w.Objs[svcs] {
		if s.Cluster == cl && s.NS == ns {
			here = append(here, s)
		}
	}
	for _, p := range w.Objs[pods] {
		if p.NS != ns && p.Cluster != cl {
			continue
		}
		mine := p.Cluster == cl && p.NS == ns && member[p.id()] == dep
		if mine {
			n++
		}
		for _, s := range here {
			sel, _ := at(s.Raw, "spec", "selector").(map[string]interface{})
			if len(sel) == 0 {
				continue
			}
			ok := true
			for k, v := range sel {
				if x, has := p.Labels[k]; !has || x != v {
					ok = false
				}
			}
			if ok && mine {
				want[s.Name] = s
			} else if ok {
				near = true
			}
		}
	}
	target := "/custom/v1/clusters/" + url.PathEscape(cl) + "/namespaces/" + ns + "/deployments/" + dep + "/services"
	if cl == w.Default && len(dep)%2 == 0 || strings.Contains(cl, "/") {
		if cl != w.Default {
			return // not addressable by path
		}
		target = "/custom/v1/namespaces/" + ns + "/deployments/" + dep + "/services"
	}
	r := w.get(target)
	sig := ""
	if n > 0 || near {
		sig = pop + " " + cl + " " + ns + " " + dep
	}
	c.Eval(sig)
	if n == 0 {
		c.Count("without_pods", 1)
	}
	if len(want) > 0 {
		c.Count("with_services", 1)
		c.Sample(map[string]interface{}{"request": target, "pods": n, "services": len(want)})
	}
	bad := func(what string) {
		c.Violate("services/"+cl+"/"+ns+"/"+dep, "GET "+target+": "+what, map[string]interface{}{"answer": trunc(r.Body), "status": r.Status, "pods": c25dump(w, pods, cl, ns, member), "services": c25dump(w, svcs, cl, ns, nil)})
	}
	if r.Hang || r.Aborted != "" || r.Status != 200 {
		bad(fmt.Sprintf("status %d %s", r.Status, r.Aborted))
		return
	}
	var got []map[string]interface{}
	dec := json.NewDecoder(strings.NewReader(string(r.Body)))
	dec.UseNumber()
	if err := dec.Decode(&got); err != nil || got == nil {
		bad(fmt.Sprintf("not a list of services: %v", err))
		return
	}
	seen := map[string]bool{}
	for _, s := range got {
		name := text(at(s, "metadata", "name"))
		o := want[name]
		switch {
		case seen[name]:
			bad("service " + name + " twice")
		case o == nil:
			bad("service " + name + " does not belong there")
		case text(at(s, "metadata", "uid")) != text(at(o.Raw, "metadata", "uid")), text(at(s, "metadata", "namespace")) != ns, text(at(s, "metadata", "annotations", annoCluster)) != cl:
			bad("service " + name + " is another one of that name")
		case fmt.Sprint(at(s, "spec", "selector")) != fmt.Sprint(at(o.Raw, "spec", "selector")):
			bad("service " + name + " has another selector")
		}
		seen[name] = true
	}
	var missing []string
	for k := range want {
		if !seen[k] {
			missing = append(missing, k)
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		bad("missing services " + strings.Join(missing, ", "))
	}
}
