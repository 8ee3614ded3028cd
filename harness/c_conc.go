package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

func init() {
	register("C11", "exploration", c11)
}

// delayObj is an object whose serialisation (which the store does while it indexes) takes a while.
type delayObj struct {
	metav1.TypeMeta   `json:",inline"`
	metav1.ObjectMeta `json:"metadata"`
	Payload           string `json:"payload"`
	delay             int
}

func (d *delayObj) MarshalJSON() ([]byte, error) {
	for i := 0; i < d.delay; i++ {
		runtime.Gosched()
	}
	if d.delay > 40 {
		time.Sleep(time.Duration(d.delay) * time.Microsecond)
	}
	type plain delayObj
	return json.Marshal((*plain)(d))
}

type cOp struct {
	kind     string // write, delete, read
	s        slot
	ver      string // written or read ("" when nothing was read)
	call     int64
	ret      int64
	thread   int
	viaClean bool
}

type cList struct {
	g         int
	ns        string
	name      string // filter
	call, ret int64
	items     []slot
	vers      []string
	err       error
	total     int64
}

var registerModel = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		in := input.(*cOp)
		switch in.kind {
		case "write":
			return true, in.ver
		case "delete":
			return true, ""
		default:
			return in.ver == state.(string), state
		}
	},
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(in, out interface{}) string {
		o := in.(*cOp)
		return o.kind + " " + o.ver
	},
}

func opString(o *cOp) string {
	return fmt.Sprintf("[%d,%d] t%d %s %d/%s/%s/%s v%s", o.call, o.ret, o.thread, o.kind, o.s.g, o.s.cluster, o.s.ns, o.s.name, o.ver)
}

func c11(c *Ctx) {
	c.Rule("a case is one concurrent history on a fresh store (8 to 12 threads), checked per object against a register with Porcupine and per list against the intervals of the writes; distinct histories by the order of calls and returns; non-trivial when operations of different threads on one object overlapped")
	c.Assume("the race detector watches every run; call and return are ordered by an atomic counter read before the call and after the return")
	defs := []*gvrDef{defPods, {G: "example.io", V: "v1", R: "pods", Kind: "Pod", Namespaced: true, Index: []idx{field("rv", "metadata", "resourceVersion"), field("payload", "payload")}}}
	d0 := *defs[0]
	d0.Index = append(append([]idx{}, baseIndex...), field("rv", "metadata", "resourceVersion"), field("payload", "payload"))
	defs[0] = &d0
	rounds := c.N(160, 2500)
	for r := 0; r < rounds && !c.Stop(); r++ {
		if !c11round(c, defs, r) {
			return // operations are stuck: their goroutines would disturb what follows
		}
	}
	c11burst(c, defs)
	c.Need("operations", 10000)
	c.Need("overlapping_pairs", 500)
	c.Need("lists_judged", 500)
}

func mkDelay(s slot, ver string, delay int) *delayObj {
	return &delayObj{ObjectMeta: metav1.ObjectMeta{Name: s.name, Namespace: s.ns, ResourceVersion: ver, Labels: map[string]string{"v": ver}},
		Payload: "p" + ver, delay: delay}
}

// whole says what is wrong with the inside of an object that was read ("" when it is of one piece).
func whole(x interface{}, s slot) (string, string) {
	o, ok := x.(*delayObj)
	if !ok {
		return "", fmt.Sprintf("%T was read", x)
	}
	v := o.ResourceVersion
	ix := map[string]string{}
	_ = json.Unmarshal([]byte(o.Annotations[annoIndex]), &ix)
	switch {
	case o.Name != s.name || o.Namespace != s.ns || o.Annotations[annoCluster] != s.cluster:
		return v, fmt.Sprintf("a foreign object was read: %s/%s of %s", o.Namespace, o.Name, o.Annotations[annoCluster])
	case o.Payload != "p"+v || o.Labels["v"] != v || ix["rv"] != v || ix["payload"] != o.Payload || ix["name"] != s.name || ix["cluster"] != s.cluster:
		return v, fmt.Sprintf("a torn object was read: version %s, payload %s, label %s, index %v", v, o.Payload, o.Labels["v"], ix)
	}
	return v, ""
}

func c11round(c *Ctx, defs []*gvrDef, r int) bool {
	st := newStore(defs)
	base := rand.New(rand.NewSource(c.Seed*7919 + int64(r)))
	var uni []slot
	for g := range defs {
		for _, cl := range []string{"c1", "c2"} {
			for _, ns := range []string{"a", "b"} {
				for _, n := range []string{"x", "y"} {
					if base.Intn(3) > 0 {
						uni = append(uni, slot{g, cl, ns, n})
					}
				}
			}
		}
	}
	if len(uni) == 0 {
		uni = []slot{{0, "c1", "a", "x"}}
	}
	if r%3 == 0 && len(uni) > 3 { // contention
		uni = uni[:3]
	}
	threads := 8 + base.Intn(5)
	perThread := 12 + base.Intn(14)
	maxDelay := []int{0, 3, 60}[r%3]
	var clock, ver int64
	hist := make([][]*cOp, threads)
	lists := make([][]*cList, threads)
	torn := make(chan string, 100)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func(t int, g *rand.Rand) {
			defer wg.Done()
			<-start
			for i := 0; i < perThread; i++ {
				s := uni[g.Intn(len(uni))]
				gvr := defs[s.g].gvr()
				op := &cOp{s: s, thread: t}
				delay := 0
				if maxDelay > 0 {
					delay = g.Intn(maxDelay)
				}
				role := t % 4
				n := g.Intn(20)
				switch {
				case role == 3 || role == 2 && n < 8: // readers and listers
					if n%2 == 0 {
						op.kind = "read"
						op.call = atomic.AddInt64(&clock, 1)
						x := st.Get(gvr, s.cluster, s.ns, s.name)
						op.ret = atomic.AddInt64(&clock, 1)
						if x != nil {
							v, bad := whole(x, s)
							if bad != "" {
								select {
								case torn <- bad:
								default:
								}
							}
							op.ver = v
							_, _ = json.Marshal(x)
						}
						hist[t] = append(hist[t], op)
						continue
					}
					l := &cList{g: s.g}
					q := store.Query{}
					if g.Intn(2) == 0 {
						l.ns, q.Namespace = s.ns, s.ns
					}
					if g.Intn(3) == 0 {
						l.name = s.name
						q.Paginate = page.Paginate{Search: `name="` + s.name + `"`}
					}
					if g.Intn(3) == 0 {
						q.Sort = "name desc, namespace"
					}
					l.call = atomic.AddInt64(&clock, 1)
					res := st.Query(gvr, q)
					l.ret = atomic.AddInt64(&clock, 1)
					l.err, l.total = res.Error, res.Total
					for _, it := range res.Items {
						o, ok := it.(*delayObj)
						if !ok {
							continue
						}
						is := slot{s.g, o.Annotations[annoCluster], o.Namespace, o.Name}
						v, bad := whole(it, is)
						if bad != "" {
							select {
							case torn <- bad:
							default:
							}
						}
						l.items = append(l.items, is)
						l.vers = append(l.vers, v)
					}
					lists[t] = append(lists[t], l)
				case n < 12:
					op.kind, op.ver = "write", strconv.FormatInt(atomic.AddInt64(&ver, 1), 10)
					o := mkDelay(s, op.ver, delay)
					f := st.OnResourceAdded
					if n%2 == 0 {
						f = st.OnResourceModified
					}
					op.call = atomic.AddInt64(&clock, 1)
					_ = f(gvr, s.cluster, o)
					op.ret = atomic.AddInt64(&clock, 1)
					hist[t] = append(hist[t], op)
				case n < 19 || r%4 != 0:
					op.kind = "delete"
					o := mkDelay(s, strconv.FormatInt(atomic.AddInt64(&ver, 1), 10), delay)
					op.call = atomic.AddInt64(&clock, 1)
					_ = st.OnResourceDeleted(gvr, s.cluster, o)
					op.ret = atomic.AddInt64(&clock, 1)
					hist[t] = append(hist[t], op)
				default:
					call := atomic.AddInt64(&clock, 1)
					_ = st.Clean(gvr, s.cluster)
					ret := atomic.AddInt64(&clock, 1)
					for _, u := range uni {
						if u.g == s.g && u.cluster == s.cluster {
							hist[t] = append(hist[t], &cOp{kind: "delete", s: u, thread: t, call: call, ret: ret, viaClean: true})
						}
					}
				}
			}
		}(t, rand.New(rand.NewSource(c.Seed*104729+int64(r*100+t))))
	}
	close(start)
	if !waitTimeout(&wg, 60*time.Second) {
		c.Violate("blocked", "operations on the store did not finish within 60 s", stacks())
		return false
	}
	close(torn)
	for b := range torn {
		c.Violate("torn", b, map[string]interface{}{"round": r})
	}
	// a last read of everything, after all writes
	for _, s := range uni {
		op := &cOp{kind: "read", s: s, thread: threads, call: atomic.AddInt64(&clock, 1)}
		if x := st.Get(defs[s.g].gvr(), s.cluster, s.ns, s.name); x != nil {
			op.ver, _ = whole(x, s)
		}
		op.ret = atomic.AddInt64(&clock, 1)
		hist = append(hist, []*cOp{op})
	}
	parts := map[slot][]*cOp{}
	var all []*cOp
	for _, h := range hist {
		for _, o := range h {
			parts[o.s] = append(parts[o.s], o)
			all = append(all, o)
		}
	}
	c.Count("operations", int64(len(all)))
	overlap := int64(0)
	for s, ops := range parts {
		var ph []porcupine.Operation
		sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
		for i, o := range ops {
			ph = append(ph, porcupine.Operation{ClientId: o.thread, Input: o, Call: o.call, Output: o, Return: o.ret})
			for _, p := range ops[i+1:] {
				if p.call > o.ret {
					break
				}
				if p.thread != o.thread && (p.kind != "read" || o.kind != "read") {
					overlap++
				}
			}
		}
		res := porcupine.CheckOperationsTimeout(registerModel, ph, 30*time.Second)
		if res == porcupine.Illegal {
			var hs []string
			for _, o := range ops {
				hs = append(hs, opString(o))
			}
			c.Violate("linearizable", fmt.Sprintf("the operations on %+v are not linearizable", s), hs)
		} else if res == porcupine.Unknown {
			c.Count("undecided_histories", 1)
		} else {
			c.Count("object_histories_linearizable", 1)
		}
	}
	c.Count("overlapping_pairs", overlap)
	for _, ls := range lists {
		for _, l := range ls {
			if bad := judgeList(l, parts); bad != "" {
				var hs []string
				for _, o := range all {
					if o.s.g == l.g {
						hs = append(hs, opString(o))
					}
				}
				c.Violate("list", bad, map[string]interface{}{"list": fmt.Sprintf("%+v", *l), "history": hs})
			}
			c.Count("lists_judged", 1)
		}
	}
	sig := ""
	if overlap > 0 {
		sort.Slice(all, func(i, j int) bool { return all[i].call < all[j].call })
		h := fnv.New64a()
		for _, o := range all {
			_, _ = h.Write([]byte(opString(o)))
		}
		sig = strconv.FormatUint(h.Sum64(), 16)
	}
	c.Eval(sig)
	if r == 0 && len(all) > 12 {
		var hs []string
		for _, o := range all[:12] {
			hs = append(hs, opString(o))
		}
		c.Sample(hs)
	}
	return true
}

func judgeList(l *cList, parts map[slot][]*cOp) string {
	if l.err != nil {
		return "a list failed: " + l.err.Error()
	}
	if int(l.total) != len(l.items) {
		return fmt.Sprintf("a list of %d objects reports %d", len(l.items), l.total)
	}
	seen := map[slot]string{}
	for i, s := range l.items {
		if _, dup := seen[s]; dup {
			return fmt.Sprintf("%+v is listed twice", s)
		}
		seen[s] = l.vers[i]
		if l.ns != "" && s.ns != l.ns || l.name != "" && s.name != l.name {
			return fmt.Sprintf("%+v does not match the query", s)
		}
		ops, ok := parts[s]
		if !ok {
			return fmt.Sprintf("%+v was never written", s)
		}
		var w *cOp
		for _, o := range ops {
			if o.kind == "write" && o.ver == l.vers[i] {
				w = o
			}
		}
		if w == nil || w.call > l.ret {
			return fmt.Sprintf("%+v is listed in version %s, which was not written before the list ended", s, l.vers[i])
		}
		for _, o := range ops {
			if o.kind != "read" && o.call > w.ret && o.ret < l.call {
				return fmt.Sprintf("%+v is listed in version %s, which was replaced or deleted before the list began (%s)", s, l.vers[i], opString(o))
			}
		}
	}
	for s, ops := range parts {
		if s.g != l.g || l.ns != "" && s.ns != l.ns || l.name != "" && s.name != l.name {
			continue
		}
		if _, ok := seen[s]; ok {
			continue
		}
		for _, w := range ops {
			if w.kind != "write" || w.ret > l.call {
				continue
			}
			gone := false
			for _, d := range ops {
				if d.kind == "delete" && !(d.ret < w.call || d.call > l.ret) {
					gone = true
				}
			}
			if !gone {
				return fmt.Sprintf("%+v was present throughout (%s) but is not listed", s, opString(w))
			}
		}
	}
	return ""
}

// c11burst lets many threads touch a fresh store for the first time at once: nothing may be lost.
func c11burst(c *Ctx, defs []*gvrDef) {
	rounds := c.N(1500, 20000)
	for r := 0; r < rounds && !c.Stop(); r++ {
		st := newStore(defs)
		k := 6 + r%6
		start := make(chan struct{})
		var wg sync.WaitGroup
		slots := make([]slot, k)
		for i := range slots {
			switch r % 3 {
			case 0: // all in one new namespace of one new cluster
				slots[i] = slot{0, "c", "n", "o" + strconv.Itoa(i)}
			case 1: // each in a new namespace
				slots[i] = slot{0, "c", "n" + strconv.Itoa(i), "o"}
			default: // each in a new cluster
				slots[i] = slot{0, "c" + strconv.Itoa(i), "n", "o"}
			}
		}
		for i := range slots {
			wg.Add(1)
			go func(s slot, i int) {
				defer wg.Done()
				o := mkDelay(s, "1", i%3)
				<-start
				_ = st.OnResourceAdded(defs[0].gvr(), s.cluster, o)
				if st.Get(defs[0].gvr(), s.cluster, s.ns, s.name) == nil {
					c.Violate("burst/own-write", fmt.Sprintf("%+v cannot be read right after it was added", s), map[string]interface{}{"round": r, "objects": fmt.Sprint(slots)})
				}
			}(slots[i], i)
		}
		close(start)
		if !waitTimeout(&wg, 60*time.Second) {
			c.Violate("blocked", "first additions did not finish within 60 s", stacks())
			return
		}
		res := st.Query(defs[0].gvr(), store.Query{})
		if len(res.Items) != k {
			c.Violate("burst/lost", fmt.Sprintf("%d of %d objects added at once are listed", len(res.Items), k), map[string]interface{}{"round": r, "objects": fmt.Sprint(slots)})
		}
		c.Count("first_touch_rounds", 1)
		c.Eval("")
	}
}

func waitTimeout(wg *sync.WaitGroup, d time.Duration) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func stacks() string {
	b := make([]byte, 1<<18)
	b = b[:runtime.Stack(b, true)]
	var keep []string
	for _, s := range strings.Split(string(b), "\n\n") {
		if strings.Contains(s, repoPkg) {
			keep = append(keep, s)
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n\n")
}
