package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/DaoCloud/ckube/page"
)

func init() {
	register("C02", "exploration", c02)
	register("C03", "exploration", c03)
}

var dslKeys = []string{"name", "namespace", "cluster", "labels", "phase", "uid", "ip", "note"}

// values that make substrings, equalities, semicolons, exclamation marks and quoting matter
var dslVals = []string{
	"a", "ab", "abc", "b", "ba", "test", "test-1", "test-10", "Test", "te", "est", "prod", "default", "kube-system",
	"10.0.0.1", "10.0.0.10", "a;b", ";", ";;", "a;;b", "b;", ";b", "!x", "x!", "a=b", "=", "x y", "é", "日本語", "日本", "ß", "😀", "0", "00", "true", "",
	`{"app":"x"}`, `{"app":"x","tier":"web"}`, `C:\dir`, "tab\there", "line\nbreak", `say "hi"`, `"quoted"`, " a ", "!!", "!!x", `a"b`, "\u200bzero", "a%20b", "a+b", "1e3", "None",
}

var labelVals = []string{"a", "ab", "abc", "b", "test", "test-1", "test-10", "prod", "default", "kube-system", "10.0.0.1", "0", "true", "Test", "x_y", ""}

func genIndex(g *rand.Rand) map[string]string {
	m := map[string]string{}
	for _, k := range dslKeys {
		if g.Intn(5) == 0 && k != "cluster" {
			continue
		}
		v := pick(g, dslVals)
		if g.Intn(2) == 0 {
			v = pick(g, labelVals)
		}
		if g.Intn(8) == 0 {
			v += pick(g, dslVals)
		}
		m[k] = v
	}
	return m
}

func genText(g *rand.Rand, m map[string]string) string {
	var t string
	switch g.Intn(4) {
	case 0:
		t = pick(g, dslVals)
	default:
		// a piece of an existing value
		ks := sortedKeys(m)
		v := []rune(m[ks[g.Intn(len(ks))]])
		if len(v) > 0 {
			i := g.Intn(len(v))
			j := i + 1 + g.Intn(len(v)-i)
			if g.Intn(3) == 0 {
				i, j = 0, len(v)
			}
			t = string(v[i:j])
		}
	}
	return t
}

// plainText makes a text which stands without quotes: a part is trimmed, and quotes at an end have a meaning.
// Only a negated text may begin with an exclamation mark.
func plainText(t string, neg bool) string {
	for {
		n := strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(t), `"`), `"`)
		if !neg {
			n = strings.TrimPrefix(n, "!")
		}
		if n == t {
			return t
		}
		t = n
	}
}

func genPart(g *rand.Rand, m map[string]string, errs bool) *Part {
	switch n := g.Intn(10); {
	case n < 3:
		neg := g.Intn(3) == 0
		t := plainText(strings.ReplaceAll(genText(g, m), "=", ""), neg)
		if t == "" {
			t = "a"
		}
		return &Part{Kind: pFree, Text: t, Neg: neg}
	case n < 7:
		ks := sortedKeys(m)
		k := ks[g.Intn(len(ks))]
		if errs && g.Intn(12) == 0 {
			k = pick(g, []string{"nosuch", "nam", "Name", "label", k + " ", k + "\t"})
		}
		p := &Part{Kind: pKeyed, Key: k, Text: genText(g, m), Neg: g.Intn(3) == 0, Exact: g.Intn(3) == 0}
		if p.Exact { // between quotes everything stands for itself
			if g.Intn(2) == 0 {
				p.Text = m[k]
			} else if g.Intn(4) == 0 {
				p.Text = pick(g, []string{"!", " ", `"`, "="}) + m[k]
			}
		} else {
			p.Text = plainText(p.Text, p.Neg)
			if v := []rune(m[k]); len(v) > 0 && g.Intn(4) == 0 { // white space within a part counts
				if t := plainText(string(v[:1+g.Intn(len(v))]), p.Neg); t != "" {
					p.Text = pick(g, []string{" ", "  ", "\t"}) + t
				}
			}
		}
		return p
	case n < 9 || !errs:
		keys := append(append([]string{}, dslKeys...), "absent", "x.io/y")
		return &Part{Kind: pSelector, Sel: genSel(g, keys, labelVals, 1+g.Intn(3))}
	default:
		return &Part{Kind: pBadSelector, Text: pick(g, []string{"a b", "a in", "=x", "a in (b", "a>1", "a=b=c", "a=b,,c d", "-bad=1", "a=has space x", "a in (b,c", "!", "a notin b", "n=ü"})}
	}
}

func c02(c *Ctx) {
	c.Rule("a case is a random index map (2-8 keys; values with substrings of each other, semicolons, quotes, control and non-ASCII characters) and a search of 0-4 random parts rendered with random white space, empty parts and doubled semicolons; the verdict of Paginate.Match is compared with an independent evaluator working on the parts themselves. Non-trivial: at least one part; distinct by search text and outcome.")
	n := c.N(150000, 3000000)
	g := c.R
	run := func(parts []*Part, search string, m map[string]string) bool {
		want := evalParts(parts, m)
		p := page.Paginate{Search: search}
		ok, err := p.Match(m)
		got := noMatch
		if err != nil {
			got = isError
			if ok {
				c.Violate("dsl", "an erroneous search both matches and errs", map[string]interface{}{"search": search, "index": m})
			}
		} else if ok {
			got = isMatch
		}
		c.Count("outcome_"+strings.ReplaceAll(want.String(), " ", "_"), 1)
		if len(parts) > 0 {
			c.Eval(search + "|" + want.String())
		} else {
			c.Eval("")
		}
		if got != want {
			c.Violate("dsl", fmt.Sprintf("search %q on %v: got %v, want %v", search, m, got, want), map[string]interface{}{"search": search, "index": m, "got": got.String(), "want": want.String()})
			return false
		}
		return true
	}
	for i := 0; i < n && !c.Stop(); i++ {
		m := genIndex(g)
		var parts []*Part
		for j := g.Intn(5); j > 0; j-- {
			parts = append(parts, genPart(g, m, true))
		}
		for _, p := range parts {
			c.Count("parts", 1)
			c.Count(fmt.Sprintf("kind_%d", p.Kind), 1)
		}
		search := renderSearch(g, parts, g.Intn(4) != 0)
		run(parts, search, m)
		// the same query on a second object: no state may be carried over
		m2 := genIndex(g)
		for k := range m {
			if _, ok := m2[k]; !ok {
				m2[k] = pick(g, dslVals)
			}
		}
		run(parts, search, m2)
		if i < 3 {
			c.Sample(map[string]interface{}{"search": search, "index": m, "outcome": evalParts(parts, m).String()})
		}
	}
	c.Need("outcome_match", 100)
	c.Need("outcome_no_match", 100)
	c.Need("outcome_error", 100)
}

// ---------------------------------------------------------------------------

func c03(c *Ctx) {
	c.Rule("a case is a prior search (0-4 parts of every kind, several selector clauses, cluster and namespace clauses with every operator) followed by 1-3 restrictions through Clusters/Namespaces; afterwards the match result on random index maps is compared with the model that keeps every condition except selector clauses on the restricted key. Sets that cannot be expressed must be refused and leave the query unchanged. Non-trivial: at least one prior part.")
	n := c.N(40000, 800000)
	g := c.R
	names := []string{"c1", "c2", "c-3", "default", "a.b", "prod_1", "x", "test"}
	badNames := []string{"", "kubernetes-admin@kubernetes", "arn:aws:eks:eu-1:123:cluster/x", "has space", "-lead", "trail-", "ü", strings.Repeat("a", 64), "a,b", "x;y", "a)"}
	for i := 0; i < n && !c.Stop(); i++ {
		m0 := genIndex(g)
		m0["cluster"], m0["namespace"] = pick(g, names), pick(g, names)
		var parts []*Part
		for j := g.Intn(5); j > 0; j-- {
			p := genPart(g, m0, false)
			if p.Kind == pSelector {
				for k := range p.Sel {
					if g.Intn(3) == 0 {
						p.Sel[k].Key = pick(g, []string{"cluster", "namespace"})
						for v := range p.Sel[k].Vals {
							p.Sel[k].Vals[v] = pick(g, names)
						}
					}
				}
			}
			parts = append(parts, p)
		}
		search := renderSearch(g, parts, g.Intn(3) != 0)
		p := page.Paginate{Search: search, Page: int64(g.Intn(3)), PageSize: int64(g.Intn(3)), Sort: "name"}
		orig := p
		var steps []string
		restr := map[string][]string{}
		for s := 1 + g.Intn(3); s > 0; s-- {
			key := pick(g, []string{"cluster", "namespace"})
			var set []string
			bad := g.Intn(8) == 0
			for j := 0; j <= g.Intn(3); j++ {
				set = append(set, pick(g, names))
			}
			if g.Intn(60) == 0 { // very many
				for j := 100 + g.Intn(300); j > 0; j-- {
					set = append(set, fmt.Sprintf("c-%d", j))
				}
			}
			if bad {
				if g.Intn(4) == 0 {
					set = nil
				} else {
					b := pick(g, badNames)
					if key == "namespace" && b == "" {
						b = "has space"
					}
					set = append(set, b)
				}
			}
			in := append([]string{}, set...)
			before := p
			var err error
			if key == "cluster" {
				err = p.Clusters(in)
			} else {
				err = p.Namespaces(in)
			}
			steps = append(steps, fmt.Sprintf("%s%q", key, set))
			if bad {
				c.Count("refused", 1)
				if err == nil {
					c.Violate("accepts", fmt.Sprintf("restricting %q to %s %q was not refused; search is now %q", before.Search, key, set, p.Search), steps)
				} else if p != before {
					c.Violate("refuse-changes", fmt.Sprintf("a refused restriction changed the query from %+v to %+v", before, p), steps)
				}
				p = before
				continue
			}
			if err != nil {
				c.Violate("refuses", fmt.Sprintf("restricting %q to %s %q failed: %v", before.Search, key, set, err), steps)
				break
			}
			restr[key] = set
			c.Count("restrictions", 1)
		}
		if p.Page != orig.Page || p.PageSize != orig.PageSize || p.Sort != orig.Sort {
			c.Violate("other-fields", fmt.Sprintf("restricting changed page, size or sort: %+v to %+v", orig, p), steps)
		}
		// the model: drop selector clauses on restricted keys, add the restriction
		var want []*Part
		for _, q := range parts {
			if q.Kind != pSelector {
				want = append(want, q)
				continue
			}
			w := &Part{Kind: pSelector}
			for _, r := range q.Sel {
				if _, replaced := restr[r.Key]; !replaced {
					w.Sel = append(w.Sel, r)
				}
			}
			want = append(want, w)
		}
		for k, set := range restr {
			want = append(want, &Part{Kind: pSelector, Sel: Sel{{Key: k, Op: "in", Vals: set}}})
		}
		if set, ok := restr["cluster"]; ok {
			got := p.GetClusters()
			if !sameSet(got, set) {
				c.Violate("get-clusters", fmt.Sprintf("after Clusters(%q) on %q, GetClusters reports %q (search %q)", set, search, got, p.Search), steps)
			}
		}
		sig := ""
		if len(parts) > 0 {
			sig = search + strings.Join(steps, "")
		}
		c.Eval(sig)
		for j := 0; j < 8; j++ {
			m := map[string]string{}
			for k, v := range m0 {
				m[k] = v
			}
			if j > 0 {
				for k := range m {
					if g.Intn(3) == 0 {
						m[k] = pick(g, labelVals)
					}
				}
			}
			m["cluster"], m["namespace"] = pick(g, names), pick(g, names)
			if set := restr["cluster"]; len(set) > 0 && g.Intn(2) == 0 {
				m["cluster"] = pick(g, set)
			}
			if set := restr["namespace"]; len(set) > 0 && g.Intn(2) == 0 {
				m["namespace"] = pick(g, set)
			}
			w := evalParts(want, m)
			ok, err := p.Match(m)
			got := noMatch
			if err != nil {
				got = isError
			} else if ok {
				got = isMatch
			}
			c.Count("matches_compared", 1)
			if w == isMatch {
				c.Count("matches_true", 1)
			}
			if got != w {
				c.Violate("restrict", fmt.Sprintf("%q restricted by %v became %q: on %v got %v, want %v", search, steps, p.Search, m, got, w), map[string]interface{}{"prior": search, "steps": steps, "after": p.Search, "index": m})
				break
			}
		}
		if i < 3 {
			c.Sample(map[string]interface{}{"prior": search, "steps": steps, "after": p.Search})
		}
	}
	c.Need("matches_true", 100)
	c.Need("refused", 20)
}

func sameSet(a, b []string) bool {
	x, y := map[string]bool{}, map[string]bool{}
	for _, s := range a {
		x[s] = true
	}
	for _, s := range b {
		y[s] = true
	}
	if len(x) != len(y) {
		return false
	}
	for s := range x {
		if !y[s] {
			return false
		}
	}
	return true
}
