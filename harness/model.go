package main

import (
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Independent reference model of the query language: no code of the repository is used here.

// ---- label selectors

type Req struct {
	Key  string
	Op   string // "=", "!=", "in", "notin", "exists", "!"
	Vals []string
}

func (r Req) match(m map[string]string) bool {
	v, ok := m[r.Key]
	in := false
	for _, x := range r.Vals {
		if x == v {
			in = true
		}
	}
	switch r.Op {
	case "=", "in":
		return ok && in
	case "!=", "notin":
		return !ok || !in
	case "exists":
		return ok
	case "!":
		return !ok
	}
	panic("op " + r.Op)
}

func (r Req) render(g *rand.Rand) string {
	sp := func() string {
		if g.Intn(4) == 0 {
			return " "
		}
		return ""
	}
	switch r.Op {
	case "=":
		op := "="
		if g.Intn(3) == 0 {
			op = "=="
		}
		return r.Key + sp() + op + sp() + r.Vals[0]
	case "!=":
		return r.Key + sp() + "!=" + sp() + r.Vals[0]
	case "in", "notin":
		sep := ","
		if g.Intn(3) == 0 {
			sep = ", "
		}
		return r.Key + " " + r.Op + " (" + sp() + strings.Join(r.Vals, sep) + sp() + ")"
	case "exists":
		return r.Key
	case "!":
		return "!" + r.Key
	}
	panic("op " + r.Op)
}

type Sel []Req

func (s Sel) match(m map[string]string) bool {
	for _, r := range s {
		if !r.match(m) {
			return false
		}
	}
	return true
}

func (s Sel) render(g *rand.Rand) string {
	var p []string
	for _, r := range s {
		p = append(p, r.render(g))
	}
	sep := ","
	if g.Intn(3) == 0 {
		sep = ", "
	}
	return strings.Join(p, sep)
}

// genSel makes n requirements over keys and values.
func genSel(g *rand.Rand, keys, vals []string, n int) Sel {
	var s Sel
	for i := 0; i < n; i++ {
		k := keys[g.Intn(len(keys))]
		r := Req{Key: k}
		switch g.Intn(6) {
		case 0:
			r.Op, r.Vals = "=", []string{vals[g.Intn(len(vals))]}
		case 1:
			r.Op, r.Vals = "!=", []string{vals[g.Intn(len(vals))]}
		case 2, 3:
			r.Op = "in"
			if g.Intn(2) == 0 {
				r.Op = "notin"
			}
			for j := 0; j <= g.Intn(3); j++ {
				r.Vals = append(r.Vals, vals[g.Intn(len(vals))])
			}
			// Kubernetes' grammar has at most one empty value, in front
			empty := false
			var vs []string
			for _, v := range r.Vals {
				if v == "" {
					empty = true
				} else {
					vs = append(vs, v)
				}
			}
			if empty && len(vs) > 0 {
				vs = append([]string{""}, vs...)
			} else if empty {
				vs = []string{"a"}
			}
			r.Vals = vs
		case 4:
			r.Op = "exists"
		case 5:
			r.Op = "!"
		}
		s = append(s, r)
	}
	return s
}

// ---- search expressions

const asPrefix = "__ckube_as__:"

type partKind int

const (
	pFree partKind = iota
	pKeyed
	pSelector
	pBadSelector
)

type Part struct {
	Kind  partKind
	Key   string
	Text  string
	Neg   bool
	Exact bool
	Sel   Sel
	raw   string
}

// content is the part before semicolons are doubled.
func (p *Part) content(g *rand.Rand) string {
	if p.raw != "" {
		return p.raw
	}
	neg := ""
	if p.Neg {
		neg = "!"
	}
	switch p.Kind {
	case pFree:
		p.raw = neg + p.Text
	case pKeyed:
		t := p.Text
		if p.Exact {
			t = `"` + t + `"`
		}
		p.raw = p.Key + "=" + neg + t
	case pSelector:
		sp := ""
		if g.Intn(2) == 0 {
			sp = " "
		}
		p.raw = asPrefix + sp + p.Sel.render(g)
	case pBadSelector:
		p.raw = asPrefix + p.Text
	}
	return p.raw
}

type outcome int

const (
	noMatch outcome = iota
	isMatch
	isError
)

func (o outcome) String() string { return [...]string{"no match", "match", "error"}[o] }

func (p Part) eval(m map[string]string) outcome {
	b := func(x bool) outcome {
		if x != p.Neg {
			return isMatch
		}
		return noMatch
	}
	switch p.Kind {
	case pFree:
		for _, v := range m {
			if strings.Contains(v, p.Text) {
				return b(true)
			}
		}
		return b(false)
	case pKeyed:
		v, ok := m[p.Key]
		if !ok {
			return isError
		}
		if p.Exact {
			return b(v == p.Text)
		}
		return b(strings.Contains(v, p.Text))
	case pSelector:
		if p.Sel.match(m) {
			return isMatch
		}
		return noMatch
	}
	return isError
}

func evalParts(ps []*Part, m map[string]string) outcome {
	res := isMatch
	for _, p := range ps {
		switch p.eval(m) {
		case isError:
			return isError
		case noMatch:
			res = noMatch
		}
	}
	return res
}

// renderSearch writes the parts down, with semicolons doubled, random surrounding white space and empty parts.
func renderSearch(g *rand.Rand, ps []*Part, noise bool) string {
	var out []string
	for _, p := range ps {
		out = append(out, strings.ReplaceAll(p.content(g), ";", ";;"))
	}
	var sb strings.Builder
	ws := func() {
		if noise {
			switch g.Intn(6) {
			case 0:
				sb.WriteString(" ")
			case 1:
				sb.WriteString("  \t")
			case 2:
				sb.WriteString(" ")
			}
		}
	}
	// an empty part must have a space in it: ";;" is a literal semicolon
	if noise && g.Intn(8) == 0 {
		sb.WriteString(" ; ")
	}
	for i, s := range out {
		if i > 0 {
			sb.WriteString(";")
			if noise && g.Intn(8) == 0 {
				sb.WriteString(" ;")
			}
			if strings.HasPrefix(s, ";") {
				sb.WriteString(" ")
			}
		}
		ws()
		sb.WriteString(s)
		ws()
	}
	if noise && g.Intn(8) == 0 {
		if strings.HasSuffix(sb.String(), ";") {
			sb.WriteString(" ")
		}
		sb.WriteString(";")
		if g.Intn(2) == 0 {
			sb.WriteString(" ")
		}
	}
	return sb.String()
}

// ---- sorting

type sortKey struct {
	Key  string
	Int  bool
	Desc bool
}

func renderSort(g *rand.Rand, ks []sortKey) string {
	var out []string
	for _, k := range ks {
		s := k.Key
		if k.Int {
			s += "!int"
		} else if g.Intn(4) == 0 {
			s += "!str"
		}
		if k.Desc {
			s += " desc"
		} else if g.Intn(4) == 0 {
			s += " asc"
		}
		out = append(out, s)
	}
	sep := ","
	if g.Intn(2) == 0 {
		sep = ", "
	}
	return strings.Join(out, sep)
}

// cmpBy compares two index maps: <0, 0, >0.
func cmpBy(ks []sortKey, a, b map[string]string) int {
	for _, k := range ks {
		c := 0
		if k.Int {
			x, _ := strconv.ParseFloat(a[k.Key], 64)
			y, _ := strconv.ParseFloat(b[k.Key], 64)
			if x < y {
				c = -1
			} else if x > y {
				c = 1
			}
		} else {
			c = strings.Compare(a[k.Key], b[k.Key])
		}
		if c != 0 {
			if k.Desc {
				return -c
			}
			return c
		}
	}
	return 0
}

var defaultSort = []sortKey{{Key: "cluster"}, {Key: "namespace"}, {Key: "name"}}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func pick(g *rand.Rand, xs []string) string { return xs[g.Intn(len(xs))] }
