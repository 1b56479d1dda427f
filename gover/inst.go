package main

import (
	"fmt"
	"sort"
	"strings"
)

type universe struct {
	terms           []*Term
	seen            map[*Term]bool
	byKey           map[string][]*Term
	bySort          map[string][]*Term
	eta             map[*Term]int
	maxEta          int
	hinted, hintedT map[*Term]bool
}

func newUniverse() *universe {
	return &universe{seen: map[*Term]bool{}, byKey: map[string][]*Term{}, bySort: map[string][]*Term{}}
}

func opKey(t *Term) string {
	if t.Op == "uf" {
		return "uf " + t.Name
	}
	return t.Op
}

func (u *universe) add(t *Term) {
	if u.seen[t] {
		return
	}
	u.seen[t] = true
	for _, a := range t.Args {
		u.add(a)
	}
	if t.Op == "var" {
		return
	}
	u.terms = append(u.terms, t)
	k := opKey(t)
	u.byKey[k] = append(u.byKey[k], t)
	if adtTab[t.Sort] != nil {
		u.bySort[t.Sort] = append(u.bySort[t.Sort], t)
	}
}

func match(p, t *Term, m map[*Term]*Term) bool {
	if p.Op == "var" {
		if o, ok := m[p]; ok {
			return o == t
		}
		if p.Sort != t.Sort {
			return false
		}
		m[p] = t
		return true
	}
	if p == t {
		return true
	}
	if p.Op != t.Op || p.Name != t.Name || len(p.Args) != len(t.Args) || p.Sort != t.Sort {
		return false
	}
	if p.Op == "int" || p.Op == "const" {
		return false
	}
	for i := range p.Args {
		if !match(p.Args[i], t.Args[i], m) {
			return false
		}
	}
	return true
}

func matchAll(u *universe, pats []*Term, m map[*Term]*Term, f func(map[*Term]*Term)) {
	if len(pats) == 0 {
		f(m)
		return
	}
	p := pats[0]
	var cs []*Term
	if p.Op == "var" {
		cs = u.bySort[p.Sort]
	} else {
		cs = u.byKey[opKey(p)]
	}
	n := len(cs)
	for i := 0; i < n; i++ {
		m2 := make(map[*Term]*Term, len(m)+2)
		for k, v := range m {
			m2[k] = v
		}
		if match(p, cs[i], m2) {
			matchAll(u, pats[1:], m2, f)
		}
	}
}

func rawApp(n, sort string, args ...*Term) *Term {
	return intern(&Term{Op: "uf", Name: n, Sort: sort, Args: args})
}

type qopts struct {
	fuel    int
	exclude int // axioms with index >= exclude of kind lemma are not used (ordering of lemma proofs); -1 = all
	noLemma map[string]bool
	opaque  map[string]bool // definitions not unfolded
	extra   []qfact
	terms   []*Term // hints: terms put in the universe
}

const maxInst = 6000

func hasVar(t *Term) bool {
	if t.Op == "var" {
		return true
	}
	for _, a := range t.Args {
		if hasVar(a) {
			return true
		}
	}
	return false
}

// instantiate returns the quantifier-free problem: facts, negated goal and axiom instances
func (K *contracts) instantiate(facts []*Term, qf []qfact, goal *Term, o qopts) []*Term {
	var as []*Term
	inAs := map[*Term]bool{}
	u := newUniverse()
	push := func(t *Term) {
		if t.Op == "and" {
			for _, a := range t.Args {
				if !inAs[a] {
					inAs[a] = true
					as = append(as, a)
					u.add(a)
				}
			}
			return
		}
		if t == tTrue || inAs[t] {
			return
		}
		inAs[t] = true
		as = append(as, t)
		u.add(t)
	}
	for _, f := range facts {
		push(f)
	}
	push(mkNot(goal))
	for _, t := range o.terms {
		u.add(t)
	}
	done := map[string]bool{}
	count := 0
	type rule struct {
		name string
		trg  []*Term
		body *Term
		id   int
		max  int
		inv  bool
	}
	var rules []rule
	for i, a := range K.axioms {
		if a.kind == "lemma" && (o.exclude >= 0 && i >= o.exclude || o.noLemma[a.name]) {
			continue
		}
		if o.opaque[a.name] {
			continue
		}
		for _, t := range a.triggers {
			rules = append(rules, rule{a.name, t, a.body, i, a.maxRound, a.kind == "invariant"})
		}
		if len(a.triggers) == 0 {
			push(a.body)
		}
	}
	for i, q := range append(append([]qfact{}, qf...), o.extra...) {
		rules = append(rules, rule{q.label, q.triggers, q.body, 100000 + i, 0, false})
	}
	fuel := o.fuel
	u.maxEta = 2
	if fuel == 0 {
		fuel = 3
	}
	for round := 0; round < fuel; round++ {
		before := len(u.terms)
		var fresh []*Term
		for _, r := range rules {
			if r.max > 0 && round >= r.max {
				continue
			}
			matchAll(u, r.trg, map[*Term]*Term{}, func(m map[*Term]*Term) {
				if count > maxInst {
					return
				}
				if r.inv {
					// a struct value a specification writes down is not known to satisfy the invariant of its type:
					// only values the code builds are (it is checked where they are built)
					for _, t := range m {
						if isWritten(t) {
							return
						}
					}
				}
				var ks []string
				for v, t := range m {
					ks = append(ks, fmt.Sprintf("%d=%d", v.id, t.id))
				}
				sort.Strings(ks)
				key := fmt.Sprintf("%d:%s", r.id, strings.Join(ks, ","))
				if done[key] {
					return
				}
				done[key] = true
				b := subst(r.body, m)
				if b == tTrue {
					return
				}
				if hasVar(b) {
					return
				}
				count++
				K.used[r.name] = true
				fresh = append(fresh, b)
			})
		}
		for _, b := range fresh {
			push(b)
		}
		for _, b := range builtinFacts(u) {
			push(b)
		}
		if len(u.terms) == before && len(fresh) == 0 {
			break
		}
	}
	for i := 0; i < 2; i++ {
		for _, b := range builtinFacts(u) {
			push(b)
		}
	}
	return as
}

var two64 = mkBig(two(64))

// builtinFacts: theory facts about the terms of the problem
func builtinFacts(u *universe) []*Term {
	var out []*Term
	if u.eta == nil {
		u.eta = map[*Term]int{}
	}
	for i := 0; i < len(u.terms); i++ {
		t := u.terms[i]
		if t.Op == "uf" {
			if n, ok := fixedLenFuns[t.Name]; ok {
				out = append(out, mkEqRaw(intern(&Term{Op: "seq.len", Sort: SInt, Args: []*Term{t}}), mkInt(n)))
			}
			if nonNegFuns[t.Name] {
				out = append(out, intern(&Term{Op: "ge0", Sort: SBool, Args: []*Term{t}}))
			}
			if strings.HasPrefix(t.Name, "mk_") && adtTab[t.Sort] != nil && t.Name == "mk_"+t.Sort {
				a := adtTab[t.Sort]
				for j, s := range a.sels {
					declFun(s, []string{a.sort}, a.sorts[j])
					out = append(out, mkEqRaw(rawApp(s, a.sorts[j], t), t.Args[j]))
				}
				out = append(out, intern(&Term{Op: "not", Sort: SBool, Args: []*Term{mkEqRaw(t, nilOf(t.Sort))}}))
			}
			if strings.HasPrefix(t.Name, "mk_box:") {
				un := "un" + t.Name
				declFun(un, []string{t.Sort}, t.Args[0].Sort)
				out = append(out, mkEqRaw(rawApp(un, t.Args[0].Sort, t), t.Args[0]))
			}
		}
		if t.Op == "select" {
			em := "emptymap_" + sanitize(t.Args[0].Sort)
			for _, e := range u.byKey["uf "+em] {
				out = append(out, mkEqRaw(intern(&Term{Op: "select", Sort: t.Sort, Args: []*Term{e, t.Args[1]}}), nilOf(t.Sort)))
			}
		}
		// eta for compared values
		if t.Op == "=" && adtTab[t.Args[0].Sort] != nil {
			for _, y := range t.Args {
				d := u.eta[y]
				if d >= u.maxEta {
					continue
				}
				ef := etaFact(y)
				out = append(out, ef...)
				for _, f := range ef {
					for _, a := range f.Args {
						for _, m := range a.Args {
							for _, z := range append([]*Term{m}, m.Args...) {
								if z != y && !u.seen[z] && u.eta[z] < d+1 {
									u.eta[z] = d + 1
								}
							}
						}
					}
				}
			}
		}
		// data invariant: lists of domain values have no nil element
		if t.Op == "seq.nth" && adtTab[t.Sort] != nil && strings.HasPrefix(t.Sort, "T_") {
			q, ix := t.Args[0], t.Args[1]
			out = append(out, mkImp(mkAnd(mkGe(ix, mkInt(0)), mkLt(ix, mkLen(q))), intern(&Term{Op: "not", Sort: SBool, Args: []*Term{intern(&Term{Op: "=", Sort: SBool, Args: order2(t, nilOf(t.Sort))})}})))
		}
		if t.Op == "seq.nth" && t.Args[0].Op == "seq.extract" {
			b, o, n := t.Args[0].Args[0], t.Args[0].Args[1], t.Args[0].Args[2]
			ix := t.Args[1]
			c := mkAnd(mkGe(o, mkInt(0)), mkLe(mkAdd(o, n), mkLen(b)), mkGe(ix, mkInt(0)), mkLt(ix, n))
			out = append(out, mkImp(c, mkEq(t, mkNth(b, mkAdd(o, ix)))))
		}
		if t.Op == "seq.extract" {
			// length of a slice
			s, o, n := t.Args[0], t.Args[1], t.Args[2]
			l := intern(&Term{Op: "seq.len", Sort: SInt, Args: []*Term{t}})
			out = append(out, mkImp(mkAnd(mkGe(o, mkInt(0)), mkGe(n, mkInt(0)), mkLe(mkAdd(o, n), mkLen(s))), mkEqRaw(l, n)))
			// a slice of a slice
			if s.Op == "seq.extract" {
				b, o2, n2 := s.Args[0], s.Args[1], s.Args[2]
				c := mkAnd(mkGe(o2, mkInt(0)), mkLe(mkAdd(o2, n2), mkLen(b)), mkGe(o, mkInt(0)), mkGe(n, mkInt(0)), mkLe(mkAdd(o, n), n2))
				out = append(out, mkImp(c, mkEq(t, mkExtract(b, mkAdd(o, o2), n))))
			}
			// two slices of the same sequence, one inside the other
			for _, e := range u.byKey["seq.extract"] {
				if e == t || e.Args[0] != s {
					continue
				}
				d := mkSub(o, e.Args[1])
				if !d.isInt() && e.Args[2] != mkSub(mkLen(s), e.Args[1]) {
					continue
				}
				if t2 := intern(&Term{Op: "seq.extract", Sort: t.Sort, Args: []*Term{e, d, n}}); !u.hinted[t2] && !u.hintedT[t] {
					if u.hinted == nil {
						u.hinted = map[*Term]bool{}
						u.hintedT = map[*Term]bool{}
					}
					u.hinted[t2] = true
					u.hintedT[t2] = true
					c := mkAnd(mkGe(e.Args[1], mkInt(0)), mkGe(d, mkInt(0)), mkLe(mkAdd(e.Args[1], e.Args[2]), mkLen(s)), mkGe(n, mkInt(0)), mkLe(mkAdd(d, n), e.Args[2]))
					out = append(out, mkImp(c, mkEqRaw(t, t2)))
				}
			}
		}
	}
	for _, f := range extraFacts {
		out = append(out, f(u)...)
	}
	return out
}

var extraFacts []func(u *universe) []*Term

// isWritten: a struct value given by its fields, possibly read back from a struct value given by its fields
func isWritten(t *Term) bool {
	for t.Op == "uf" && len(t.Args) == 1 && isMk(t.Args[0]) {
		r, ok := selTab[t.Name]
		if !ok || r.i >= len(t.Args[0].Args) {
			return false
		}
		t = t.Args[0].Args[r.i]
	}
	return isMk(t)
}

func etaFact(y *Term) []*Term {
	if isMk(y) || isNilC(y) || y.Op == "var" || y.Op == "ite" {
		return nil
	}
	a := adtTab[y.Sort]
	if a == nil || len(a.sels) == 0 || y.Sort == SErr {
		return nil
	}
	var args []*Term
	for j, s := range a.sels {
		declFun(s, []string{a.sort}, a.sorts[j])
		args = append(args, rawApp(s, a.sorts[j], y))
	}
	declFun(a.mkName(), a.sorts, a.sort)
	return []*Term{mkImp(mkNot(intern(&Term{Op: "=", Sort: SBool, Args: order2(y, nilOf(y.Sort))})), mkEqRaw(y, rawApp(a.mkName(), a.sort, args...)))}
}

func order2(a, b *Term) []*Term {
	if a.id > b.id {
		return []*Term{b, a}
	}
	return []*Term{a, b}
}
