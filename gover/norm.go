package main

// Normalisation of sequence terms under the facts of a symbolic state: slices of slices are merged, slices of a
// sequence whose tail is known (loop invariants of the form "the rest of the input is the encoding of the rest of the
// list") are rewritten to slices of that encoding, and recursive definitions are unfolded when their guard is decided.
// Every step is an equality implied by the facts of the state.

type suffix struct {
	off, n *Term
	s      *Term
}

func (s *State) yes(t *Term) bool {
	if t == tTrue {
		return true
	}
	if t == tFalse {
		return false
	}
	if v, ok := s.decide(t); ok {
		return v
	}
	if len(s.facts) == 0 || theSolver == nil {
		return false
	}
	return theSolver.quick(s, t)
}

func contains(t, sub *Term, memo map[*Term]bool) bool {
	if t == sub {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, a := range t.Args {
		if contains(a, sub, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

// noteSuffix records the equality a = b when one side is a slice of some sequence
func (s *State) noteSuffix(a, b *Term) {
	for i := 0; i < 2; i++ {
		if a.Op == "seq.extract" && b.Op != "seq.extract" {
			if !contains(b, a.Args[0], map[*Term]bool{}) {
				if s.suff == nil {
					s.suff = map[*Term][]suffix{}
				}
				n := map[*Term][]suffix{}
				for k, v := range s.suff {
					n[k] = v
				}
				l := n[a.Args[0]]
				n[a.Args[0]] = append(append([]suffix{}, l...), suffix{a.Args[1], a.Args[2], b})
				s.suff = n
			}
		}
		a, b = b, a
	}
}

var theDefs = map[string]*axiom{}

// unfold expands an application of a recursive definition when its guard is decided
func (s *State) unfold(t *Term) (*Term, bool) {
	if t.Op != "uf" {
		return t, false
	}
	a := theDefs[t.Name]
	if a == nil {
		return t, false
	}
	m := map[*Term]*Term{}
	for i, v := range a.vars {
		m[v] = t.Args[i]
	}
	b := a.body.Args[0]
	if b.Op == "uf" && b.Name == t.Name {
		b = a.body.Args[1]
	}
	for b.Op == "ite" {
		c := s.norm(subst(b.Args[0], m))
		if s.yes(c) {
			b = b.Args[1]
		} else if s.yes(mkNot(c)) {
			b = b.Args[2]
		} else if e := subst(b.Args[1], m); e.Op == "seq.empty" && s.yes(mkGe(mkLen(t), mkInt(1))) {
			// the guarded case is the empty sequence, which t is not
			s.assume(mkNot(c))
			b = b.Args[2]
		} else {
			return t, false
		}
	}
	r := s.norm(subst(b, m))
	s.assume(mkEqRaw(t, r))
	return r, true
}

func (s *State) norm(t *Term) *Term {
	return s.normM(t, map[*Term]*Term{})
}

func (s *State) normM(t *Term, memo map[*Term]*Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = s.normM(a, memo)
		ch = ch || args[i] != a
	}
	r := t
	switch t.Op {
	case "seq.extract":
		r = s.normExtract(args[0], args[1], args[2], 0)
	case "seq.nth":
		r = s.normNth(args[0], args[1])
	case "seq.len":
		r = s.normLen(args[0])
	default:
		if ch {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func (s *State) normLen(b *Term) *Term {
	l := mkLen(b)
	if b.Op == "seq.extract" && l.Op == "seq.len" {
		o, n := b.Args[1], b.Args[2]
		if s.yes(mkGe(o, mkInt(0))) && s.yes(mkGe(n, mkInt(0))) && s.yes(mkLe(mkAdd(o, n), mkLen(b.Args[0]))) {
			return n
		}
	}
	return l
}

func (s *State) normNth(b, i *Term) *Term {
	t := mkNth(b, i)
	if t.Op != "seq.nth" {
		return t
	}
	b, i = t.Args[0], t.Args[1]
	if b.Op == "seq.extract" {
		c, o, n := b.Args[0], b.Args[1], b.Args[2]
		if s.yes(mkGe(i, mkInt(0))) && s.yes(mkLt(i, n)) && s.yes(mkGe(o, mkInt(0))) && s.yes(mkLe(mkAdd(o, n), mkLen(c))) {
			return s.normNth(c, mkAdd(o, i))
		}
	}
	if b.Op == "seq.++" {
		cur := mkInt(0)
		for _, p := range b.Args {
			end := mkAdd(cur, mkLen(p))
			if s.yes(mkGe(i, end)) {
				cur = end
				continue
			}
			if s.yes(mkGe(i, cur)) && s.yes(mkLt(i, end)) {
				return s.normNth(p, mkSub(i, cur))
			}
			break
		}
	}
	for _, f := range s.suff[b] {
		d := mkSub(i, f.off)
		if s.yes(mkGe(d, mkInt(0))) && s.yes(mkLt(d, mkLen(f.s))) {
			u, _ := s.unfold(f.s)
			return s.normNth(u, d)
		}
	}
	return t
}

func (s *State) normExtract(b, o, n *Term, depth int) *Term {
	t := mkExtract(b, o, n)
	if t.Op != "seq.extract" || depth > 12 {
		return t
	}
	b, o, n = t.Args[0], t.Args[1], t.Args[2]
	if s.yes(mkEq(n, mkInt(0))) {
		return mkEmpty(b.Sort)
	}
	if b.Op == "seq.extract" {
		c, o2, n2 := b.Args[0], b.Args[1], b.Args[2]
		if s.yes(mkGe(o, mkInt(0))) && s.yes(mkGe(o2, mkInt(0))) && s.yes(mkLe(mkAdd(o, n), n2)) && s.yes(mkLe(mkAdd(o2, n2), mkLen(c))) {
			return s.normExtract(c, mkAdd(o, o2), n, depth+1)
		}
	}
	for _, f := range s.suff[b] {
		d := mkSub(o, f.off)
		if s.yes(mkGe(d, mkInt(0))) && s.yes(mkGe(n, mkInt(0))) && s.yes(mkLe(mkAdd(d, n), f.n)) && s.yes(mkGe(f.off, mkInt(0))) && s.yes(mkLe(mkAdd(f.off, f.n), mkLen(b))) {
			if s.yes(mkEq(d, mkInt(0))) && s.yes(mkEq(n, f.n)) {
				return f.s
			}
			s.assume(mkEq(mkLen(f.s), f.n))
			u, _ := s.unfold(f.s)
			return s.normExtract(u, d, n, depth+1)
		}
	}
	if b.Op == "seq.++" && s.yes(mkGe(n, mkInt(0))) {
		cur := mkInt(0)
		for i, p := range b.Args {
			end := mkAdd(cur, mkLen(p))
			if s.yes(mkGe(o, end)) {
				cur = end
				continue
			}
			// the slice starts in part i
			d := mkSub(o, cur)
			if s.yes(mkGe(d, mkInt(0))) && s.yes(mkLe(mkAdd(d, n), mkLen(p))) {
				if s.yes(mkEq(d, mkInt(0))) && s.yes(mkEq(n, mkLen(p))) {
					return p
				}
				return s.normExtract(p, d, n, depth+1)
			}
			if s.yes(mkEq(d, mkInt(0))) {
				// ends exactly at some boundary?
				e := mkInt(0)
				for j := i; j < len(b.Args); j++ {
					e = mkAdd(e, mkLen(b.Args[j]))
					if s.yes(mkEq(n, e)) {
						return mkConcatS(b.Sort, b.Args[i:j+1]...)
					}
				}
			}
			if i > 0 {
				return mkExtract(mkConcatS(b.Sort, b.Args[i:]...), d, n)
			}
			break
		}
	}
	if b.Op == "uf" && theDefs[b.Name] != nil {
		if u, ok := s.unfold(b); ok && u.Op == "seq.++" {
			return s.normExtract(u, o, n, depth+1)
		}
	}
	return t
}
