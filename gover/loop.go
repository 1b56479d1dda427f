package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *State) setGhost(n string, t *Term) {
	s.ghost[n] = t
	s.wlog = append(s.wlog, wrec{ghost: n})
}

// setGhostAt changes one entry of a ghost map
func (s *State) setGhostAt(n string, key, v *Term) {
	s.ghost[n] = mkStore(s.ghost[n], key, v)
	s.wlog = append(s.wlog, wrec{ghost: n, addr: key})
}

// selAt reads an entry, skipping writes to keys known to be different
func (s *State) selAt(a, key *Term) *Term {
	if a.Op == "store" || key.Sort == SStr {
		key = s.repOf(key)
	}
	for a.Op == "store" {
		e := mkEq(a.Args[1], key)
		if e == tTrue || s.yes(e) {
			return a.Args[2]
		}
		if e == tFalse || s.yes(mkNot(e)) {
			a = a.Args[0]
			continue
		}
		break
	}
	return mkSelect(a, key)
}

type loc struct {
	name  string
	phi   *ssa.Phi
	cell  int
	n     *types.Named
	fi    int
	addr  *Term
	ghost string
	all   bool // every object of that field
	typ   types.Type
}

func (l *loc) get(x *Exec, st *State) SVal {
	switch {
	case l.phi != nil:
		return st.env[l.phi]
	case l.cell > 0:
		return st.cells[l.cell].val
	case l.ghost != "" && l.addr != nil:
		return VT{st.selAt(st.ghost[l.ghost], l.addr)}
	case l.ghost != "":
		return VT{st.ghost[l.ghost]}
	}
	return x.heapRead(st, l.n, l.fi, l.addr)
}

func (l *loc) set(x *Exec, st *State, v SVal) {
	switch {
	case l.phi != nil:
		st.env[l.phi] = v
	case l.cell > 0:
		c := st.cells[l.cell]
		c.val = v
		st.cells[l.cell] = c
		st.wlog = append(st.wlog, wrec{cell: l.cell})
	case l.ghost != "" && l.addr != nil:
		st.setGhostAt(l.ghost, l.addr, v.(VT).t)
	case l.ghost != "":
		st.setGhost(l.ghost, v.(VT).t)
	default:
		st.heapWrite(heapKey(l.n, l.fi), l.addr, v)
		st.wlog = append(st.wlog, wrec{n: l.n, fi: l.fi, addr: l.addr})
	}
}

func (l *loc) seqTerm(x *Exec, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(errUnsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	v := l.get(x, st)
	switch p := v.(type) {
	case nil:
		return nil
	case VSl:
		return x.sliceTerm(st, p)
	case VT:
		return p.t
	case VObj:
		return p.addr
	case VMap:
		if p.cell < 0 {
			return p.id
		}
		c := st.cells[p.cell]
		if vt, ok := c.val.(VT); ok {
			return vt.t
		}
	case VPtrCell:
		return x.toTerm(st.clone(), p, l.typ)
	}
	return nil
}

type cand struct {
	name  string
	def   *loc                           // defining equality: def = expr(st-independent given k)
	expr  func(k *Term) *Term            // for def
	gen   func(st *State, k *Term) *Term // general predicate
	nilf  bool                           // def of the nil flag
	arith bool
	user  bool
	at    *ssa.BasicBlock
	soft  *loc // equality with an expression over other modified locations
	rhs   func(st *State, k *Term) *Term
	deps  []*loc
}

func (c *cand) key() string { return fmt.Sprintf("%p %s", c.at, c.name) }

type loopInfo struct {
	intTyp map[*Term]map[string]bool
	entry  *State
	locs   []*loc
	ent    map[*loc]SVal
	entT   map[*loc]*Term
	entSt  *State // the state in which the loop starts
	ranged map[*Term]bool // sequences the loop iterates over
	lin    map[*ssa.Phi]int64
	same   []*ssa.Phi // shared maps
	cands  []*cand
}

// linearPhi: the step c when every back edge carries phi+c
func linearPhi(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) (int64, bool) {
	b := ph.Block()
	if t := ti(ph.Type()); t.k != kInt {
		return 0, false
	}
	step := int64(0)
	have := false
	for i, e := range ph.Edges {
		if !body[b.Preds[i]] {
			continue
		}
		c, ok := stepOf(e, ph, 0)
		if !ok || have && c != step {
			return 0, false
		}
		step, have = c, true
	}
	return step, have
}

func stepOf(v ssa.Value, ph *ssa.Phi, d int) (int64, bool) {
	if v == ph {
		return 0, true
	}
	if d > 4 {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil {
			n, exact := constant.Int64Val(constant.ToInt(c.Value))
			if !exact {
				return 0, false
			}
			s, ok := stepOf(v.X, ph, d+1)
			if !ok {
				return 0, false
			}
			if v.Op == token.ADD {
				return s + n, true
			}
			if v.Op == token.SUB {
				return s - n, true
			}
		}
	case *ssa.Phi:
		r, have := int64(0), false
		for _, e := range v.Edges {
			s, ok := stepOf(e, ph, d+1)
			if !ok || have && s != r {
				return 0, false
			}
			r, have = s, true
		}
		return r, have
	}
	return 0, false
}

var iterMax = new(big.Int).Lsh(one, 61)

func (x *Exec) loop(st *State, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, pred *ssa.BasicBlock, k cont) {
	li := &loopInfo{ent: map[*loc]SVal{}, entT: map[*loc]*Term{}, lin: map[*ssa.Phi]int64{}}
	// entry phi values
	pi := predIndex(b, pred)
	var phis []*ssa.Phi
	vals := map[*ssa.Phi]SVal{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals[ph] = x.val(st, ph.Edges[pi])
	}
	for ph, v := range vals {
		st.env[ph] = v
	}
	for _, ph := range phis {
		if m, ok := vals[ph].(VMap); ok && m.shared() {
			// a shared map is the same one in every iteration (checked at the back edges)
			li.same = append(li.same, ph)
			continue
		}
		l := &loc{name: ph.Comment, phi: ph, typ: ph.Type()}
		if l.name == "" {
			l.name = ph.Name()
		}
		li.locs = append(li.locs, l)
		if c, ok := linearPhi(ph, body); ok && c != 0 {
			if t, ok := vals[ph].(VT); ok && t.t.Sort == SInt {
				li.lin[ph] = c
			}
		}
	}
	// values flowing into phis escape their cells (slices over local arrays)
	for _, ph := range phis {
		if s, ok := st.env[ph].(VSl); ok && s.cell > 0 {
			// keep the view when the loop never changes it; otherwise freeze
			t := x.toTerm(st, s, ph.Type())
			st.env[ph] = VSl{seq: t, nil_: tFalse}
		}
	}
	ent := st.clone()
	li.entry = ent
	rec := x.record
	mark := len(st.wlog)
	objMark := objCnt
	cellMark := cellCnt

	// discovery of modified locations
	seen := map[string]bool{}
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported("loop at %s: modified locations not stable", x.pos(headPos(b))))
		}
		added := false
		note := func(s *State) {
			for _, w := range s.wlog[mark:] {
				var l *loc
				switch {
				case w.ghost != "" && w.addr != nil && existedBefore(w.addr, st, freshAt):
					l = &loc{name: w.ghost + "@" + w.addr.String(), ghost: w.ghost, addr: w.addr}
				case w.ghost != "":
					l = &loc{name: w.ghost, ghost: w.ghost}
				case w.cell > 0:
					if w.cell > cellMark {
						continue
					}
					if _, ok := st.cells[w.cell]; !ok {
						continue
					}
					l = &loc{name: fmt.Sprintf("cell%d", w.cell), cell: w.cell, typ: st.cells[w.cell].typ}
				default:
					if w.addr.isInt() && w.addr.Lit.Sign() < 0 && w.addr.Lit.Cmp(big.NewInt(int64(-objMark))) < 0 {
						continue
					}
					l = &loc{name: heapKey(w.n, w.fi) + "@" + w.addr.String(), n: w.n, fi: w.fi, addr: w.addr, typ: fieldType(w.n, w.fi)}
					if !existedBefore(w.addr, st, freshAt) {
						l.all = true
						l.name = heapKey(w.n, w.fi) + "@*"
					}
				}
				if !seen[l.name] {
					seen[l.name] = true
					added = true
					li.locs = append(li.locs, l)
				}
			}
		}
		freshAt = freshCnt
		s := st.clone()
		x.record = false
		x.weak++
		kc := x.havocLoop(s, li, nil)
		_ = kc
		enterLoop(s, &loopCtx{header: b, body: body, parent: s.fr.loops,
			onBack: func(e *State, _ *ssa.BasicBlock) { note(e) },
			onExit: func(e *State) bool { return false }})
		x.instrs(s, b, 0, k)
		x.weak--
		x.record = rec
		if !added {
			break
		}
	}
	for _, l := range li.locs {
		if l.all {
			continue
		}
		li.ent[l] = l.get(x, ent)
		li.entT[l] = l.seqTerm(x, ent)
	}
	li.entSt = ent
	// candidates
	li.cands = x.candidates(ent, li, b, body)
	for _, c := range li.cands {
		c.at = b
	}
	// initiation
	var keep []*cand
	{
		var qs []*Obl
		var cs []*cand
		for _, c := range li.cands {
			g := x.candGoal(c, ent, li, mkInt(0))
			if g == nil {
				continue
			}
			if yes(st, g) {
				keep = append(keep, c)
				continue
			}
			if v, ok := st.decide(g); ok && !v {
				continue
			}
			if x.weak > 0 {
				continue
			}
			cs = append(cs, c)
			qs = append(qs, &Obl{facts: st.facts, qfacts: st.qfacts, goal: g})
		}
		x.S.solveMany(x, qs, cs)
		for i, q := range qs {
			if q.Status == "discharged" {
				keep = append(keep, cs[i])
			} else if debugHoudini && cs[i].user {
				fmt.Fprintf(os.Stderr, "houdini: %s does not start with %s [%s]\n", x.pos(headPos(b)), cs[i].name, q.Status)
				if debugDump != "" {
					os.WriteFile(fmt.Sprintf("%s/init-%d.smt2", debugDump, i), []byte(q.Query), 0644)
				}
			}
		}
	}
	li.cands = keep
	// Houdini
	if x.weak == 0 || true {
		for round := 0; round < 40; round++ {
			s := st.clone()
			x.record = false
			kc := x.havocLoop(s, li, li.cands)
			removed := map[*cand]bool{}
			var qs []*Obl
			var cs []*cand
			enterLoop(s, &loopCtx{header: b, body: body, parent: s.fr.loops,
				onBack: func(e *State, p *ssa.BasicBlock) {
					x.backPhis(e, b, p)
					for _, c := range li.cands {
						if removed[c] {
							continue
						}
						g := x.candGoal(c, e, li, mkAdd(kc, mkInt(1)))
						if g == nil {
							removed[c] = true
							continue
						}
						if v, ok := e.decide(g); ok {
							if !v {
								removed[c] = true
							}
							continue
						}
						if x.weak > 0 {
							removed[c] = true
							continue
						}
						qs = append(qs, &Obl{facts: e.facts, qfacts: e.qfacts, goal: g})
						cs = append(cs, c)
					}
				},
				onExit: func(e *State) bool { return false }})
			x.instrs(s, b, 0, k)
			x.record = rec
			// drop queries of removed candidates
			var q2 []*Obl
			var c2 []*cand
			for i := range qs {
				if !removed[cs[i]] {
					q2 = append(q2, qs[i])
					c2 = append(c2, cs[i])
				}
			}
			x.S.solveMany(x, q2, c2)
			for i := range q2 {
				if q2[i].Status != "discharged" {
					if c2[i].user && debugHoudini {
						fmt.Fprintf(os.Stderr, "houdini: %s drops %s [%s]\n", x.pos(headPos(b)), c2[i].name, q2[i].Status)
						if debugDump != "" {
							fmt.Fprintf(os.Stderr, "   goal: %s\n", trunc(q2[i].goal.String(), 3000))
							for _, q := range q2[i].facts {
								fmt.Fprintf(os.Stderr, "      hfact: %s\n", trunc(q.String(), 1500))
							}
							os.WriteFile(fmt.Sprintf("%s/houdini-%d.smt2", debugDump, freshCnt), []byte(q2[i].Query), 0644)
						}
					}
					removed[c2[i]] = true
				}
			}
			if len(removed) == 0 {
				break
			}
			var left []*cand
			for _, c := range li.cands {
				if !removed[c] {
					left = append(left, c)
				}
			}
			li.cands = left
		}
	}
	if debugHoudini && x.weak == 0 && rec {
		var ns []string
		for _, c := range li.cands {
			ns = append(ns, c.name)
		}
		sort.Strings(ns)
		fmt.Fprintf(os.Stderr, "loop %s (%s): %s\n", x.pos(headPos(b)), st.fr.fn.Name(), strings.Join(ns, " ; "))
	}
	// final pass
	if x.weak == 0 {
		for _, c := range li.cands {
			g := x.candGoal(c, ent, li, mkInt(0))
			x.oblig(ent.clone(), "invariant", "loop invariant holds on entry: "+c.name, g, headPos(b))
		}
	}
	s := st
	outer := s.fr.loops
	kc := x.havocLoop(s, li, li.cands)
	bounds := x.kBounds(li, s, kc)
	each := x.beh != nil && len(x.beh.Each) > 0 && x.pureDepth == 0
	for _, l := range li.locs {
		if l.n != nil || l.ghost != "" {
			each = false
		}
	}
	enterLoop(s, &loopCtx{header: b, body: body, parent: outer, each: each,
		onBack: func(e *State, p *ssa.BasicBlock) {
			if x.weak > 0 {
				return
			}
			for _, ph := range li.same {
				x.oblig(e.clone(), "invariant", "the loop keeps the map "+ph.Comment, mkEq(x.val(e, ph.Edges[predIndex(b, p)]).(VMap).id, vals[ph].(VMap).id), headPos(b))
			}
			x.backPhis(e, b, p)
			for _, c := range li.cands {
				g := x.candGoal(c, e, li, mkAdd(kc, mkInt(1)))
				x.oblig(e.clone(), "invariant", "loop invariant is preserved: "+c.name, g, headPos(b))
			}
			if each {
				x.eachBack(e, b, body)
			}
		},
		onExit: func(e *State) bool {
			// the iteration count is often determined at the exit: use it as a definition
			for _, bd := range bounds {
				if yes(e, mkGe(kc, bd)) && yes(e, mkLe(kc, bd)) {
					e.substAll(map[*Term]*Term{kc: bd})
					break
				}
			}
			return true
		}})
	x.instrs(s, b, 0, k)
}

func enterLoop(s *State, lc *loopCtx) {
	f := *s.fr
	f.loops = lc
	s.fr = &f
}

var freshAt int

// existedBefore: the address term only mentions constants that exist outside the loop
func existedBefore(t *Term, st *State, mark int) bool {
	ok := true
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.Op == "const" {
			if i := strings.LastIndex(t.Name, "!"); i >= 0 {
				var n int
				fmt.Sscanf(t.Name[i+1:], "%d", &n)
				if n > mark {
					ok = false
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return ok
}

func headPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func (x *Exec) backPhis(e *State, b, p *ssa.BasicBlock) {
	pi := predIndex(b, p)
	nv := map[*ssa.Phi]SVal{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nv[ph] = x.val(e, ph.Edges[pi])
	}
	for ph, v := range nv {
		e.env[ph] = v
	}
}

// havocLoop puts the state at an arbitrary iteration k satisfying the candidates; returns k
func (x *Exec) havocLoop(s *State, li *loopInfo, cands []*cand) *Term {
	kc := freshConst("k", SInt)
	nonNegConsts[kc] = true
	s.om = nil
	s.assume(mkGe(kc, mkInt(0)))
	s.assume(mkLe(kc, mkBig(iterMax)))
	hv := map[*loc]*Term{}
	for _, l := range li.locs {
		if l.all {
			key := heapKey(l.n, l.fi)
			delete(s.heap, key)
			s.hbase[key] = s.hbase[key]*1000 + freshCnt + 1
			freshCnt++
			s.wlog = append(s.wlog, wrec{n: l.n, fi: l.fi, addr: freshConst("anyaddr", SInt)})
			continue
		}
		if l.phi != nil {
			if c, ok := li.lin[l.phi]; ok {
				i0 := li.entry.env[l.phi].(VT).t
				if li.entT[l] != nil {
					i0 = li.entT[l]
				}
				t := mkAdd(i0, mkMul(mkInt(c), kc))
				l.set(x, s, VT{t})
				s.typeFacts(t, l.typ)
				continue
			}
		}
		l.set(x, s, x.havocVal(s, l, l.get(x, li.entry), hv))
	}
	defd := map[*loc]bool{}
	for _, c := range cands {
		if c.def != nil && !c.nilf && !defd[c.def] {
			defd[c.def] = true
			t := c.expr(kc)
			x.setTerm(s, c.def, t)
		}
	}
	for progress := true; progress; {
		progress = false
		for _, c := range cands {
			if c.soft == nil || defd[c.soft] || c.soft.phi != nil && isLin(li, c.soft.phi) {
				continue
			}
			ready := true
			for _, d := range c.deps {
				if defd[d] {
					continue
				}
				for _, o := range cands {
					if o.soft == d {
						ready = false
					}
				}
			}
			if !ready {
				continue
			}
			if t := c.rhs(s, kc); t != nil {
				defd[c.soft] = true
				progress = true
				x.setTerm(s, c.soft, t)
			}
		}
	}
	for _, c := range cands {
		if c.def != nil && c.nilf {
			if v, ok := c.def.get(x, s).(VSl); ok && v.cell == 0 {
				v.nil_ = c.expr(kc)
				c.def.set(x, s, v)
			}
		}
	}
	for _, c := range cands {
		if c.def != nil && c.nilf {
			continue
		}
		g := x.candGoal(c, s, li, kc)
		if g != nil {
			s.assume(g)
		}
	}
	return kc
}

func isLin(li *loopInfo, p *ssa.Phi) bool { _, ok := li.lin[p]; return ok }

func (x *Exec) setTerm(s *State, l *loc, t *Term) {
	cur := l.get(x, s)
	switch v := cur.(type) {
	case VSl:
		l.set(x, s, VSl{seq: t, nil_: v.nil_})
	case VMap:
		if v.shared() {
			l.set(x, s, VMap{cell: -2, t: v.t, nil_: mkEq(t, mkInt(0)), id: t})
			return
		}
		if v.cell < 0 {
			l.set(x, s, opaqueOf(v.t, t))
			return
		}
		c := s.cells[v.cell]
		c.val = VT{t}
		s.cells[v.cell] = c
	case VObj:
		l.set(x, s, VObj{t, v.n})
	default:
		l.set(x, s, VT{t})
	}
}

func (x *Exec) havocVal(s *State, l *loc, cur SVal, hv map[*loc]*Term) SVal {
	if l.n != nil && isSharedNamed(l.n) {
		// the contents of a shared map
		return VT{freshConst("map", mapSort(types.Unalias(l.n.Underlying().(*types.Struct).Field(0).Type()).Underlying().(*types.Map)))}
	}
	switch v := cur.(type) {
	case VMap:
		if v.shared() {
			id := freshConst("mapid", SInt)
			return VMap{cell: -2, t: v.t, nil_: mkEq(id, mkInt(0)), id: id}
		}
		if v.cell < 0 {
			return s.newOpaque(v.t, nil)
		}
		panic(unsupported("a loop replaces a tracked map"))
	case VClos:
		return VT{freshConst("fn", "Func")}
	}
	if l.ghost != "" {
		return VT{freshConst("g_"+l.ghost, cur.(VT).t.Sort)}
	}
	if l.cell > 0 {
		t := x.toTermNF(s, cur, l.typ)
		if ti(l.typ).k == kMap {
			if _, ok := cur.(VT); ok {
				return VT{freshConst("map", t.Sort)}
			}
		}
		if ti(l.typ).k == kSlice || ti(l.typ).k == kArray {
			if _, isSl := cur.(VSl); !isSl {
				c := freshConst("arr", t.Sort)
				s.assume(mkEq(mkLen(c), mkLen(t)))
				return VT{c}
			}
		}
	}
	typ := l.typ
	if ti(typ).k == kADT || ti(typ).k == kOpt {
		return VT{freshConst("h_"+l.name, sortOf(typ))}
	}
	return s.freshVal("h_"+l.name, typ)
}

func (x *Exec) candGoal(c *cand, st *State, li *loopInfo, k *Term) (g *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(errUnsupported); ok {
				dbg("cand %s: %s", c.name, u.msg)
				g = nil
				return
			}
			panic(r)
		}
	}()
	if c.def != nil {
		if c.nilf {
			v, ok := c.def.get(x, st).(VSl)
			if !ok {
				return nil
			}
			n := v.nil_
			if v.cell > 0 {
				n = tFalse
			}
			if n == nil {
				return nil
			}
			return mkEq(n, c.expr(k))
		}
		cur := c.def.seqTerm(x, st)
		if cur == nil {
			return nil
		}
		e := c.expr(k)
		if e.Sort != cur.Sort {
			return nil
		}
		if strings.HasPrefix(cur.Sort, "(Seq ") {
			return mkEq(x.mergeSeq(st, cur), e)
		}
		return mkEq(cur, e)
	}
	return c.gen(st, k)
}

func (x *Exec) kBounds(li *loopInfo, st *State, kc *Term) []*Term {
	var out []*Term
	for _, c := range li.cands {
		if strings.HasPrefix(c.name, "bound ") {
			g := x.candGoal(c, st, li, kc)
			if g == nil || g.Op != "ge0" {
				continue
			}
			// g: T - c*k - d >= 0 with coefficient -1 on k
			l := newLin()
			l.add(g.Args[0], one)
			if co, ok := l.co[kc]; ok && co.Cmp(minusOne) == 0 {
				delete(l.co, kc)
				out = append(out, l.term())
			}
		}
	}
	return out
}

// substAll replaces constants everywhere in the state
func (s *State) substAll(m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return substM(t, m, memo)
	}
	var fv func(v SVal) SVal
	fv = func(v SVal) SVal {
		switch p := v.(type) {
		case VT:
			return VT{f(p.t)}
		case VSl:
			if p.cell > 0 {
				return p
			}
			return VSl{seq: f(p.seq), nil_: f(p.nil_)}
		case VSt:
			fs := make([]SVal, len(p.fs))
			for i := range fs {
				fs[i] = fv(p.fs[i])
			}
			return VSt{p.n, fs}
		case VTup:
			vs := make([]SVal, len(p.vs))
			for i := range vs {
				vs[i] = fv(p.vs[i])
			}
			return VTup{vs}
		case VArr:
			el := make([]SVal, len(p.el))
			for i := range el {
				el[i] = fv(p.el[i])
			}
			return VArr{el}
		case VPtrField:
			return VPtrField{fv(p.base), p.n, p.i}
		case VPtrIdx:
			return VPtrIdx{fv(p.base), f(p.i)}
		case VObj:
			return VObj{f(p.addr), p.n}
		case VMap:
			if p.id != nil {
				return VMap{p.cell, p.t, f(p.nil_), f(p.id)}
			}
			return VMap{cell: p.cell, t: p.t, nil_: f(p.nil_)}
		case VIter:
			if p.arr == nil {
				return VIter{fv(p.m), p.id, nil}
			}
			return VIter{fv(p.m), p.id, f(p.arr)}
		case VClos:
			b := make([]SVal, len(p.binds))
			for i := range b {
				b[i] = fv(p.binds[i])
			}
			return VClos{p.fn, b}
		}
		return v
	}
	for k, v := range s.env {
		s.env[k] = fv(v)
	}
	for k, v := range s.cells {
		s.cells[k] = cellv{v.typ, fv(v.val)}
	}
	for k, l := range s.heap {
		n := make([]hw, len(l))
		for i := range l {
			n[i] = hw{f(l[i].addr), fv(l[i].val)}
		}
		s.heap[k] = n
	}
	for k, v := range s.ghost {
		s.ghost[k] = f(v)
	}
	for i := range s.fr.defers {
		d := s.fr.defers[i]
		na := make([]SVal, len(d.args))
		for j := range na {
			na[j] = fv(d.args[j])
		}
		d.args = na
		nd := append([]deferred{}, s.fr.defers...)
		nd[i] = d
		s.fr.defers = nd
	}
	nw := make([]wrec, len(s.wlog))
	for i, w := range s.wlog {
		w.addr = f(w.addr)
		nw[i] = w
	}
	s.wlog = nw
	qs := make([]qfact, len(s.qfacts))
	for i, q := range s.qfacts {
		q.body = f(q.body)
		tr := make([]*Term, len(q.triggers))
		for j := range tr {
			tr[j] = f(q.triggers[j])
		}
		q.triggers = tr
		qs[i] = q
	}
	s.qfacts = qs
	old := s.facts
	nilf := s.nilf
	s.facts = nil
	s.fset = map[*Term]bool{}
	s.lower = map[*Term]*big.Int{}
	s.rep = map[*Term]*Term{}
	s.nilf = map[*Term]*Term{}
	for k, v := range nilf {
		s.nilf[f(k)] = f(v)
	}
	for _, t := range old {
		s.assume(f(t))
	}
}

// ---- candidate invariants ----

func (x *Exec) candidates(st *State, li *loopInfo, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*cand {
	var out []*cand
	add := func(c *cand) { out = append(out, c) }
	// values defined outside the loop
	type outv struct {
		name string
		t    *Term
	}
	var seqs, ints, adts, empties []outv
	seenT := map[*Term]bool{}
	if li.intTyp == nil {
		li.intTyp = map[*Term]map[string]bool{}
	}
	addOut := func(name string, v SVal, typ types.Type) {
		switch p := v.(type) {
		case VMap:
			// maps built before the loop (only for templates)
			if p.cell >= 0 && !p.shared() && st.cells[p.cell].val != nil {
				if t := x.toTermNF(st, st.cells[p.cell].val, st.cells[p.cell].typ); !seenT[t] {
					seenT[t] = true
					empties = append(empties, outv{name, t})
				}
			}
		case VSl:
			var t *Term
			if p.cell > 0 {
				return
			}
			t = p.seq
			if t != nil && !seenT[t] && t.Op == "seq.empty" {
				seenT[t] = true
				empties = append(empties, outv{name, t})
			}
			if t != nil && !seenT[t] && t.Op != "seq.empty" {
				seenT[t] = true
				seqs = append(seqs, outv{name, t})
			}
		case VT:
			if p.t.Sort == SInt && typ != nil {
				if li.intTyp[p.t] == nil {
					li.intTyp[p.t] = map[string]bool{}
				}
				li.intTyp[p.t][typ.Underlying().String()] = true
			}
			if p.t.Sort == SInt && !seenT[p.t] {
				seenT[p.t] = true
				ints = append(ints, outv{name, p.t})
			}
			if a := adtTab[p.t.Sort]; a != nil && a.sort != SErr && !isNilC(p.t) && !seenT[p.t] {
				seenT[p.t] = true
				adts = append(adts, outv{name, p.t})
			}
			if p.t.Sort == SStr && !seenT[p.t] {
				seenT[p.t] = true
				if bt := strBytes(p.t); !seenT[bt] {
					seenT[bt] = true
					seqs = append(seqs, outv{name, bt})
				}
			}
		}
	}
	var keys []ssa.Value
	for v := range st.env {
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] && in.Block() != nil {
			if in.Parent() == st.fr.fn {
				continue
			}
		}
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	for _, v := range keys {
		addOut(v.Name(), st.env[v], v.Type())
		// fields of slice type reached by loads are in env already
	}
	// sequences indexed inside the loop through loads of immutable fields
	for bb := range body {
		for _, in := range bb.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if base, ok := st.env[fa.X]; ok {
								if v := x.tryLoad(st, base, fa); v != nil {
									addOut("field", v, nil)
								}
							}
						}
					}
				}
			}
		}
	}
	hasLen := map[*Term]bool{}
	for _, s := range seqs {
		hasLen[mkLen(s.t)] = true
	}
	for _, l := range li.locs {
		if l.all {
			continue
		}
		l := l
		e := li.entT[l]
		if e == nil {
			continue
		}
		lin := false
		if l.phi != nil {
			_, lin = li.lin[l.phi]
		}
		if !lin && l.ghost != "hist" && !(l.n != nil && isSharedNamed(l.n)) {
			add(&cand{name: l.name + " = entry", def: l, expr: func(*Term) *Term { return e }})
		}
		if sl, ok := li.ent[l].(VSl); ok && sl.cell == 0 && sl.nil_ != nil {
			n := sl.nil_
			add(&cand{name: l.name + " nil flag = entry", def: l, nilf: true, expr: func(*Term) *Term { return n }})
		}
		switch {
		case e.Sort == SInt:
			if _, isObj := li.ent[l].(VObj); isObj {
				break
			}
			if !lin {
				if l.typ != nil {
					add(&cand{name: l.name + " >= entry", arith: true, gen: func(s *State, k *Term) *Term {
						t := l.seqTerm(x, s)
						if t == nil {
							return nil
						}
						return mkGe(t, e)
					}})
					add(&cand{name: l.name + " >= 0", arith: true, gen: func(s *State, k *Term) *Term {
						t := l.seqTerm(x, s)
						if t == nil {
							return nil
						}
						return mkGe(t, mkInt(0))
					}})
				}
			}
			// upper bounds
			var tops []outv
			for _, s := range seqs {
				tops = append(tops, outv{"len(" + s.name + ")", mkLen(s.t)})
			}
			for _, s := range ints {
				tops = append(tops, s)
			}
			for _, tp := range tops {
				tp := tp
				for d := int64(0); d <= 1; d++ {
					d := d
					if d == 1 && !(e.isInt() && e.Lit.Sign() < 0) {
						continue
					}
					nm := fmt.Sprintf("bound %s+%d <= %s", l.name, d, tp.name)
					add(&cand{name: nm, arith: true, gen: func(s *State, k *Term) *Term {
						t := l.seqTerm(x, s)
						if t == nil {
							return nil
						}
						return mkLe(mkAdd(t, mkInt(d)), tp.t)
					}})
				}
			}
		case strings.HasPrefix(e.Sort, "(Seq ") && l.phi != nil || strings.HasPrefix(e.Sort, "(Seq "):
			if x.root != nil && x.root.NoDef {
				break
			}
			for _, s := range seqs {
				s := s
				if s.t.Sort != e.Sort {
					continue
				}
				add(&cand{name: fmt.Sprintf("%s = entry ++ %s[0:k]", l.name, s.name), def: l, expr: func(k *Term) *Term {
					return mkConcatS(e.Sort, e, mkExtract(s.t, mkInt(0), k))
				}})
			}
		}
		if isBoolish(e) {
			add(&cand{name: "not " + l.name, gen: func(s *State, k *Term) *Term {
				t := l.seqTerm(x, s)
				if t == nil {
					return nil
				}
				return mkNot(t)
			}})
		}
		if adtTab[e.Sort] != nil && l.typ != nil {
			add(&cand{name: l.name + " /= nil", gen: func(s *State, k *Term) *Term {
				t := l.seqTerm(x, s)
				if t == nil {
					return nil
				}
				return mkNot(mkEq(t, nilOf(t.Sort)))
			}})
		}
		if o, ok := li.ent[l].(VMap); ok && o.cell < 0 {
			add(&cand{name: l.name + " /= nil", gen: func(s *State, k *Term) *Term {
				if m, ok := l.get(x, s).(VMap); ok && m.cell < 0 {
					return mkNot(m.nil_)
				}
				return nil
			}})
		}
		if o, ok := li.ent[l].(VObj); ok {
			_ = o
			add(&cand{name: l.name + " /= nil", gen: func(s *State, k *Term) *Term {
				t := l.seqTerm(x, s)
				if t == nil {
					return nil
				}
				return mkNot(mkEq(t, mkInt(0)))
			}})
		}
	}
	// linear phis: k bounded through conditions such as (k = 0 or i <= T)
	for _, l := range li.locs {
		l := l
		if l.phi == nil {
			continue
		}
		if _, ok := li.lin[l.phi]; !ok {
			continue
		}
		for _, tp := range ints {
			tp := tp
			add(&cand{name: fmt.Sprintf("k=0 or %s <= %s", l.name, tp.name), arith: true, gen: func(s *State, k *Term) *Term {
				t := l.seqTerm(x, s)
				if t == nil {
					return nil
				}
				return mkOr(mkEq(k, mkInt(0)), mkLe(t, tp.t))
			}})
		}
	}
	// templates of the contract under verification
	if x.root != nil && x.pureDepth == 0 {
		invs := x.root.Invs
		if x.beh != nil {
			invs = append(invs[:len(invs):len(invs)], x.beh.Invs...)
		}
		for _, iv := range invs {
			if li.ranged == nil {
				li.ranged = map[*Term]bool{}
				for _, bd := range x.exitBounds(st, body) {
					for _, o := range seqs {
						if bd == mkLen(o.t) {
							li.ranged[o.t] = true
						}
					}
				}
			}
			x.instTemplates(st, li, iv, add, seqs2(append(seqs[:len(seqs):len(seqs)], empties...), func(o outv) (string, *Term) { return o.name, o.t }), seqs2(ints, func(o outv) (string, *Term) { return o.name, o.t }), seqs2(adts, func(o outv) (string, *Term) { return o.name, o.t }))
		}
	}
	return out
}

type nt struct {
	name string
	t    *Term
}

func seqs2[T any](in []T, f func(T) (string, *Term)) []nt {
	var out []nt
	for _, e := range in {
		n, t := f(e)
		out = append(out, nt{n, t})
	}
	return out
}

func isBoolish(t *Term) bool { return t.Sort == SBool }

func (x *Exec) tryLoad(st *State, base SVal, fa *ssa.FieldAddr) (v SVal) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(errUnsupported); ok {
				v = nil
				return
			}
			panic(r)
		}
	}()
	n := namedStructOf(fa.X.Type())
	if n == nil {
		return nil
	}
	return x.load(st, VPtrField{base, n, fa.Field}, fa.Type().Underlying().(*types.Pointer).Elem())
}

// exitBounds: loop-external values the exit conditions of the loop compare with
func (x *Exec) exitBounds(st *State, body map[*ssa.BasicBlock]bool) []*Term {
	var out []*Term
	for bb := range body {
		if len(bb.Instrs) == 0 {
			continue
		}
		iff, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.If)
		if !ok || body[bb.Succs[0]] && body[bb.Succs[1]] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, v := range []ssa.Value{c.X, c.Y} {
			if w, ok := st.env[v].(VT); ok && w.t.Sort == SInt && !w.t.isInt() {
				out = append(out, w.t)
			}
			if cl, ok := v.(*ssa.Call); ok && len(cl.Call.Args) == 1 {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if in, ok := cl.Call.Args[0].(ssa.Instruction); ok && body[in.Block()] {
						continue
					}
					if s, ok := x.val(st, cl.Call.Args[0]).(VSl); ok && s.cell == 0 && s.seq != nil {
						out = append(out, mkLen(s.seq))
					}
				}
			}
		}
	}
	return out
}

func (x *Exec) instTemplates(st *State, li *loopInfo, iv invT, add func(*cand), seqs, ints, adts []nt) {
	type choice struct {
		name string
		l    *loc
		t    *Term
	}
	var rec func(i int, ch []choice)
	rec = func(i int, ch []choice) {
		if i < len(iv.vars) {
			v := iv.vars[i]
			if strings.HasPrefix(v.name, "$") {
				pool := seqs
				if v.ty.sort == SInt {
					pool = ints
				} else if adtTab[v.ty.sort] != nil {
					pool = adts
				}
				var ranged []nt
				if v.ty.sort != SInt {
					for _, s := range pool {
						if s.t.Sort == v.ty.sort && li.ranged[s.t] {
							ranged = append(ranged, s)
						}
					}
				}
				if len(ranged) > 0 || strings.HasPrefix(v.name, "$$") && len(li.ranged) > 0 {
					pool = ranged // $$x: only the sequence the loop ranges over, when it is known
				}
				for _, s := range pool {
					if s.t.Sort == v.ty.sort && (v.ty.sort != SInt || v.ty.typ == nil || li.intTyp[s.t][v.ty.typ.String()]) {
						rec(i+1, append(ch[:len(ch):len(ch)], choice{v.name + ":=" + s.name, nil, s.t}))
					}
				}
				return
			}
			for _, l := range li.locs {
				if l.all || li.entT[l] == nil || li.entT[l].Sort != v.ty.sort {
					continue
				}
				if v.ty.sort == SInt && v.ty.typ != nil && (l.typ == nil || l.typ.Underlying().String() != v.ty.typ.String()) {
					continue
				}
				dup := false
				for _, c := range ch {
					if c.l == l {
						dup = true
					}
				}
				if dup {
					continue
				}
				rec(i+1, append(ch[:len(ch):len(ch)], choice{v.name + ":=" + l.name, l, nil}))
			}
			return
		}
		cs := append([]choice{}, ch...)
		var nm []string
		for _, c := range cs {
			nm = append(nm, c.name)
		}
		genOf := func(s *State, k *Term, e *sx) *Term {
			env := map[string]sv{}
			for n, b := range x.rootEnv {
				env[n] = b
			}
			env["k"] = termSV(k, mathInt())
			for j, c := range cs {
				ty := iv.vars[j].ty
				if c.l == nil {
					env[iv.vars[j].name] = svOf(c.t, ty)
					continue
				}
				t := c.l.seqTerm(x, s)
				if t == nil {
					return nil
				}
				if strings.HasPrefix(t.Sort, "(Seq ") {
					t = x.mergeSeq(s, t)
				}
				env[iv.vars[j].name] = svOf(t, ty)
				env["entry:"+iv.vars[j].name] = svOf(li.entT[c.l], ty)
			}
			cc := &specCtx{x: x, st: s, old: x.entry, env: env, loop: li.entSt}
			return cc.term(e)
		}
		gen := func(s *State, k *Term) *Term { return genOf(s, k, iv.body) }
		name := trunc(iv.body.String(), 140) + " with " + strings.Join(nm, ",")
		// defining equality (= ?x expr) with expr free of modified locations
		if iv.body.head() == "=" && !iv.body.list[1].isL && len(cs) >= 1 && cs[0].l != nil && iv.body.list[1].atom == iv.vars[0].name {
			free := true
			for _, c := range cs[1:] {
				if c.l != nil {
					free = false
				}
			}
			if free && !mentionsVar(iv.body.list[2], iv.vars[0].name) {
				l := cs[0].l
				add(&cand{name: name, user: true, def: l, expr: func(k *Term) *Term {
					env := map[string]sv{}
					for n, b := range x.rootEnv {
						env[n] = b
					}
					env["k"] = termSV(k, mathInt())
					for j, c := range cs {
						if c.l == nil {
							env[iv.vars[j].name] = svOf(c.t, iv.vars[j].ty)
						} else {
							env["entry:"+iv.vars[j].name] = svOf(li.entT[c.l], iv.vars[j].ty)
						}
					}
					cc := &specCtx{x: x, st: st, old: x.entry, env: env, loop: li.entSt}
					return cc.term(iv.body.list[2])
				}})
				return
			}
		}
		nc := &cand{name: name, user: true, gen: gen}
		if iv.body.head() == "=" && !iv.body.list[1].isL && !mentionsVar(iv.body.list[2], iv.body.list[1].atom) {
			for j, c := range cs {
				if c.l == nil {
					continue
				}
				if iv.vars[j].name == iv.body.list[1].atom {
					nc.soft = c.l
				} else if mentionsVar(iv.body.list[2], iv.vars[j].name) {
					nc.deps = append(nc.deps, c.l)
				}
			}
			nc.rhs = func(s *State, k *Term) (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(errUnsupported); !ok {
							panic(r)
						}
						t = nil
					}
				}()
				return genOf(s, k, iv.body.list[2])
			}
		}
		add(nc)
	}
	rec(0, nil)
}

// mentionsVar: occurrence other than (entry v)
func mentionsVar(s *sx, v string) bool {
	if !s.isL {
		return s.atom == v
	}
	if s.head() == "entry" {
		return false
	}
	for _, e := range s.list {
		if mentionsVar(e, v) {
			return true
		}
	}
	return false
}

// eachTerm is what the behavior says of every key m[key] the loop has passed
func (x *Exec) eachTerm(st *State, ea eachT, key *Term, kt types.Type) *Term {
	env := map[string]sv{}
	for n, v := range x.rootEnv {
		env[n] = v
	}
	g, ok := env[ea.name]
	if !ok || g.ty.typ == nil || !types.Identical(g.ty.typ, kt) {
		return nil
	}
	env[ea.name] = sv{st.fromTerm(key, kt), g.ty}
	return (&specCtx{x: x, st: st, old: x.entry, env: env}).term(ea.body)
}

// eachBack: the key of this iteration satisfies the each clauses
func (x *Exec) eachBack(e *State, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	for _, in := range b.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok || nx.IsString {
			continue
		}
		tp, ok := e.env[nx].(VTup)
		it, ok2 := x.val(e, nx.Iter).(VIter)
		if !ok || !ok2 {
			continue
		}
		m, ok := it.m.(VMap)
		if !ok || !m.shared() {
			continue
		}
		for _, ea := range x.beh.Each {
			s := e.clone()
			if t := x.eachTerm(s, ea, x.toTermNF(s, tp.vs[1], m.t.Key()), m.t.Key()); t != nil {
				x.oblig(s, "invariant", "every key passed: "+trunc(ea.body.String(), 80), t, headPos(b))
			}
		}
	}
}

// eachDone: when the loop ends it has passed every key
func (x *Exec) eachDone(st *State, m VMap, more *Term) {
	if st.fr.loops == nil || !st.fr.loops.each || !m.shared() {
		return
	}
	for _, ea := range x.beh.Each {
		g, ok := x.rootEnv[ea.name]
		if !ok || g.ty.typ == nil || !types.Identical(g.ty.typ, m.t.Key()) {
			continue
		}
		key := x.toTermNF(st, g.v, g.ty.typ)
		if t := x.eachTerm(st, ea, key, m.t.Key()); t != nil {
			op := optDecl(sortOf(m.t.Elem()))
			present := mkNot(mkEq(mkSelect(x.sharedContent(st, m), key), nilOf(op.sort)))
			st.assume(mkOr(more, mkNot(present), t))
		}
	}
}
