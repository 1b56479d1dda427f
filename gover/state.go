package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values ----

type SVal interface{}

type VT struct{ t *Term }
type VSl struct { // slice; cell>0: a view of the whole array cell (mutable backing)
	seq  *Term
	nil_ *Term
	cell int
}
type VSt struct {
	n  *types.Named
	fs []SVal
}
type VTup struct{ vs []SVal }
type VPtrCell struct{ id int }
type VPtrField struct {
	base SVal // VPtrCell | VObj | VT(adt) | VPtrField | VPtrIdx
	n    *types.Named
	i    int
}
type VPtrIdx struct {
	base SVal // VPtrCell (array) | VSl | VPtrField(array)
	i    *Term
}
type VObj struct {
	addr *Term
	n    *types.Named
}
type VClos struct {
	fn    *ssa.Function
	binds []SVal
}
type VMap struct {
	cell int
	t    *types.Map
	nil_ *Term
	id   *Term // opaque maps (cell < 0): its identity
}

// omEntry: the result of a lookup in an opaque map, valid until the next update or call
type omEntry struct {
	id, key, present *Term
	v                SVal
}

// opaqueOf is the opaque map with the given identity
func opaqueOf(m *types.Map, id *Term) VMap {
	fn := "mapnil_" + sanitizeSort(id.Sort)
	declFun(fn, []string{id.Sort}, SBool)
	return VMap{cell: -1, t: m, nil_: mkApp(fn, id), id: id}
}

func (s *State) newOpaque(m *types.Map, isNil *Term) VMap {
	v := opaqueOf(m, freshConst("map", mapSort(m)))
	if isNil != nil {
		s.assume(mkEq(v.nil_, isNil))
		v.nil_ = isNil
	}
	return v
}

type VGlobal struct{ g *ssa.Global }
type VIter struct {
	m  SVal
	id int
	// maps with contents: id is the cell of the entries passed so far, arr the contents at the start
	arr *Term
}

// ---- state ----

type hw struct {
	addr *Term
	val  SVal
}

type qfact struct {
	vars     []*Term
	triggers []*Term
	body     *Term
	label    string
}

type cellv struct {
	typ types.Type
	val SVal
}

type State struct {
	env    map[ssa.Value]SVal
	cells  map[int]cellv
	frozen map[int]bool
	heap   map[string][]hw
	hbase  map[string]int // base version
	facts  []*Term
	fset   map[*Term]bool
	lower  map[*Term]*big.Int // linear part (no const) -> lower bound
	rep    map[*Term]*Term
	nilf   map[*Term]*Term // seq term -> nil flag
	qfacts []qfact
	suff   map[*Term][]suffix
	fr     *Frame
	dead   bool
	trace  []string
	ghost  map[string]*Term
	wlog   []wrec
	om     []omEntry
}

// wrec is one logged memory write (for loop and frame analysis)
type wrec struct {
	cell  int
	n     *types.Named
	fi    int
	addr  *Term
	ghost string
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	onBack func(st *State, pred *ssa.BasicBlock)
	onExit func(st *State) bool // returns true to continue past the loop
	parent *loopCtx
	each   bool // changes neither the heap nor the files: what it checks of a key stays true
}

type deferred struct {
	call *ssa.CallCommon
	args []SVal
	fn   SVal
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	depth  int
	loops  *loopCtx
	defers []deferred
	visits map[*ssa.BasicBlock]int
}

func newState() *State {
	return &State{env: map[ssa.Value]SVal{}, cells: map[int]cellv{}, frozen: map[int]bool{}, heap: map[string][]hw{}, hbase: map[string]int{}, fset: map[*Term]bool{}, lower: map[*Term]*big.Int{}, rep: map[*Term]*Term{}, nilf: map[*Term]*Term{}, ghost: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[ssa.Value]SVal, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.cloneShared(s)
	return &n
}

func (n *State) cloneShared(s *State) {
	n.cells = make(map[int]cellv, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.frozen = make(map[int]bool, len(s.frozen))
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	n.heap = make(map[string][]hw, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v[:len(v):len(v)]
	}
	n.hbase = make(map[string]int, len(s.hbase))
	for k, v := range s.hbase {
		n.hbase[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.qfacts = s.qfacts[:len(s.qfacts):len(s.qfacts)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.wlog = s.wlog[:len(s.wlog):len(s.wlog)]
	n.om = s.om[:len(s.om):len(s.om)]
	n.fset = make(map[*Term]bool, len(s.fset)+8)
	for k, v := range s.fset {
		n.fset[k] = v
	}
	n.lower = make(map[*Term]*big.Int, len(s.lower)+8)
	for k, v := range s.lower {
		n.lower[k] = v
	}
	n.rep = make(map[*Term]*Term, len(s.rep))
	for k, v := range s.rep {
		n.rep[k] = v
	}
	n.nilf = make(map[*Term]*Term, len(s.nilf))
	for k, v := range s.nilf {
		n.nilf[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	if s.fr != nil {
		f := *s.fr
		f.defers = f.defers[:len(f.defers):len(f.defers)]
		n.fr = &f
	}
}

func splitConst(t *Term) (*Term, *big.Int) {
	l := newLin()
	l.add(t, one)
	c := new(big.Int).Set(l.c)
	l.c.SetInt64(0)
	return l.term(), c
}

// assume adds a fact; marks the state dead when it is syntactically contradictory
func (s *State) assume(t *Term) {
	if s.dead {
		return
	}
	switch t.Op {
	case "true":
		return
	case "false":
		s.dead = true
		return
	case "and":
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.fset[t] {
		return
	}
	if v, ok := s.decide(t); ok {
		if !v {
			s.dead = true
			s.facts = append(s.facts, t)
			return
		}
		if t.Op != "ge0" {
			// implied; keep it anyway for the solver when not syntactically present
		}
	}
	s.fset[t] = true
	s.facts = append(s.facts, t)
	switch t.Op {
	case "ge0":
		lp, c := splitConst(t.Args[0])
		b := new(big.Int).Neg(c) // lp >= -c
		if o, ok := s.lower[lp]; !ok || o.Cmp(b) < 0 {
			s.lower[lp] = b
		}
	case "=":
		a, b := t.Args[0], t.Args[1]
		s.noteSuffix(a, b)
		if a.Sort == SInt {
			d := mkSub(a, b)
			for _, x := range []*Term{d, mkMul(mkInt(-1), d)} {
				lp, c := splitConst(x)
				bb := new(big.Int).Neg(c)
				if o, ok := s.lower[lp]; !ok || o.Cmp(bb) < 0 {
					s.lower[lp] = bb
				}
			}
		}
		if isMk(b) || isNilC(b) || b.isInt() || strLits[b] != nil {
			s.rep[a] = b
		} else if isMk(a) || isNilC(a) || strLits[a] != nil {
			s.rep[b] = a
		} else if isJoin(b) && !isJoin(a) {
			s.rep[a] = b
		} else if isJoin(a) && !isJoin(b) {
			s.rep[b] = a
		}
	}
}

func isJoin(t *Term) bool { return t.Op == "uf" && t.Name == "pathjoin" }

func (s *State) lb(t *Term) *big.Int { // lower bound of a linear term, nil if unknown
	l := newLin()
	l.add(t, one)
	// whole linear part known?
	c := new(big.Int).Set(l.c)
	l.c.SetInt64(0)
	lp := l.term()
	var best *big.Int
	if b, ok := s.lower[lp]; ok {
		best = new(big.Int).Add(b, c)
	}
	sum := new(big.Int).Set(c)
	for k, co := range l.co {
		var b *big.Int
		if co.Sign() > 0 {
			b = s.atomLB(k)
		} else {
			if u := s.atomUB(k); u != nil {
				b = u
			}
		}
		if b == nil {
			return best
		}
		sum.Add(sum, new(big.Int).Mul(co, b))
	}
	if best == nil || sum.Cmp(best) > 0 {
		best = sum
	}
	return best
}

func (s *State) atomLB(k *Term) *big.Int {
	if b, ok := s.lower[k]; ok {
		if nonNeg(k) && b.Sign() < 0 {
			return new(big.Int)
		}
		return b
	}
	if nonNeg(k) {
		return new(big.Int)
	}
	if k.Op == "ite" {
		a, b := s.lb(k.Args[1]), s.lb(k.Args[2])
		if a != nil && b != nil {
			if a.Cmp(b) < 0 {
				return a
			}
			return b
		}
	}
	return nil
}

var maxLen = new(big.Int).Lsh(one, 62)

func (s *State) atomUB(k *Term) *big.Int {
	m := mkMul(mkInt(-1), k)
	var best *big.Int
	if b, ok := s.lower[m]; ok {
		best = new(big.Int).Neg(b)
	}
	if k.Op == "seq.len" {
		if best == nil || maxLen.Cmp(best) < 0 {
			best = maxLen
		}
	}
	if k.Op == "mod" && k.Args[1].isInt() {
		u := new(big.Int).Sub(k.Args[1].Lit, one)
		if best == nil || u.Cmp(best) < 0 {
			best = u
		}
	}
	if k.Op == "ite" && best == nil {
		a, b := s.ub(k.Args[1]), s.ub(k.Args[2])
		if a != nil && b != nil {
			if a.Cmp(b) > 0 {
				return a
			}
			return b
		}
	}
	return best
}

func (s *State) ub(t *Term) *big.Int {
	b := s.lb(mkMul(mkInt(-1), t))
	if b == nil {
		return nil
	}
	return new(big.Int).Neg(b)
}

func (s *State) decide(t *Term) (bool, bool) {
	switch t.Op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, ok := s.decide(t.Args[0])
		return !v, ok
	case "and":
		all := true
		for _, a := range t.Args {
			v, ok := s.decide(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "or":
		all := true
		for _, a := range t.Args {
			v, ok := s.decide(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	if s.fset[t] {
		return true, true
	}
	if s.fset[mkNot(t)] {
		return false, true
	}
	switch t.Op {
	case "ge0":
		if b := s.lb(t.Args[0]); b != nil && b.Sign() >= 0 {
			return true, true
		}
		if b := s.ub(t.Args[0]); b != nil && b.Sign() < 0 {
			return false, true
		}
	case "=":
		a, b := t.Args[0], t.Args[1]
		if a.Sort == SInt {
			d := mkSub(a, b)
			if l := s.lb(d); l != nil && l.Sign() > 0 {
				return false, true
			}
			if u := s.ub(d); u != nil && u.Sign() < 0 {
				return false, true
			}
		}
		ra, rb := s.repOf(a), s.repOf(b)
		if ra != a || rb != b {
			e := mkEq(ra, rb)
			if e == tTrue {
				return true, true
			}
			if e == tFalse {
				return false, true
			}
			if e != t {
				if s.fset[e] {
					return true, true
				}
				if s.fset[mkNot(e)] {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (s *State) repOf(t *Term) *Term {
	for i := 0; i < 8; i++ {
		r, ok := s.rep[t]
		if !ok {
			return t
		}
		t = r
	}
	return t
}

var cellCnt = 0

func (s *State) newCell(t types.Type, v SVal) int {
	cellCnt++
	s.cells[cellCnt] = cellv{t, v}
	return cellCnt
}

var objCnt = 0

func freshObj(n *types.Named) VObj {
	objCnt++
	return VObj{mkInt(int64(-objCnt)), n}
}

func heapKey(n *types.Named, i int) string {
	st := n.Underlying().(*types.Struct)
	return typeMangle(n) + "." + st.Field(i).Name()
}

func (s *State) heapWrite(key string, addr *Term, v SVal) {
	l := s.heap[key]
	s.heap[key] = append(l[:len(l):len(l)], hw{addr, v})
}

func dbg(f string, a ...interface{}) {
	if debugOn {
		fmt.Printf(f+"\n", a...)
	}
}

var debugOn = false
