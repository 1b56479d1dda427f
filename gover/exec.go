package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name   string
	Kind   string
	Pos    string
	facts  []*Term
	qfacts []qfact
	goal   *Term
	Status string
	Solver string
	Ms     int64
	Model  string
	Query  string
	group  string
}

type Exec struct {
	wrapName  map[*Term]*Term
	bad       map[string]int // candidates that failed before, by loop (contracts with shapes)
	K         *contracts
	root      *Contract
	beh       *Behavior
	rootFn    *ssa.Function
	reach     map[int][]*State
	obls      []*Obl
	record    bool
	weak      int // >0: nested loops are handled without invariants
	assumps   map[string]bool
	used      map[string]bool // "key:behavior" used at call sites
	inlined   map[string]bool
	models    map[string]bool
	paths     int
	entry     *State
	rootEnv   map[string]binding
	rets      []*State // states at (normal) return, for reachability
	havocked  map[string]bool
	loopInfo  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	houdini   int
	S         *solver
	loopLog   []string
	steps     int
	pureDepth int
}

const maxPaths = 60000

type cont func(st *State, res []SVal)

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := P.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/libs/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblig(st *State, kind, name string, goal *Term, p token.Pos) {
	if st.dead || x.pureDepth > 0 {
		return
	}
	if v, ok := st.decide(goal); ok && v {
		if x.record {
			x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Pos: x.pos(p), goal: goal, Status: "discharged", Solver: "syntactic"})
		}
		return
	}
	if x.record {
		x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Pos: x.pos(p), facts: st.facts, qfacts: st.qfacts, goal: goal})
	}
	st.assume(goal)
}

// safety obligations (no run-time panic)
func (x *Exec) safe(st *State, what string, goal *Term, p token.Pos) {
	if x.pureDepth > 0 {
		return
	}
	if x.beh != nil && x.beh.NoSafety {
		st.assume(goal)
		return
	}
	x.oblig(st, "safety", what, goal, p)
}

func (x *Exec) val(st *State, v ssa.Value) SVal {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return VClos{fn: v}
	case *ssa.Global:
		return VGlobal{v}
	case *ssa.Builtin:
		return v
	}
	r, ok := st.env[v]
	if !ok {
		panic(unsupported("no value for %s (%s) in %s", v.Name(), v, v.Parent()))
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) *Term { return x.toTermNF(st, x.val(st, v), v.Type()) }

// ---- functions ----

func (x *Exec) callBody(st *State, fn *ssa.Function, args []SVal, binds []SVal, k cont) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for %s", fn))
	}
	depth := 0
	if st.fr != nil {
		depth = st.fr.depth + 1
		n := 0
		for f := st.fr; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n > 0 {
			panic(unsupported("recursive call of %s without a contract", shortKey(funcKey(fn))))
		}
	}
	if depth > 40 {
		panic(unsupported("inlining depth exceeded at %s", fn))
	}
	if depth > 0 && inRepoFn(fn) {
		x.inlined[shortKey(funcKey(fn))] = true
	}
	savedEnv := st.env
	savedFr := st.fr
	ns := st
	ns.env = make(map[ssa.Value]SVal, 16)
	for i, p := range fn.Params {
		ns.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		ns.env[fv] = binds[i]
	}
	ns.fr = &Frame{fn: fn, parent: savedFr, depth: depth}
	x.block(ns, fn.Blocks[0], nil, func(rs *State, res []SVal) {
		env := make(map[ssa.Value]SVal, len(savedEnv)+4)
		for kk, v := range savedEnv {
			env[kk] = v
		}
		rs.env = env
		rs.fr = savedFr
		if savedFr != nil {
			f := *savedFr // every path gets its own frame
			rs.fr = &f
		}
		k(rs, res)
	})
}

func inRepoFn(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

func (x *Exec) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[c] {
						continue
					}
					body[c] = true
					stack = append(stack, c.Preds...)
				}
			}
		}
	}
	x.loopInfo[fn] = l
	return l
}

// goTo transfers control from pred to b
func (x *Exec) goTo(st *State, pred, b *ssa.BasicBlock, k cont) {
	if st.dead {
		return
	}
	// leave loops not containing b
	for st.fr.loops != nil && !st.fr.loops.body[b] {
		lc := st.fr.loops
		if !lc.onExit(st) {
			return
		}
		f := *st.fr
		f.loops = lc.parent
		st.fr = &f
	}
	if lp, ok := x.loops(st.fr.fn)[b]; ok {
		if st.fr.loops != nil && st.fr.loops.header == b {
			st.fr.loops.onBack(st, pred)
			return
		}
		x.loop(st, b, lp, pred, k)
		return
	}
	x.block(st, b, pred, k)
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	panic("pred")
}

func (x *Exec) block(st *State, b, pred *ssa.BasicBlock, k cont) {
	// phis
	if pred != nil {
		pi := predIndex(b, pred)
		vals := map[*ssa.Phi]SVal{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[ph] = x.val(st, ph.Edges[pi])
		}
		for ph, v := range vals {
			st.env[ph] = v
		}
	}
	if smoke && x.record && b.Parent() == x.rootFn && !st.dead {
		if x.reach == nil {
			x.reach = map[int][]*State{}
		}
		if len(x.reach[b.Index]) < 10 {
			x.reach[b.Index] = append(x.reach[b.Index], st.clone())
		}
	}
	x.instrs(st, b, 0, k)
}

// smoke (GOVER_SMOKE=FILE): append the blocks of the function that no path reaches under the assumptions
var smoke = os.Getenv("GOVER_SMOKE") != ""

func (x *Exec) smokeReport(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		p := token.NoPos
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				p = in.Pos()
				break
			}
		}
		live, why := false, "no path"
		for _, s := range x.reach[b.Index] {
			why = "contradictory"
			v, _, _ := theSolver.solve(printQuery(x.K.instantiate(s.facts, s.qfacts, tFalse, x.opts())), 1500)
			if v != "unsat" {
				live = true
				break
			}
		}
		if _, hdr := x.loops(fn)[b]; !live && !hdr {
			f, err := os.OpenFile(os.Getenv("GOVER_SMOKE"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				return
			}
			fmt.Fprintf(f, "SMOKE %s block %d (%s) %s: %s\n", shortKey(fn.String()), b.Index, b.Comment, x.pos(p), why)
			f.Close()
		}
	}
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, from int, k cont) {
	for i := from; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.steps++
		if x.steps > 4000000 {
			panic(unsupported("step budget exceeded"))
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			x.goTo(st, b, b.Succs[0], k)
			return
		case *ssa.If:
			c := x.term(st, in.Cond)
			if v, ok := st.decide(c); ok {
				if v {
					x.goTo(st, b, b.Succs[0], k)
				} else {
					x.goTo(st, b, b.Succs[1], k)
				}
				return
			}
			x.paths++
			if x.paths > maxPaths {
				panic(unsupported("too many paths"))
			}
			s2 := st.clone()
			st.assume(c)
			s2.assume(mkNot(c))
			x.goTo(st, b, b.Succs[0], k)
			x.goTo(s2, b, b.Succs[1], k)
			return
		case *ssa.Return:
			var res []SVal
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			// leaving loops by return
			for st.fr.loops != nil {
				lc := st.fr.loops
				if !lc.onExit(st) {
					return
				}
				f := *st.fr
				f.loops = lc.parent
				st.fr = &f
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.safe(st, "panic unreachable", tFalse, in.Pos())
			return
		case *ssa.RunDefers:
			ds := st.fr.defers
			if len(ds) == 0 {
				continue
			}
			f := *st.fr
			f.defers = nil
			st.fr = &f
			rest := i + 1
			var run func(s *State, j int)
			run = func(s *State, j int) {
				if j < 0 {
					x.instrs(s, b, rest, k)
					return
				}
				x.call(s, ds[j].call, ds[j].fn, ds[j].args, in.Pos(), func(s2 *State, _ []SVal) { run(s2, j-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.Call:
			fnv, args := x.callArgs(st, &in.Call)
			x.call(st, &in.Call, fnv, args, in.Pos(), func(s *State, res []SVal) {
				switch in.Call.Signature().Results().Len() {
				case 0:
				case 1:
					s.env[in] = res[0]
				default:
					s.env[in] = VTup{res}
				}
				x.instrs(s, b, i+1, k)
			})
			return
		case *ssa.Defer:
			fnv, args := x.callArgs(st, &in.Call)
			f := *st.fr
			f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{&in.Call, args, fnv})
			st.fr = &f
		case *ssa.DebugRef:
		default:
			x.instr(st, in)
		}
	}
}

func (x *Exec) callArgs(st *State, c *ssa.CallCommon) (SVal, []SVal) {
	var args []SVal
	var fnv SVal
	if c.IsInvoke() {
		args = append(args, x.val(st, c.Value))
	} else {
		fnv = x.val(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return fnv, args
}

func (x *Exec) nonNilGoal(v SVal) *Term {
	switch v := v.(type) {
	case VObj:
		return mkNot(mkEq(v.addr, mkInt(0)))
	case VT:
		if adtTab[v.t.Sort] != nil {
			return mkNot(mkEq(v.t, nilOf(v.t.Sort)))
		}
		return mkNot(mkEq(v.t, mkConst("nil_"+v.t.Sort, v.t.Sort)))
	}
	return tTrue
}

func (x *Exec) instr(st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if n := namedStructOf(types.NewPointer(t)); n != nil && inRepo(n) && P.mut[n] && ti(t).k == kStruct {
			o := freshObj(n)
			s := n.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				st.heapWrite(heapKey(n, i), o.addr, x.zero(st, s.Field(i).Type()))
			}
			st.env[in] = o
			return
		}
		if a, ok := types.Unalias(t).Underlying().(*types.Array); ok && a.Len() <= 64 {
			var el []SVal
			for j := int64(0); j < a.Len(); j++ {
				el = append(el, x.zero(st, a.Elem()))
			}
			st.env[in] = VPtrCell{st.newCell(t, VArr{el})}
			return
		}
		st.env[in] = VPtrCell{st.newCell(t, x.zero(st, t))}
	case *ssa.Store:
		v := x.val(st, in.Val)
		p := x.val(st, in.Addr)
		if g, ok := p.(VGlobal); ok {
			panic(unsupported("store to package variable %s", g.g))
		}
		x.derefCheck(st, p, in.Pos())
		x.store(st, p, v, in.Val.Type())
	case *ssa.UnOp:
		x.unop(st, in)
	case *ssa.BinOp:
		st.env[in] = x.binop(st, in.Op, in.X, in.Y, in.Type(), in.Pos())
	case *ssa.FieldAddr:
		base := x.val(st, in.X)
		n := namedStructOf(in.X.Type())
		if n == nil {
			panic(unsupported("field of anonymous struct"))
		}
		x.derefCheck(st, base, in.Pos())
		st.env[in] = VPtrField{base, n, in.Field}
	case *ssa.Field:
		v := x.val(st, in.X)
		if s, ok := v.(VSt); ok {
			st.env[in] = s.fs[in.Field]
			return
		}
		panic(unsupported("field of %T", v))
	case *ssa.IndexAddr:
		base := x.val(st, in.X)
		idx := x.term(st, in.Index)
		var l *Term
		switch b := base.(type) {
		case VSl:
			l = mkLen(x.sliceTerm(st, b))
		case VPtrCell:
			l = mkInt(types.Unalias(st.cells[b.id].typ).Underlying().(*types.Array).Len())
		default:
			panic(unsupported("index address of %T", base))
		}
		x.safe(st, "index in range", mkAnd(mkGe(idx, mkInt(0)), mkLt(idx, l)), in.Pos())
		st.env[in] = VPtrIdx{base, idx}
	case *ssa.Index:
		base := x.val(st, in.X)
		idx := x.term(st, in.Index)
		if s, ok := base.(VT); ok && strings.HasPrefix(s.t.Sort, "(Seq ") {
			x.safe(st, "index in range", mkAnd(mkGe(idx, mkInt(0)), mkLt(idx, mkLen(s.t))), in.Pos())
			st.env[in] = st.fromTerm(st.normNth(s.t, idx), in.Type())
			return
		}
		if a, ok := base.(VArr); ok && idx.isInt() {
			st.env[in] = a.el[idx.Lit.Int64()]
			return
		}
		if s, ok := base.(VT); ok && s.t.Sort == SStr {
			b := strBytes(s.t)
			x.safe(st, "index in range", mkAnd(mkGe(idx, mkInt(0)), mkLt(idx, mkLen(b))), in.Pos())
			st.env[in] = st.fromTerm(st.normNth(b, idx), in.Type())
			return
		}
		panic(unsupported("index of %T", base))
	case *ssa.Slice:
		x.slice(st, in)
	case *ssa.MakeSlice:
		n := x.term(st, in.Len)
		x.safe(st, "make: length not negative", mkGe(n, mkInt(0)), in.Pos())
		et := elemType(in.Type())
		at := types.NewSlice(et)
		c := freshConst("mk", sortOf(at))
		if in.Cap != nil {
			if cp := x.term(st, in.Cap); cp != n {
				x.safe(st, "make: capacity not below length", mkGe(cp, n), in.Pos())
			}
		}
		if n.isInt() && n.Lit.Sign() == 0 {
			st.env[in] = VSl{seq: mkEmpty(sortOf(at)), nil_: tFalse}
			return
		}
		st.assume(mkEq(mkLen(c), n))
		declFun("zeros", []string{SInt}, SByt)
		if sortOf(at) == SByt {
			st.assume(mkEq(c, mkApp("zeros", n)))
		}
		st.env[in] = VSl{cell: st.newCell(at, VT{c}), nil_: tFalse}
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		i := ti(in.Type())
		if sharedMap(in.Type()) {
			objCnt++
			v := VMap{cell: -2, t: m, nil_: tFalse, id: mkInt(int64(-objCnt))}
			x.setShared(st, v, emptyMap(mapSort(m)))
			st.env[in] = v
			return
		}
		if opaqueMap(m) {
			st.env[in] = st.newOpaque(m, tFalse)
			return
		}
		st.env[in] = VMap{cell: st.newCell(in.Type(), VT{emptyMap(i.sort)}), t: m, nil_: tFalse}
	case *ssa.MapUpdate:
		m := x.val(st, in.Map).(VMap)
		x.safe(st, "assignment to entry in nil map", mkNot(m.nil_), in.Pos())
		x.mapUpdate(st, m, x.term(st, in.Key), x.val(st, in.Value))
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.Extract:
		t := x.val(st, in.Tuple).(VTup)
		st.env[in] = t.vs[in.Index]
	case *ssa.MakeInterface:
		st.env[in] = x.makeIface(st, in)
	case *ssa.ChangeType:
		st.env[in] = x.val(st, in.X)
	case *ssa.ChangeInterface:
		v := x.val(st, in.X)
		if sortOf(in.Type()) != sortOf(in.X.Type()) {
			st.env[in] = VT{x.box(st, v, in.X.Type(), in.Type())}
			return
		}
		st.env[in] = v
	case *ssa.Convert:
		st.env[in] = x.convert(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		x.typeAssert(st, in)
	case *ssa.MakeClosure:
		var b []SVal
		for _, v := range in.Bindings {
			b = append(b, x.val(st, v))
		}
		st.env[in] = VClos{in.Fn.(*ssa.Function), b}
	case *ssa.Range:
		it := VIter{m: x.val(st, in.X)}
		if m, ok := it.m.(VMap); ok && m.shared() {
			// the entries the loop has passed (ghost)
			it.id = st.newCell(sharedType(m.t), VT{emptyMap(mapSort(m.t))})
			it.arr = x.sharedContent(st, m)
		}
		st.env[in] = it
	case *ssa.Next:
		x.next(st, in)
	default:
		panic(unsupported("instruction %T at %s", in, x.pos(in.Pos())))
	}
}

func (x *Exec) derefCheck(st *State, p SVal, pos token.Pos) {
	switch p.(type) {
	case VObj, VT:
		g := x.nonNilGoal(p)
		x.safe(st, "nil dereference", g, pos)
	}
}

func (x *Exec) unop(st *State, in *ssa.UnOp) {
	switch in.Op {
	case token.MUL:
		p := x.val(st, in.X)
		x.derefCheck(st, p, in.Pos())
		if vp, ok := p.(VObj); ok && ti(in.Type()).k == kStruct {
			n := vp.n
			var fs []SVal
			for i := 0; i < n.Underlying().(*types.Struct).NumFields(); i++ {
				fs = append(fs, x.heapRead(st, n, i, vp.addr))
			}
			st.env[in] = VSt{n, fs}
			return
		}
		st.env[in] = x.load(st, p, in.Type())
	case token.NOT:
		st.env[in] = VT{mkNot(x.term(st, in.X))}
	case token.SUB:
		if ti(in.Type()).k != kInt {
			st.env[in] = x.havoc(st, "neg", in.Type())
			return
		}
		st.env[in] = VT{x.wrap(st, mkSub(mkInt(0), x.term(st, in.X)), in.Type())}
	default:
		panic(unsupported("unary %s", in.Op))
	}
}

func (x *Exec) havoc(st *State, name string, t types.Type) SVal {
	return st.freshVal("hv_"+name, t)
}

// wrap models two's complement of the Go type unless the value is provably in range
func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	w := x.wrapIte(st, t, typ)
	if x.root == nil || !x.root.Wraps || w == t || w.isInt() {
		return w
	}
	if x.wrapName == nil {
		x.wrapName = map[*Term]*Term{}
	}
	n := x.wrapName[w]
	if n == nil {
		n = freshConst("wrap", SInt)
		x.wrapName[w] = n
	}
	lo, hi := intRange(ti(typ))
	st.assume(mkAnd(mkGe(n, mkBig(lo)), mkLe(n, mkBig(hi))))
	st.assume(mkEq(n, w))
	return n
}

func (x *Exec) wrapIte(st *State, t *Term, typ types.Type) *Term {
	i := ti(typ)
	lo, hi := intRange(i)
	if t.isInt() {
		if t.Lit.Cmp(lo) >= 0 && t.Lit.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Mod(t.Lit, two(uint(i.bits)))
		if m.Cmp(hi) > 0 {
			m.Sub(m, two(uint(i.bits)))
		}
		return mkBig(m)
	}
	g := mkAnd(mkGe(t, mkBig(lo)), mkLe(t, mkBig(hi)))
	if v, ok := st.decide(g); ok && v {
		return t
	}
	if x.S.quick(st, g) {
		st.assume(g)
		return t
	}
	m := mkBig(two(uint(i.bits)))
	// single wrap-around suffices when |t| < 2^bits beyond the range; otherwise use mod
	if v, ok := st.decide(mkAnd(mkGe(t, mkSub(mkBig(lo), m)), mkLe(t, mkAdd(mkBig(hi), m)))); ok && v {
		if v, ok := st.decide(mkGe(t, mkBig(lo))); ok && v {
			return mkIte(mkGt(t, mkBig(hi)), mkSub(t, m), t)
		}
		if v, ok := st.decide(mkLe(t, mkBig(hi))); ok && v {
			return mkIte(mkLt(t, mkBig(lo)), mkAdd(t, m), t)
		}
		return mkIte(mkLt(t, mkBig(lo)), mkAdd(t, m), mkIte(mkGt(t, mkBig(hi)), mkSub(t, m), t))
	}
	r := mkMod(t, m)
	if i.sign {
		r = mkIte(mkGt(r, mkBig(hi)), mkSub(r, m), r)
	}
	return mkIte(g, t, r)
}

func (x *Exec) binop(st *State, op token.Token, a, b ssa.Value, typ types.Type, pos token.Pos) SVal {
	ta := ti(a.Type())
	switch op {
	case token.EQL, token.NEQ:
		e := x.eq(st, x.val(st, a), x.val(st, b), a.Type(), b.Type(), pos)
		if op == token.NEQ {
			e = mkNot(e)
		}
		return VT{e}
	}
	if ta.k == kInt {
		l, r := x.term(st, a), x.term(st, b)
		switch op {
		case token.ADD:
			return VT{x.wrap(st, mkAdd(l, r), typ)}
		case token.SUB:
			return VT{x.wrap(st, mkSub(l, r), typ)}
		case token.MUL:
			return VT{x.wrap(st, mkMul(l, r), typ)}
		case token.QUO, token.REM:
			x.safe(st, "division by zero", mkNot(mkEq(r, mkInt(0))), pos)
			pos1, ok := st.decide(mkGe(l, mkInt(0)))
			pos2, ok2 := st.decide(mkGe(r, mkInt(1)))
			var q *Term
			if ok && pos1 && ok2 && pos2 {
				if op == token.REM {
					return VT{mkMod(l, r)}
				}
				if l == r {
					return VT{mkInt(1)}
				}
				q = mkDiv(l, r)
				if !r.isInt() {
					m := mkMul(r, q)
					st.assume(mkAnd(mkGe(q, mkInt(0)), mkLe(q, l), mkLe(m, l), mkLt(l, mkAdd(m, r))))
				}
				return VT{q}
			}
			// truncated division
			declAbs := func(t *Term) *Term { return mkIte(mkGe(t, mkInt(0)), t, mkSub(mkInt(0), t)) }
			al, ar := declAbs(l), declAbs(r)
			if op == token.QUO {
				q = mkDiv(al, ar)
				neg := mkNot(mkEq(mkGe(l, mkInt(0)), mkGe(r, mkInt(0))))
				return VT{x.wrap(st, mkIte(neg, mkSub(mkInt(0), q), q), typ)}
			}
			m := mkMod(al, ar)
			return VT{mkIte(mkGe(l, mkInt(0)), m, mkSub(mkInt(0), m))}
		case token.LSS:
			return VT{mkLt(l, r)}
		case token.LEQ:
			return VT{mkLe(l, r)}
		case token.GTR:
			return VT{mkGt(l, r)}
		case token.GEQ:
			return VT{mkGe(l, r)}
		case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			n := map[token.Token]string{token.AND: "bits_and", token.OR: "bits_or", token.XOR: "bits_xor", token.AND_NOT: "bits_andnot", token.SHL: "bits_shl", token.SHR: "bits_shr"}[op]
			declFun(n, []string{SInt, SInt}, SInt)
			if op == token.AND && l.id > r.id {
				l, r = r, l
			}
			t := mkApp(n, l, r)
			st.typeFacts(t, typ)
			if op == token.SHL && r.isInt() && r.Lit.IsInt64() && r.Lit.Int64() < 63 {
				return VT{x.wrap(st, mkMul(l, mkBig(two(uint(r.Lit.Int64())))), typ)}
			}
			return VT{t}
		}
	}
	if ta.k == kBool {
		l, r := x.term(st, a), x.term(st, b)
		switch op {
		case token.AND, token.LAND:
			return VT{mkAnd(l, r)}
		case token.OR, token.LOR:
			return VT{mkOr(l, r)}
		}
	}
	if ta.k == kStr {
		l, r := x.term(st, a), x.term(st, b)
		if op == token.ADD {
			return VT{mkStrCat(l, r)}
		}
		declFun("str_lt", []string{SStr, SStr}, SBool)
		switch op {
		case token.LSS:
			return VT{mkApp("str_lt", l, r)}
		case token.GTR:
			return VT{mkApp("str_lt", r, l)}
		case token.LEQ:
			return VT{mkNot(mkApp("str_lt", r, l))}
		case token.GEQ:
			return VT{mkNot(mkApp("str_lt", l, r))}
		}
	}
	if ta.sort == "Flt" {
		n := "flt_" + op.String()
		rs := sortOf(typ)
		declFun("flt:"+op.String(), []string{"Flt", "Flt"}, rs)
		_ = n
		return VT{mkApp("flt:"+op.String(), x.term(st, a), x.term(st, b))}
	}
	panic(unsupported("binop %s on %s", op, a.Type()))
}

func (x *Exec) isNilConst(v SVal, t types.Type) bool {
	switch v := v.(type) {
	case VSl:
		return v.nil_ == tTrue && v.cell == 0
	case VT:
		return isNilC(v.t)
	case VObj:
		return v.addr.isInt() && v.addr.Lit.Sign() == 0
	case VMap:
		return v.nil_ == tTrue
	}
	return false
}

func (x *Exec) eq(st *State, a, b SVal, ta, tb types.Type, pos token.Pos) *Term {
	if x.isNilConst(a, ta) && !x.isNilConst(b, tb) {
		a, b, ta, tb = b, a, tb, ta
	}
	if x.isNilConst(b, tb) {
		switch v := a.(type) {
		case VSl:
			if v.cell > 0 {
				return tFalse
			}
			return v.nil_
		case VPtrCell, VPtrField, VPtrIdx, VClos:
			return tFalse
		case VMap:
			return v.nil_
		case VObj:
			return mkEq(v.addr, mkInt(0))
		case VT:
			return mkEq(v.t, nilOf(v.t.Sort))
		}
	}
	ka := ti(ta).k
	switch ka {
	case kADT, kOpt:
		panic(unsupported("pointer identity comparison at %s", x.pos(pos)))
	case kInt, kBool, kStr, kObj, kErr:
		return mkEq(x.toTermNF(st, a, ta), x.toTermNF(st, b, tb))
	case kOpaque:
		la, lb := x.toTermNF(st, a, ta), x.toTermNF(st, b, tb)
		if la.Sort == lb.Sort {
			if la.Sort == "Flt" {
				declFun("flt_eq", []string{"Flt", "Flt"}, SBool)
				return mkApp("flt_eq", la, lb)
			}
			return mkEq(la, lb)
		}
	case kStruct, kArray:
		return mkEq(x.toTermNF(st, a, ta), x.toTermNF(st, b, tb))
	}
	panic(unsupported("equality on %s", ta))
}

func (x *Exec) slice(st *State, in *ssa.Slice) {
	base := x.val(st, in.X)
	if s, ok := base.(VT); ok && s.t.Sort == SStr {
		b := strBytes(s.t)
		lo, hi := mkInt(0), mkLen(b)
		if in.Low != nil {
			lo = x.term(st, in.Low)
		}
		if in.High != nil {
			hi = x.term(st, in.High)
		}
		x.safe(st, "slice bounds", mkAnd(mkGe(lo, mkInt(0)), mkLe(lo, hi), mkLe(hi, mkLen(b))), in.Pos())
		st.env[in] = VT{strOfBytes(st.normExtract(b, lo, mkSub(hi, lo), 0))}
		return
	}
	var seq *Term
	cell := 0
	switch b := base.(type) {
	case VSl:
		seq = x.sliceTerm(st, b)
		cell = b.cell
	case VPtrCell:
		seq = x.toTermNF(st, st.cells[b.id].val, st.cells[b.id].typ)
		cell = b.id
	default:
		panic(unsupported("slice of %T", base))
	}
	n := mkLen(seq)
	lo, hi := mkInt(0), n
	if in.Low != nil {
		lo = x.term(st, in.Low)
	}
	if in.High != nil {
		hi = x.term(st, in.High)
	}
	if in.Max != nil {
		panic(unsupported("3-index slice"))
	}
	if in.Low == nil && in.High == nil && cell > 0 {
		st.env[in] = VSl{cell: cell, nil_: tFalse}
		return
	}
	// NOTE: Go allows hi up to cap; requiring hi <= len is stronger (sound for safety, stated in DESIGN)
	if in.High == nil {
		x.safe(st, "slice bounds", mkAnd(mkGe(lo, mkInt(0)), mkLe(lo, n)), in.Pos())
	} else {
		x.safe(st, "slice bounds", mkAnd(mkGe(lo, mkInt(0)), mkLe(lo, hi), mkLe(hi, n)), in.Pos())
	}
	if cell > 0 {
		if n.isInt() && hi == n && lo.isInt() && lo.Lit.Sign() == 0 {
			st.env[in] = VSl{cell: cell, nil_: tFalse}
			return
		}
		st.frozen[cell] = true
	}
	nl := tFalse
	if b, ok := base.(VSl); ok && b.cell == 0 {
		nl = b.nil_
	}
	st.env[in] = VSl{seq: st.normExtract(seq, lo, mkSub(hi, lo), 0), nil_: nl}
}

// ---- maps ----

func (x *Exec) mapUpdate(st *State, m VMap, key *Term, v SVal) {
	if m.shared() {
		if o, ok := v.(VObj); ok {
			x.safe(st, "no nil pointer stored in a map", mkNot(mkEq(o.addr, mkInt(0))), 0)
		}
		if ti(m.t.Elem()).k == kADT {
			t := x.toTerm(st, v, m.t.Elem())
			x.safe(st, "no nil pointer stored in a map", mkNot(mkEq(t, nilOf(t.Sort))), 0)
		}
		a := optDecl(sortOf(m.t.Elem()))
		x.setShared(st, m, mkStore(x.sharedContent(st, m), key, mkCons(a, x.toTerm(st, v, m.t.Elem()))))
		return
	}
	if m.cell < 0 {
		// opaque map: an update may change any entry of any map
		st.om = nil
		et := m.t.Elem()
		switch v := v.(type) {
		case VObj:
			x.safe(st, "no nil pointer stored in a map", mkNot(mkEq(v.addr, mkInt(0))), 0)
		case VMap:
			x.safe(st, "no nil map stored in a map", mkNot(v.nil_), 0)
		default:
			if ti(et).k == kADT {
				t := x.toTerm(st, v, et)
				x.safe(st, "no nil pointer stored in a map", mkNot(mkEq(t, nilOf(t.Sort))), 0)
				v = VT{t}
			}
		}
		st.om = []omEntry{{m.id, key, tTrue, v}}
		return
	}
	if st.frozen[m.cell] {
		panic(unsupported("update of a map whose value escaped"))
	}
	c := st.cells[m.cell]
	vt := x.toTerm(st, v, m.t.Elem())
	a := optDecl(sortOf(m.t.Elem()))
	x.setCell(st, m.cell, VT{mkStore(x.toTermNF(st, c.val, c.typ), key, mkCons(a, vt))})
}

// opaqueMaps: map types whose contents are not tracked (declared with opaquemap)
var opaqueMaps = map[string]bool{}

// opaqueMap: lookups in such maps are arbitrary and updates are ignored, which over-approximates
// every aliasing and every content
func opaqueMap(m *types.Map) bool {
	if k := ti(m.Elem()).k; k == kObj || k == kMap {
		return true
	}
	return len(opaqueMaps) > 0 && opaqueMaps[strings.ReplaceAll(m.String(), modPath+"/", "")]
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	base := x.val(st, in.X)
	m, ok := base.(VMap)
	if !ok {
		if s, ok := base.(VT); ok && s.t.Sort == SStr {
			b := strBytes(s.t)
			idx := x.term(st, in.Index)
			x.safe(st, "index in range", mkAnd(mkGe(idx, mkInt(0)), mkLt(idx, mkLen(b))), in.Pos())
			st.env[in] = st.fromTerm(st.normNth(b, idx), in.Type())
			return
		}
		panic(unsupported("lookup in %T", base))
	}
	et := m.t.Elem()
	if m.cell < 0 && !m.shared() {
		var v SVal
		key := x.term(st, in.Index)
		for _, e := range st.om {
			if e.id == m.id && e.key == key {
				if in.CommaOk {
					st.env[in] = VTup{[]SVal{e.v, VT{e.present}}}
				} else {
					st.env[in] = e.v
				}
				return
			}
		}
		present := freshConst("present", SBool)
		st.assume(mkImp(m.nil_, mkNot(present)))
		defer func() {
			st.om = append(st.om[:len(st.om):len(st.om)], omEntry{m.id, key, present, v})
		}()
		switch ti(et).k {
		case kObj:
			ad := freshConst("mapobj", SInt)
			x.noteAssume("maps of object pointers never hold nil pointers")
			st.assume(mkImp(present, mkNot(mkEq(ad, mkInt(0)))))
			v = VObj{ad, ti(et).named}
		case kMap:
			v = st.newOpaque(types.Unalias(et).Underlying().(*types.Map), mkNot(present))
			x.noteAssume("nested maps never hold nil maps")
		case kADT:
			v = st.freshVal("mapval", et)
			x.noteAssume("maps of object pointers never hold nil pointers")
			if t, ok := v.(VT); ok {
				st.assume(mkImp(present, mkNot(mkEq(t.t, nilOf(t.t.Sort)))))
			}
		default:
			v = st.freshVal("mapval", et)
		}
		if in.CommaOk {
			st.env[in] = VTup{[]SVal{v, VT{present}}}
		} else {
			st.env[in] = v
		}
		return
	}
	key := x.term(st, in.Index)
	var arr *Term
	if m.shared() {
		arr = x.sharedContent(st, m)
	} else {
		arr = x.toTermNF(st, st.cells[m.cell].val, st.cells[m.cell].typ)
	}
	a := optDecl(sortOf(et))
	sel := mkSelect(arr, key)
	if m.shared() && ti(et).k == kObj {
		x.noteAssume("maps of object pointers never hold nil pointers")
		st.assume(mkImp(mkNot(mkEq(sel, nilOf(a.sort))), mkNot(mkEq(mkSel(a, 0, sel), mkInt(0)))))
	}
	if m.shared() && ti(et).k == kADT {
		x.noteAssume("maps of object pointers never hold nil pointers")
		st.assume(mkImp(mkNot(mkEq(sel, nilOf(a.sort))), mkNot(mkEq(mkSel(a, 0, sel), nilOf(sortOf(et))))))
	}
	if !m.shared() && st.frozen[m.cell] && ti(et).k == kADT {
		x.noteAssume("maps held by immutable objects hold no nil pointers")
		st.assume(mkImp(mkNot(mkEq(sel, nilOf(a.sort))), mkNot(mkEq(mkSel(a, 0, sel), nilOf(sortOf(et))))))
	}
	present := mkNot(mkEq(sel, nilOf(a.sort)))
	pv := mkSel(a, 0, sel)
	if in.CommaOk {
		// value is only meaningful when present; zero value otherwise
		v := x.lookupVal(st, pv, et)
		st.env[in] = VTup{[]SVal{v, VT{present}}}
		return
	}
	z := x.zero(st, et)
	if d, ok := st.decide(present); ok {
		if d {
			st.env[in] = x.lookupVal(st, pv, et)
		} else {
			st.env[in] = z
		}
		return
	}
	st.env[in] = x.merge(st, []*Term{present}, []SVal{x.lookupVal(st, pv, et)}, z, et)
}

func (x *Exec) lookupVal(st *State, t *Term, et types.Type) SVal {
	if ti(et).k == kObj {
		return VObj{t, ti(et).named}
	}
	return st.fromTerm(t, et)
}

func (x *Exec) next(st *State, in *ssa.Next) {
	it := x.val(st, in.Iter).(VIter)
	ok := freshConst("more", SBool)
	tp := in.Type().(*types.Tuple)
	if in.IsString {
		st.env[in] = VTup{[]SVal{VT{ok}, st.freshVal("idx", types.Typ[types.Int]), st.freshVal("rune", types.Typ[types.Int32])}}
		return
	}
	m, isMap := it.m.(VMap)
	if !isMap {
		panic(unsupported("range over %T", it.m))
	}
	kt, vt := m.t.Key(), m.t.Elem()
	kv := st.freshVal("rk", kt)
	var vv SVal
	if m.cell < 0 && !m.shared() {
		switch ti(vt).k {
		case kObj:
			ad := freshConst("mapobj", SInt)
			st.assume(mkNot(mkEq(ad, mkInt(0))))
			vv = VObj{ad, ti(vt).named}
		case kMap:
			vv = st.newOpaque(types.Unalias(vt).Underlying().(*types.Map), tFalse)
		case kADT:
			vv = st.freshVal("rv", vt)
			if t, ok := vv.(VT); ok {
				st.assume(mkNot(mkEq(t.t, nilOf(t.t.Sort))))
			}
		default:
			vv = st.freshVal("rv", vt)
		}
	} else {
		var arr *Term
		if m.shared() {
			arr = x.sharedContent(st, m)
		} else {
			arr = x.toTermNF(st, st.cells[m.cell].val, st.cells[m.cell].typ)
		}
		a := optDecl(sortOf(vt))
		sel := mkSelect(arr, x.toTermNF(st, kv, kt))
		st.assume(mkImp(ok, mkNot(mkEq(sel, nilOf(a.sort)))))
		if m.shared() && ti(vt).k == kObj {
			x.noteAssume("maps of object pointers never hold nil pointers")
			st.assume(mkImp(ok, mkNot(mkEq(mkSel(a, 0, sel), mkInt(0)))))
		}
		if m.shared() && ti(vt).k == kADT {
			x.noteAssume("maps of object pointers never hold nil pointers")
			st.assume(mkImp(ok, mkNot(mkEq(mkSel(a, 0, sel), nilOf(sortOf(vt))))))
		}
		vv = x.lookupVal(st, mkSel(a, 0, sel), vt)
		if it.arr != nil {
			c := st.cells[it.id]
			key, seen := x.toTermNF(st, kv, kt), c.val.(VT).t
			st.assume(mkImp(ok, mkEq(mkSelect(seen, key), nilOf(a.sort))))
			if it.arr == arr {
				st.assume(mkImp(mkNot(ok), mkEq(seen, arr)))
			}
			c.val = VT{mkStore(seen, key, mkCons(a, mkSel(a, 0, sel)))}
			st.cells[it.id] = c
			st.wlog = append(st.wlog, wrec{cell: it.id})
		}
	}
	_ = tp
	x.eachDone(st, m, ok)
	st.env[in] = VTup{[]SVal{VT{ok}, kv, vv}}
}

// ---- interfaces ----

func (x *Exec) makeIface(st *State, in *ssa.MakeInterface) SVal {
	v := x.val(st, in.X)
	to := sortOf(in.Type())
	from := sortOf(in.X.Type())
	if to == from {
		// pointer to single implementation: must not be a typed nil
		switch pv := v.(type) {
		case VT, VObj:
			g := x.nonNilGoal(pv)
			if g != tTrue {
				x.safe(st, "no typed nil stored in an interface", g, in.Pos())
			}
		case VPtrCell:
			t := x.toTerm(st, v, in.X.Type())
			return VT{t}
		}
		return v
	}
	return VT{x.box(st, v, in.X.Type(), in.Type())}
}

func (x *Exec) box(st *State, v SVal, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	if ti(to).k == kErr {
		return newErr()
	}
	fn := "mk_box:" + fs + ":" + ts
	if n := ti(from).named; n != nil && ti(from).k == kObj && !inRepo(n) {
		fn = "mk_box:" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ":" + ts
	}
	declFun(fn, []string{fs}, ts)
	return mkApp(fn, x.toTerm(st, v, from))
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) {
	v := x.val(st, in.X)
	fs, ts := sortOf(in.X.Type()), sortOf(in.AssertedType)
	if fs == ts {
		ok := x.nonNilGoal(v)
		if in.CommaOk {
			st.env[in] = VTup{[]SVal{v, VT{ok}}}
			return
		}
		x.safe(st, "type assertion", ok, in.Pos())
		st.env[in] = v
		return
	}
	okc := freshConst("asrt", SBool)
	val := st.freshVal("asrtv", in.AssertedType)
	t := x.toTermNF(st, v, in.X.Type())
	if t.Op == "uf" && t.Name == "mk_box:"+ts+":"+fs {
		okc = tTrue
		val = st.fromTerm(t.Args[0], in.AssertedType)
	}
	if in.CommaOk {
		st.env[in] = VTup{[]SVal{val, VT{okc}}}
		return
	}
	x.safe(st, "type assertion", okc, in.Pos())
	st.env[in] = val
}

// ---- conversions ----

func strBytes(t *Term) *Term {
	declFun("str2bytes", []string{SStr}, SByt)
	if l := strLits[t]; l != nil && len(*l) <= 64 {
		var u []*Term
		for i := 0; i < len(*l); i++ {
			u = append(u, mkUnit(mkInt(int64((*l)[i]))))
		}
		return mkConcatS(SByt, u...)
	}
	if t.Op == "uf" && t.Name == "bytes2str" {
		return t.Args[0]
	}
	return mkApp("str2bytes", t)
}
func strOfBytes(t *Term) *Term {
	declFun("bytes2str", []string{SByt}, SStr)
	if t.Op == "uf" && t.Name == "str2bytes" {
		return t.Args[0]
	}
	return mkApp("bytes2str", t)
}

func (x *Exec) convert(st *State, v SVal, from, to types.Type) SVal {
	fi, tt := ti(from), ti(to)
	switch {
	case fi.k == kInt && tt.k == kInt:
		return VT{x.wrap(st, x.toTermNF(st, v, from), to)}
	case fi.k == kStr && tt.k == kSlice:
		if tt.sort == SByt && ti(tt.elem).bits == 8 {
			return VSl{seq: strBytes(x.toTermNF(st, v, from)), nil_: tFalse}
		}
	case fi.k == kSlice && tt.k == kStr:
		return VT{strOfBytes(x.toTermNF(st, v, from))}
	case fi.k == kStr && tt.k == kStr:
		return v
	case fi.k == kInt && tt.sort == "Flt":
		declFun("flt_of_int", []string{SInt}, "Flt")
		return VT{mkApp("flt_of_int", x.toTermNF(st, v, from))}
	case fi.sort == "Flt" && tt.k == kInt:
		t := x.toTermNF(st, v, from)
		if t.Op == "uf" && t.Name == "flt_of_int" {
			// exact for |n| < 2^53
			g := mkAnd(mkGe(t.Args[0], mkInt(-(1<<53))), mkLe(t.Args[0], mkInt(1<<53)))
			if dv, ok := st.decide(g); (ok && dv) || x.S.quick(st, g) {
				return VT{x.wrap(st, t.Args[0], to)}
			}
		}
		declFun("int_of_flt", []string{"Flt"}, SInt)
		r := mkApp("int_of_flt", t)
		st.typeFacts(r, to)
		return VT{r}
	case fi.sort == "Flt" && tt.sort == "Flt":
		return v
	case fi.k == tt.k && fi.sort == tt.sort:
		return v
	}
	panic(unsupported("conversion %s -> %s", from, to))
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
