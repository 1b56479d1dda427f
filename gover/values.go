package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func two(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

func intRange(i tinfo) (*big.Int, *big.Int) {
	if i.sign {
		h := new(big.Int).Sub(two(uint(i.bits-1)), one)
		return new(big.Int).Neg(two(uint(i.bits - 1))), h
	}
	return new(big.Int), new(big.Int).Sub(two(uint(i.bits)), one)
}

// typeFacts: range facts implied by the Go type of a term
func (s *State) typeFacts(t *Term, typ types.Type) {
	i := ti(typ)
	switch i.k {
	case kInt:
		if t.isInt() || i.bits == 0 {
			return
		}
		lo, hi := intRange(i)
		s.assume(mkGe(t, mkBig(lo)))
		s.assume(mkLe(t, mkBig(hi)))
	case kADT:
		if t.Op == "seq.nth" {
			s.assume(mkNot(mkEq(t, nilOf(t.Sort))))
		}
	case kObj:
		if t.isInt() {
			return
		}
		s.assume(mkGe(t, mkInt(0)))
		if t.Op == "seq.nth" {
			s.assume(mkGe(t, mkInt(1)))
		}
	case kSlice:
		l := mkLen(t)
		if !l.isInt() {
			s.assume(mkLe(l, mkBig(maxLen)))
		}
	}
}

// fromTerm builds the engine value of Go type typ denoted by term t (pre-existing value)
func (s *State) fromTerm(t *Term, typ types.Type) SVal {
	i := ti(typ)
	switch i.k {
	case kSlice:
		s.typeFacts(t, typ)
		return VSl{seq: t, nil_: s.nilFlag(t)}
	case kObj:
		s.typeFacts(t, typ)
		return VObj{t, i.named}
	case kStruct:
		a := adtForStruct(i.named)
		st := i.named.Underlying().(*types.Struct)
		var fs []SVal
		for j := 0; j < st.NumFields(); j++ {
			fs = append(fs, s.fromTerm(mkSel(a, j, t), st.Field(j).Type()))
		}
		return VSt{i.named, fs}
	case kMap:
		m := types.Unalias(typ).Underlying().(*types.Map)
		if sharedMap(typ) {
			return VMap{cell: -2, t: m, nil_: mkEq(t, mkInt(0)), id: t}
		}
		if _, named := types.Unalias(typ).(*types.Named); !named && opaqueMap(m) {
			return opaqueOf(m, t)
		}
		id := s.newCell(typ, VT{t})
		s.frozen[id] = true
		nl := freshConst("mapnil", SBool)
		s.assume(mkImp(nl, mkEqRaw(t, emptyMap(i.sort)))) // a nil map has no entries
		return VMap{cell: id, t: m, nil_: nl}
	case kInt, kADT:
		s.typeFacts(t, typ)
	}
	return VT{t}
}

func (s *State) nilFlag(seq *Term) *Term {
	if seq.Op == "seq.empty" || seq.Op == "seq.unit" || seq.Op == "seq.++" {
		// empty: unknown; non-empty: not nil
		if seq.Op != "seq.empty" {
			return tFalse
		}
	}
	if nf, ok := nilFields[seq.Name]; ok && seq.Op == "uf" && len(seq.Args) == 1 {
		f := subst(nf.cond, map[*Term]*Term{nf.v: seq.Args[0]})
		s.assume(mkImp(f, mkEq(mkLen(seq), mkInt(0))))
		return f
	}
	memo := seq.Op == "const" || seq.Op == "uf" || seq.Op == "seq.nth" || seq.Op == "var"
	if f, ok := s.nilf[seq]; ok && memo {
		return f
	}
	f := freshConst("isnil", SBool)
	if memo {
		s.nilf[seq] = f
	}
	s.assume(mkImp(f, mkEq(mkLen(seq), mkInt(0))))
	return f
}

func (s *State) freshVal(name string, typ types.Type) SVal {
	i := ti(typ)
	if i.k == kTuple {
		tp := typ.(*types.Tuple)
		var vs []SVal
		for j := 0; j < tp.Len(); j++ {
			vs = append(vs, s.freshVal(name, tp.At(j).Type()))
		}
		return VTup{vs}
	}
	return s.fromTerm(freshConst(name, sortOf(typ)), typ)
}

func (x *Exec) zero(st *State, typ types.Type) SVal {
	i := ti(typ)
	switch i.k {
	case kInt:
		return VT{mkInt(0)}
	case kBool:
		return VT{tFalse}
	case kStr:
		return VT{strLit("")}
	case kErr:
		return VT{noErr()}
	case kSlice:
		return VSl{seq: mkEmpty(i.sort), nil_: tTrue}
	case kADT, kOpt:
		return VT{nilOf(i.sort)}
	case kObj:
		return VObj{mkInt(0), i.named}
	case kStruct:
		s := i.named.Underlying().(*types.Struct)
		var fs []SVal
		for j := 0; j < s.NumFields(); j++ {
			fs = append(fs, x.zero(st, s.Field(j).Type()))
		}
		return VSt{i.named, fs}
	case kMap:
		m := types.Unalias(typ).Underlying().(*types.Map)
		if sharedMap(typ) {
			return VMap{cell: -2, t: m, nil_: tTrue, id: mkInt(0)}
		}
		if opaqueMap(m) {
			z := opaqueOf(m, mkConst("nilmap_"+sanitizeSort(i.sort), i.sort))
			st.assume(z.nil_)
			z.nil_ = tTrue
			return z
		}
		id := st.newCell(typ, VT{emptyMap(i.sort)})
		st.frozen[id] = true
		return VMap{cell: id, t: m, nil_: tTrue}
	case kArray:
		n := types.Unalias(typ).Underlying().(*types.Array).Len()
		if n > 4096 {
			c := freshConst("zarr", i.sort)
			st.assume(mkEq(mkLen(c), mkInt(n)))
			return VT{c}
		}
		var el []*Term
		for j := int64(0); j < n; j++ {
			el = append(el, mkUnit(x.toTerm(st, x.zero(st, i.elem), i.elem)))
		}
		return VT{mkConcatS(i.sort, el...)}
	case kFunc:
		return VT{nilOf("Func")}
	case kOpaque:
		return VT{nilOf(i.sort)}
	}
	panic(unsupported("zero of %s", typ))
}

func emptyMap(sort string) *Term {
	n := "emptymap_" + sanitize(sort)
	declFun(n, nil, sort)
	return intern(&Term{Op: "uf", Name: n, Sort: sort})
}

var errAdt *adt

func noErr() *Term {
	if errAdt == nil {
		errAdt = &adt{sort: SErr, sels: []string{"errid"}, sorts: []string{SInt}}
		adtTab[SErr] = errAdt
		selTab["errid"] = selRef{errAdt, 0}
	}
	return nilOf(SErr)
}

func newErr() *Term {
	noErr()
	return mkCons(errAdt, freshConst("e", SInt))
}

func strLit(s string) *Term {
	t := mkConst("str:"+s, SStr)
	if strLits[t] == nil {
		c := s
		strLits[t] = &c
	}
	return t
}

func (x *Exec) sliceTerm(st *State, v VSl) *Term {
	if v.cell > 0 {
		return x.toTerm(st, st.cells[v.cell].val, st.cells[v.cell].typ)
	}
	return v.seq
}

// toTerm freezes an engine value into an SMT term
func (x *Exec) toTerm(st *State, v SVal, typ types.Type) *Term {
	switch v := v.(type) {
	case VT:
		return v.t
	case VSl:
		if v.cell > 0 {
			st.frozen[v.cell] = true
		}
		return x.sliceTerm(st, v)
	case VObj:
		return v.addr
	case VSt:
		a := adtForStruct(v.n)
		s := v.n.Underlying().(*types.Struct)
		var args []*Term
		for i, f := range v.fs {
			args = append(args, x.toTerm(st, f, s.Field(i).Type()))
		}
		return mkCons(a, args...)
	case VPtrCell:
		c := st.cells[v.id]
		st.frozen[v.id] = true
		if sv, ok := c.val.(VSt); ok && inRepo(sv.n) {
			if P.mut[sv.n] {
				panic(unsupported("mutable struct %s as value", sv.n))
			}
			a := adtOf(sv.n)
			s := sv.n.Underlying().(*types.Struct)
			var args []*Term
			for i, f := range sv.fs {
				args = append(args, x.toTerm(st, f, s.Field(i).Type()))
			}
			t := mkCons(a, args...)
			for i, f := range sv.fs {
				if nf, ok := nilFields[a.sels[i]]; ok && nf.a == a && !nf.free {
					if sl, ok := f.(VSl); ok {
						nl := sl.nil_
						if sl.cell > 0 {
							nl = tFalse
						}
						x.safe(st, "data invariant of "+sv.n.Obj().Name()+": "+s.Field(i).Name()+" is nil exactly when another alternative is given", mkEq(nl, subst(nf.cond, map[*Term]*Term{nf.v: t})), 0)
					}
				}
			}
			if iv, ok := adtInv[a.sort]; ok {
				x.safe(st, "data invariant of "+sv.n.Obj().Name(), subst(iv.body, map[*Term]*Term{iv.v: t}), 0)
			}
			return t
		}
		a := optDecl(sortOf(c.typ))
		return mkCons(a, x.toTerm(st, c.val, c.typ))
	case VMap:
		if v.cell < 0 {
			return v.id
		}
		st.frozen[v.cell] = true
		return x.toTerm(st, st.cells[v.cell].val, st.cells[v.cell].typ)
	case VClos:
		n := "fn:" + v.fn.String()
		if len(v.binds) > 0 {
			return freshConst("closure", "Func")
		}
		return mkConst(n, "Func")
	case VPtrField:
		// pointer to a field: freeze the current content
		ft := v.n.Underlying().(*types.Struct).Field(v.i).Type()
		a := optDecl(sortOf(ft))
		x.noteAssume("pointer to field " + v.n.Obj().Name() + "." + v.n.Underlying().(*types.Struct).Field(v.i).Name() + " is modelled by its value at the time it escapes")
		return mkCons(a, x.toTerm(st, x.load(st, v, ft), ft))
	case VArr:
		et := elemType(typ)
		srt := "(Seq " + sortOf(et) + ")"
		var us []*Term
		for _, e := range v.el {
			us = append(us, mkUnit(x.toTerm(st, e, et)))
		}
		return mkConcatS(srt, us...)
	case VPtrIdx:
		et := typ.Underlying().(*types.Pointer).Elem()
		a := optDecl(sortOf(et))
		return mkCons(a, x.toTerm(st, x.load(st, v, et), et))
	case nil:
		panic(unsupported("nil engine value for %v", typ))
	}
	panic(unsupported("toTerm of %T", v))
}

func (x *Exec) constVal(st *State, c *ssa.Const) SVal {
	typ := c.Type()
	if c.Value == nil {
		return x.zero(st, typ)
	}
	i := ti(typ)
	switch i.k {
	case kInt:
		v := constant.ToInt(c.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(unsupported("const %s", c))
		}
		return VT{mkBig(b)}
	case kBool:
		return VT{mkBool(constant.BoolVal(c.Value))}
	case kStr:
		return VT{strLit(constant.StringVal(c.Value))}
	}
	if i.sort == "Flt" {
		declFun("flt_of_int", []string{SInt}, "Flt")
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return VT{mkApp("flt_of_int", mkBig(b))}
		}
		return VT{mkConst("flt:"+c.Value.ExactString(), "Flt")}
	}
	panic(unsupported("const %s of type %s", c, typ))
}

// ---- memory ----

func (x *Exec) heapRead(st *State, n *types.Named, i int, addr *Term) SVal {
	key := heapKey(n, i)
	ft := fieldType(n, i)
	log := st.heap[key]
	var guards []*Term
	var vals []SVal
	for j := len(log) - 1; j >= 0; j-- {
		e := mkEq(log[j].addr, addr)
		if e == tTrue {
			return x.merge(st, guards, vals, log[j].val, ft)
		}
		if v, ok := st.decide(e); ok {
			if !v {
				continue
			}
			return x.merge(st, guards, vals, log[j].val, ft)
		}
		guards = append(guards, e)
		vals = append(vals, log[j].val)
	}
	base := x.heapBase(st, n, i, addr)
	return x.merge(st, guards, vals, base, ft)
}

func (x *Exec) heapBase(st *State, n *types.Named, i int, addr *Term) SVal {
	key := heapKey(n, i)
	ft := fieldType(n, i)
	fn := fmt.Sprintf("H_%s_%d", key, st.hbase[key])
	declFun(fn, []string{SInt}, sortOf(ft))
	t := mkApp(fn, addr)
	v := st.fromTerm(t, ft)
	if _, ok := v.(VMap); ok && isSharedNamed(n) {
		return VT{t}
	}
	if m, ok := v.(VMap); ok && m.cell < 0 {
		m.nil_ = tFalse
		x.noteAssume("maps held by mutable objects are non-nil and not shared")
		return m
	} else if ok {
		// maps held by mutable objects: keep one cell per (location) so that updates persist
		delete(st.frozen, m.cell)
		m.nil_ = tFalse
		x.noteAssume("maps held by mutable objects are non-nil and not shared")
		st.heap[key] = append([]hw{{addr, m}}, st.heap[key]...)
		return m
	}
	x.serviceFact(st, v, ft, n)
	return v
}

func fieldType(n *types.Named, i int) types.Type {
	if g, ok := ghostFields[n.Obj().Name()]; ok && n.Obj().Pkg() != nil && !inRepo(n) {
		_ = g
	}
	return n.Underlying().(*types.Struct).Field(i).Type()
}

var ghostFields = map[string]bool{}

func (x *Exec) merge(st *State, guards []*Term, vals []SVal, last SVal, ft types.Type) SVal {
	if len(guards) == 0 {
		return last
	}
	t := x.toTermNF(st, last, ft)
	nl := x.nilTermOf(last)
	for j := len(guards) - 1; j >= 0; j-- {
		t = mkIte(guards[j], x.toTermNF(st, vals[j], ft), t)
		if nl != nil {
			if nj := x.nilTermOf(vals[j]); nj != nil {
				nl = mkIte(guards[j], nj, nl)
			}
		}
	}
	if ti(ft).k == kSlice && nl != nil {
		return VSl{seq: t, nil_: nl}
	}
	return st.fromTerm(t, ft)
}

func (x *Exec) nilTermOf(v SVal) *Term {
	if s, ok := v.(VSl); ok {
		if s.cell > 0 {
			return tFalse
		}
		return s.nil_
	}
	return nil
}

// toTermNF: no freeze (snapshot for reading)
func (x *Exec) toTermNF(st *State, v SVal, typ types.Type) *Term {
	if s, ok := v.(VSl); ok {
		return x.sliceTerm(st, s)
	}
	return x.toTerm(st, v, typ)
}

// service wiring assumption: adapters/builders/applications reached through fields are non-nil
func (x *Exec) serviceFact(st *State, v SVal, ft types.Type, owner *types.Named) {
	if !isServiceType(ft) {
		return
	}
	x.assumps["service wiring: adapter/builder/factory/application fields of service objects are non-nil"] = true
	switch v := v.(type) {
	case VT:
		if v.t.Op != "const" || !isNilC(v.t) {
			st.assume(mkNot(mkEq(v.t, nilOf(v.t.Sort))))
		}
	case VObj:
		if !v.addr.isInt() {
			st.assume(mkGe(v.addr, mkInt(1)))
		}
	}
}

func (x *Exec) load(st *State, p SVal, typ types.Type) SVal {
	switch p := p.(type) {
	case VPtrCell:
		return st.cells[p.id].val
	case VPtrField:
		switch b := p.base.(type) {
		case VObj:
			return x.heapRead(st, p.n, p.i, b.addr)
		case VT:
			if b.t.Sort == "T_"+typeMangle(p.n) {
				adtOf(p.n)
			}
			if a, ok := adtTab[b.t.Sort]; ok {
				if len(a.sels) <= p.i {
					panic(unsupported("selector"))
				}
				v := st.fromTerm(mkSel(a, p.i, b.t), fieldType(p.n, p.i))
				x.serviceFact(st, v, fieldType(p.n, p.i), p.n)
				return v
			}
		}
		bv := x.load(st, p.base, nil)
		if sv, ok := bv.(VSt); ok {
			return sv.fs[p.i]
		}
		panic(unsupported("load field of %T", bv))
	case VPtrIdx:
		switch b := p.base.(type) {
		case VSl:
			if b.cell > 0 {
				return x.loadCellIdx(st, b.cell, p.i, typ)
			}
			return st.fromTerm(st.normNth(b.seq, p.i), typ)
		case VPtrCell:
			return x.loadCellIdx(st, b.id, p.i, typ)
		}
		bv := x.load(st, p.base, nil)
		if t, ok := bv.(VT); ok {
			return st.fromTerm(st.normNth(t.t, p.i), typ)
		}
	case VT:
		// pointer to scalar (Opt)
		if a, ok := adtTab[p.t.Sort]; ok && len(a.sels) == 1 {
			return st.fromTerm(mkSel(a, 0, p.t), typ)
		}
		if ti(typ).k == kStruct {
			// *T of an immutable struct loaded as value
			n := ti(typ).named
			a := adtOf(n)
			var fs []SVal
			for i := range a.sels {
				fs = append(fs, st.fromTerm(mkSel(a, i, p.t), fieldType(n, i)))
			}
			return VSt{n, fs}
		}
	case VObj:
		if inRepo(p.n) {
			var fs []SVal
			for i := 0; i < p.n.Underlying().(*types.Struct).NumFields(); i++ {
				fs = append(fs, x.heapRead(st, p.n, i, p.addr))
			}
			return VSt{p.n, fs}
		}
	case VGlobal:
		return x.loadGlobal(st, p.g)
	}
	panic(unsupported("load through %T of %v", p, typ))
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) SVal {
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
		return VT{mkConst("global:"+g.Name(), "Any")}
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if isErrorType(t) {
		c := mkConst("gerr:"+g.String(), SErr)
		noErr()
		st.assume(mkNot(mkEq(c, noErr())))
		return VT{c}
	}
	v := st.fromTerm(mkConst("global:"+g.String(), sortOf(t)), t)
	x.serviceFact(st, v, t, nil)
	x.noteAssume("package variable " + shortKey(g.String()) + " is initialised and not reassigned")
	return v
}

func (x *Exec) loadCellIdx(st *State, id int, i *Term, typ types.Type) SVal {
	c := st.cells[id]
	switch v := c.val.(type) {
	case VT:
		return st.fromTerm(st.normNth(v.t, i), typ)
	case VArr:
		if i.isInt() {
			return v.el[i.Lit.Int64()]
		}
		return st.fromTerm(st.normNth(x.toTerm(st, v, c.typ), i), typ)
	}
	panic(unsupported("index of cell %T", c.val))
}

type VArr struct{ el []SVal }

func (x *Exec) store(st *State, p SVal, v SVal, typ types.Type) {
	switch p := p.(type) {
	case VPtrCell:
		x.setCell(st, p.id, v)
		return
	case VObj:
		if sv, ok := v.(VSt); ok && inRepo(p.n) {
			for i, f := range sv.fs {
				st.heapWrite(heapKey(p.n, i), p.addr, f)
				st.wlog = append(st.wlog, wrec{n: p.n, fi: i, addr: p.addr})
			}
			return
		}
	case VPtrField:
		switch b := p.base.(type) {
		case VObj:
			st.heapWrite(heapKey(p.n, p.i), b.addr, v)
			st.wlog = append(st.wlog, wrec{n: p.n, fi: p.i, addr: b.addr})
			return
		case VPtrCell:
			sv, ok := st.cells[b.id].val.(VSt)
			if !ok {
				break
			}
			fs := append([]SVal{}, sv.fs...)
			fs[p.i] = v
			x.setCell(st, b.id, VSt{sv.n, fs})
			return
		case VPtrField:
			bv := x.load(st, b, nil)
			if sv, ok := bv.(VSt); ok {
				fs := append([]SVal{}, sv.fs...)
				fs[p.i] = v
				x.store(st, b, VSt{sv.n, fs}, nil)
				return
			}
		}
	case VPtrIdx:
		id := 0
		switch b := p.base.(type) {
		case VPtrCell:
			id = b.id
		case VSl:
			id = b.cell
			if id == 0 {
				panic(unsupported("element store into a slice whose backing array is not local"))
			}
		}
		if id > 0 {
			c := st.cells[id]
			et := elemType(c.typ)
			switch av := c.val.(type) {
			case VArr:
				if p.i.isInt() {
					el := append([]SVal{}, av.el...)
					el[p.i.Lit.Int64()] = v
					x.setCell(st, id, VArr{el})
					return
				}
			}
			s := x.toTermNF(st, c.val, c.typ)
			n := mkLen(s)
			vt := x.toTerm(st, v, et)
			ns := mkConcat(mkExtract(s, mkInt(0), p.i), mkUnit(vt), mkExtract(s, mkAdd(p.i, mkInt(1)), mkSub(mkSub(n, p.i), mkInt(1))))
			x.setCell(st, id, VT{ns})
			return
		}
	}
	panic(unsupported("store through %T", p))
}

func elemType(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	panic(unsupported("elemType %s", t))
}

func (x *Exec) setCell(st *State, id int, v SVal) {
	if st.frozen[id] {
		panic(unsupported("store to a memory cell after its value escaped"))
	}
	c := st.cells[id]
	c.val = v
	st.cells[id] = c
	st.wlog = append(st.wlog, wrec{cell: id})
}

func (x *Exec) noteAssume(s string) { x.assumps[s] = true }
