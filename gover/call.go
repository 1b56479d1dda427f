package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newExec(K *contracts) *Exec {
	return &Exec{K: K, bad: map[string]int{}, assumps: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, models: map[string]bool{}, havocked: map[string]bool{}, loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, S: theSolver}
}

// call performs a call instruction
func (x *Exec) call(st *State, c *ssa.CallCommon, fnv SVal, args []SVal, pos token.Pos, k cont) {
	if c.IsInvoke() {
		x.invoke(st, c, args, pos, k)
		return
	}
	switch f := fnv.(type) {
	case *ssa.Builtin:
		k(st, []SVal{x.builtin(st, f, c, args, pos)})
	case VClos:
		x.callFn(st, f.fn, args, f.binds, pos, k)
	case VT:
		// unknown function value
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && c.Signature().Results().Len() == 1 {
			if pf := pureFuncs[n.Obj().Pkg().Path()+"."+n.Obj().Name()]; pf != "" {
				x.noteAssume("function values of type " + n.Obj().Name() + " are not nil, have no side effects and depend on their arguments only")
				ts := []*Term{f.t}
				for i, a := range args {
					ts = append(ts, x.toTerm(st, a, c.Signature().Params().At(i).Type()))
				}
				k(st, []SVal{st.fromTerm(mkApp(pf, ts...), c.Signature().Results().At(0).Type())})
				return
			}
		}
		if st.ghost["hist"] != nil && x.modifiesHist() {
			x.safe(st, "nil function value", mkNot(mkEq(f.t, nilOf("Func"))), pos)
			x.noteAssume("function values given by the user return a value that depends on the earlier calls, and do not modify the objects of this code")
			ts := []*Term{st.ghost["hist"], f.t}
			for i, a := range args {
				ts = append(ts, x.toTerm(st, a, c.Signature().Params().At(i).Type()))
			}
			h := histCall(ts)
			st.setGhost("hist", h)
			var res []SVal
			for i := 0; i < c.Signature().Results().Len(); i++ {
				t := c.Signature().Results().At(i).Type()
				res = append(res, st.fromTerm(histRes(strconv.Itoa(i), sortOf(t), h), t))
			}
			k(st, res)
			return
		}
		x.havocked["call of an unknown function value at "+x.pos(pos)] = true
		k(st, x.havocResults(st, "fv", c.Signature()))
	default:
		panic(unsupported("call of %T", fnv))
	}
}

func (x *Exec) modifiesHist() bool {
	if x.root == nil {
		return false
	}
	for _, m := range x.root.Modifies {
		if m.head() == "ghost" && m.list[1].atom == "hist" {
			return true
		}
	}
	return false
}

// mapSize is the number of entries of a map
func mapSize(m *Term) *Term {
	n := "mapsize_" + sanitizeSort(m.Sort)
	declFun(n, []string{m.Sort}, SInt)
	nonNegFuns[n] = true
	return mkApp(n, m)
}

// histCall is the history of calls ts[0] followed by the call of the function ts[1] with the arguments ts[2:]
func histCall(ts []*Term) *Term {
	n := "hcall"
	var ss []string
	for _, t := range ts {
		n += "_" + sanitizeSort(t.Sort)
		ss = append(ss, t.Sort)
	}
	declFun(n, ss, "Any")
	return mkApp(n, ts...)
}

// histRes is a result of the last call of a history
func histRes(i, sort string, h *Term) *Term {
	n := "hres_" + i + "_" + sanitizeSort(sort)
	declFun(n, []string{"Any"}, sort)
	return mkApp(n, h)
}

func (x *Exec) havocResults(st *State, name string, sg *types.Signature) []SVal {
	var res []SVal
	for i := 0; i < sg.Results().Len(); i++ {
		res = append(res, st.freshVal(name, sg.Results().At(i).Type()))
	}
	return res
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, args []SVal, pos token.Pos, k cont) {
	it := types.Unalias(c.Value.Type())
	if isErrorType(it) {
		k(st, []SVal{VT{freshConst("errstr", SStr)}})
		return
	}
	n, ok := it.(*types.Named)
	if !ok {
		panic(unsupported("invoke on %s", it))
	}
	i := ti(it)
	if i.k == kADT || i.k == kObj {
		im := P.impls(n)
		fn := methodOf(types.NewPointer(im[0]), c.Method.Name())
		if fn == nil {
			panic(unsupported("no method %s", c.Method))
		}
		x.derefCheck(st, args[0], pos)
		x.callFn(st, fn, args, nil, pos, k)
		return
	}
	key := "iface "
	if n.Obj().Pkg() != nil {
		key += n.Obj().Pkg().Path() + "."
	}
	key += n.Obj().Name() + "." + c.Method.Name()
	if m, ok := models[key]; ok {
		x.models[key] = true
		m(x, st, args, c.Signature(), pos, k)
		return
	}
	x.havocked[key] = true
	k(st, x.havocResults(st, "hv", c.Signature()))
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args []SVal, binds []SVal, pos token.Pos, k cont) {
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && (strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk")) {
		x.callBody(st, fn, args, binds, k)
		return
	}
	key := funcKey(fn)
	if m, ok := models[key]; ok {
		x.models[key] = true
		m(x, st, args, fn.Signature, pos, k)
		return
	}
	if len(fn.Blocks) == 0 || !inRepoFnAny(fn) {
		x.havocked[key] = true
		k(st, x.havocResults(st, "hv_"+fn.Name(), fn.Signature))
		return
	}
	if ct := x.K.fns[key]; ct != nil && !ct.Inline {
		x.callContract(st, ct, fn, args, pos, k)
		return
	}
	x.callBody(st, fn, args, binds, k)
}

func inRepoFnAny(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if inRepoFn(f) {
			return true
		}
	}
	return false
}

func (x *Exec) seqOf(st *State, v SVal) *Term {
	switch s := v.(type) {
	case VSl:
		return x.sliceTerm(st, s)
	case VT:
		if s.t.Sort == SStr {
			return strBytes(s.t)
		}
		return s.t
	case VPtrCell:
		c := st.cells[s.id]
		return x.toTermNF(st, c.val, c.typ)
	}
	panic(unsupported("sequence of %T", v))
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []SVal, pos token.Pos) SVal {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case VMap:
			l := freshConst("maplen", SInt)
			if v.shared() {
				l = mapSize(x.sharedContent(st, v))
			}
			st.assume(mkGe(l, mkInt(0)))
			st.assume(mkLe(l, mkBig(maxLen)))
			return VT{l}
		default:
			t := x.seqOf(st, v)
			l := mkLen(t)
			if !l.isInt() {
				st.assume(mkLe(l, mkBig(maxLen)))
			}
			return VT{l}
		}
	case "cap":
		l := mkLen(x.seqOf(st, args[0]))
		n := freshConst("cap", SInt)
		st.assume(mkGe(n, l))
		st.assume(mkLe(n, mkBig(maxLen)))
		return VT{n}
	case "append":
		a, ok := args[0].(VSl)
		if !ok {
			panic(unsupported("append to %T", args[0]))
		}
		if len(args) == 1 {
			return a
		}
		// the appended elements (variadic array or spread slice)
		bs := x.seqOf(st, args[1])
		if bv, ok := args[1].(VSl); ok && bv.cell > 0 {
			// the spread array was read now; later stores to it do not change the result
			bs = x.sliceTerm(st, bv)
		}
		et := elemType(c.Args[0].Type())
		x.listElem(st, bs, et, pos)
		x.appendAlias(c, pos)
		base := x.sliceTerm(st, a)
		r := x.mergeSeq(st, mkConcatS(base.Sort, base, bs))
		nl := tFalse
		if bs.Op == "seq.empty" {
			nl = a.nil_
			if nl == nil || a.cell > 0 {
				nl = tFalse
			}
		} else if v, ok := st.decide(mkGe(mkLen(bs), mkInt(1))); !(ok && v) {
			if a.cell == 0 && a.nil_ != tFalse {
				nl = mkAnd(a.nil_, mkEq(mkLen(bs), mkInt(0)))
			}
		}
		st.assume(mkLe(mkLen(r), mkBig(maxLen)))
		return VSl{seq: r, nil_: nl}
	case "copy":
		d, ok := args[0].(VSl)
		if !ok || d.cell == 0 {
			panic(unsupported("copy into a slice whose backing array is not local"))
		}
		src := x.seqOf(st, args[1])
		dst := x.sliceTerm(st, d)
		n := mkIte(mkLe(mkLen(src), mkLen(dst)), mkLen(src), mkLen(dst))
		if v, ok := st.decide(mkLe(mkLen(src), mkLen(dst))); ok {
			if v {
				n = mkLen(src)
			} else {
				n = mkLen(dst)
			}
		}
		x.setCell(st, d.cell, VT{mkConcatS(dst.Sort, mkExtract(src, mkInt(0), n), mkExtract(dst, n, mkSub(mkLen(dst), n)))})
		return VT{n}
	case "delete":
		m := args[0].(VMap)
		if m.shared() {
			a := optDecl(sortOf(m.t.Elem()))
			x.setShared(st, m, mkStore(x.sharedContent(st, m), x.toTermNF(st, args[1], m.t.Key()), nilOf(a.sort)))
			return nil
		}
		if m.cell < 0 {
			st.om = nil
			return nil
		}
		if st.frozen[m.cell] {
			panic(unsupported("delete in a map whose value escaped"))
		}
		cv := st.cells[m.cell]
		a := optDecl(sortOf(m.t.Elem()))
		x.setCell(st, m.cell, VT{mkStore(x.toTermNF(st, cv.val, cv.typ), x.toTermNF(st, args[1], m.t.Key()), nilOf(a.sort))})
		return nil
	case "ssa:wrapnilchk":
		x.derefCheck(st, args[0], pos)
		return args[0]
	case "panic":
		x.safe(st, "panic unreachable", tFalse, pos)
		st.dead = true
		return nil
	case "min", "max":
		r := x.toTermNF(st, args[0], c.Args[0].Type())
		for i, a := range args[1:] {
			t := x.toTermNF(st, a, c.Args[i+1].Type())
			if b.Name() == "min" {
				r = mkIte(mkLe(r, t), r, t)
			} else {
				r = mkIte(mkGe(r, t), r, t)
			}
		}
		return VT{r}
	}
	panic(unsupported("builtin %s", b.Name()))
}

// mergeSeq merges adjacent slices of one sequence: s[a:a+n] ++ s[a+n:…], s[a:a+n] ++ [s[a+n]]
func (x *Exec) mergeSeq(st *State, t *Term) *Term {
	if t.Op != "seq.++" {
		return t
	}
	ps := append([]*Term{}, t.Args...)
	for i := 0; i+1 < len(ps); {
		if m := x.mergePair(st, ps[i], ps[i+1]); m != nil {
			ps = append(ps[:i:i], append([]*Term{m}, ps[i+2:]...)...)
			if i > 0 {
				i--
			}
			continue
		}
		i++
	}
	return mkConcatS(t.Sort, ps...)
}

func yes(st *State, t *Term) bool {
	v, ok := st.decide(t)
	return ok && v
}

func (x *Exec) mergePair(st *State, a, b *Term) *Term {
	if a.Op != "seq.extract" {
		return nil
	}
	s, off, n := a.Args[0], a.Args[1], a.Args[2]
	end := mkAdd(off, n)
	// the shapes first: the bounds may need the solver
	at := b.Op == "seq.unit" && b.Args[0].Op == "seq.nth" && b.Args[0].Args[0] == s && b.Args[0].Args[1] == end
	next := b.Op == "seq.extract" && b.Args[0] == s && b.Args[1] == end
	if !at && !next {
		return nil
	}
	must := func(ts ...*Term) bool {
		for _, t := range ts {
			if !yes(st, t) && !x.S.quick(st, t) {
				return false
			}
		}
		return true
	}
	if !must(mkGe(off, mkInt(0)), mkGe(n, mkInt(0))) {
		return nil
	}
	if at {
		if must(mkLt(end, mkLen(s))) {
			return mkExtract(s, off, mkAdd(n, mkInt(1)))
		}
		return nil
	}
	if must(mkGe(b.Args[2], mkInt(0)), mkLe(mkAdd(end, b.Args[2]), mkLen(s))) {
		return mkExtract(s, off, mkAdd(n, b.Args[2]))
	}
	return nil
}

// listElem: elements appended to a list of domain values must not be nil (global data invariant)
func (x *Exec) listElem(st *State, bs *Term, et types.Type, pos token.Pos) {
	i := ti(et)
	if i.k != kADT {
		return
	}
	for _, p := range parts(bs) {
		if p.Op == "seq.unit" {
			x.safe(st, "no nil element added to a list", mkNot(mkEq(p.Args[0], nilOf(i.sort))), pos)
		}
	}
}

// appendAlias records append sites whose base slice may share its backing array
func (x *Exec) appendAlias(c *ssa.CallCommon, pos token.Pos) {
	base := c.Args[0]
	if linearBase(base, map[ssa.Value]bool{}) {
		return
	}
	x.noteAssume("append at " + x.pos(pos) + " does not write into memory still visible through another slice")
}

func linearBase(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !linearBase(e, seen) {
				return false
			}
		}
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		_, ok := v.X.(*ssa.Alloc)
		return ok
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return linearBase(v.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		// x.f = append(x.f, …)
		if v.Op == token.MUL {
			return true
		}
	}
	return false
}

// ---- contract calls ----

func (x *Exec) paramEnv(ct *Contract, fn *ssa.Function, args []SVal) map[string]sv {
	env := map[string]sv{}
	ps := fn.Params
	off := 0
	if fn.Signature.Recv() != nil {
		env["self"] = sv{args[0], styp(ps[0].Type())}
		off = 1
	}
	for i := off; i < len(ps); i++ {
		if i-off < len(ct.Params) {
			env[ct.Params[i-off]] = sv{args[i], styp(ps[i].Type())}
		}
	}
	if len(ct.Params) != len(ps)-off {
		panic(unsupported("contract of %s names %d parameters, the function has %d", shortKey(ct.Key), len(ct.Params), len(ps)-off))
	}
	return env
}

func (x *Exec) defaultPre(st *State, ct *Contract, fn *ssa.Function, args []SVal) *Term {
	var gs []*Term
	off := 0
	if fn.Signature.Recv() != nil {
		off = 1
	}
	for i, p := range fn.Params {
		n := "self"
		if i >= off {
			n = ct.Params[i-off]
		}
		if ct.Nullable[n] {
			continue
		}
		switch ti(p.Type()).k {
		case kADT, kObj, kOpt:
			gs = append(gs, x.nonNilGoal(args[i]))
		case kOpaque:
		}
	}
	return mkAnd(gs...)
}

func (x *Exec) callContract(st *State, ct *Contract, fn *ssa.Function, args []SVal, pos token.Pos, k cont) {
	// arguments become observable by the callee
	nargs := make([]SVal, len(args))
	for i, a := range args {
		nargs[i] = a
		switch v := a.(type) {
		case VSl:
			if v.cell > 0 {
				nargs[i] = VSl{seq: x.toTerm(st, v, fn.Params[i].Type()), nil_: tFalse}
			}
		case VPtrCell:
			nargs[i] = VT{x.toTerm(st, v, fn.Params[i].Type())}
		}
	}
	args = nargs
	short := shortKey(ct.Key)
	env := x.paramEnv(ct, fn, args)
	if g := x.defaultPre(st, ct, fn, args); g != tTrue {
		x.oblig(st, "pre", "non-nil arguments of "+short, g, pos)
	}
	pre := st.clone()
	st.om = nil
	sc := &specCtx{x: x, st: st, old: pre, env: env}
	for _, r := range ct.Requires {
		x.oblig(st, "pre", "precondition of "+short+": "+trunc(r.String(), 80), sc.term(r), pos)
	}
	if st.dead {
		return
	}
	mods := *sc
	mods.old = pre
	if st.ghost["fs"] != nil {
		for _, m := range ct.Modifies {
			if m.head() == "file" || m.head() == "content" || m.head() == "ghost" && m.list[1].atom == "fs" {
				// the files at any moment of the call
				mid := st.clone()
				mc := mods
				mc.st = mid
				for _, m := range ct.Modifies {
					if m.head() != "fld" && m.head() != "map" {
						x.havocLoc(&mc, m)
					}
				}
				for _, b := range ct.Behs {
					if len(b.Ghost) > 0 || b.Optional {
						continue
					}
					cw := &specCtx{x: x, st: pre, old: pre, env: env}
					whenT := tTrue
					for _, w := range b.When {
						whenT = mkAnd(whenT, cw.term(w))
					}
					for _, e := range b.Steps {
						x.assumeSpec(&mc, whenT, e, ct.Key+":"+b.Name)
						if x.pureDepth == 0 {
							x.used[ct.Key+"\x00"+b.Name] = true
						}
					}
				}
				x.fsStep(mid, pos)
				break
			}
		}
	}
	for _, m := range ct.Modifies {
		x.havocLoc(&mods, m)
	}
	rs := fn.Signature.Results()
	errIdx := -1
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			errIdx = i
		}
	}
	finish := func(s *State, errv SVal) {
		env2 := map[string]sv{}
		for kk, v := range env {
			env2[kk] = v
		}
		res := make([]SVal, rs.Len())
		resName := func(i int) string {
			if i < len(ct.Results) {
				return ct.Results[i]
			}
			return fmt.Sprintf("res%d", i)
		}
		isOK := errv != nil && yes(s, mkEq(errv.(VT).t, noErr())) || errv == nil
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			switch {
			case i == errIdx:
				res[i] = errv
			case ct.Fresh[resName(i)] && ti(t).k == kObj:
				if !isOK {
					res[i] = VObj{mkInt(0), ti(t).named}
					break
				}
				o := freshObj(ti(t).named)
				sty := o.n.Underlying().(*types.Struct)
				for j := 0; j < sty.NumFields(); j++ {
					s.heapWrite(heapKey(o.n, j), o.addr, s.freshVal("f_"+sty.Field(j).Name(), sty.Field(j).Type()))
				}
				res[i] = o
			default:
				res[i] = s.freshVal("r_"+fn.Name(), t)
			}
			env2[resName(i)] = sv{res[i], styp(t)}
		}
		c2 := &specCtx{x: x, st: s, old: pre, env: env2}
		bindResult := func(e *sx) bool {
			if e.head() != "=" || e.list[1].isL {
				return false
			}
			for i := range res {
				if i != errIdx && resName(i) == e.list[1].atom {
					cur := c2.toT(sv{res[i], styp(rs.At(i).Type())})
					if cur.Op != "const" || !strings.HasPrefix(cur.Name, "r_") {
						return false
					}
					t := c2.term(e.list[2])
					if t.Sort != cur.Sort {
						return false
					}
					memo := map[*Term]bool{}
					for _, f := range s.facts {
						if contains(f, cur, memo) {
							s.assume(mkEqRaw(cur, t))
							break
						}
					}
					typ := rs.At(i).Type()
					switch ti(typ).k {
					case kSlice:
						res[i] = VSl{seq: t, nil_: s.nilFlag(t)}
					default:
						res[i] = s.fromTerm(t, typ)
					}
					c2.env[resName(i)] = sv{res[i], styp(typ)}
					return true
				}
			}
			return false
		}
		for _, b := range ct.Behs {
			if x.beh != nil && x.beh.Uses != nil {
				if x.beh.Uses[ct.Key] && !x.beh.Uses[ct.Key+":"+b.Name] {
					continue
				}
				if !x.beh.Uses[ct.Key] && b.Optional {
					continue
				}
			} else if b.Optional {
				continue
			}
			if x.pureDepth == 0 {
				x.used[ct.Key+"\x00"+b.Name] = true
			}
			if len(b.Ghost) == 0 {
				cw := &specCtx{x: x, st: pre, old: pre, env: env}
				whenT := tTrue
				for _, w := range b.When {
					whenT = mkAnd(whenT, cw.term(w))
				}
				for _, e := range b.Ensures {
					if yes(s, whenT) && isOK && bindResult(e) {
						continue
					}
					x.assumeSpec(c2, mkFn(whenT), e, ct.Key+":"+b.Name)
				}
				continue
			}
			// ghost behavior: universally quantified fact, instantiated by triggers
			genv := map[string]sv{}
			for kk, v := range c2.env {
				genv[kk] = v
			}
			var vars []*Term
			for _, g := range b.Ghost {
				v := mkVar(fmt.Sprintf("%s@%s.%s", g.name, short, b.Name), g.ty.sort)
				vars = append(vars, v)
				genv[g.name] = svOf(v, g.ty)
			}
			cw := &specCtx{x: x, st: pre, old: pre, env: genv}
			hyp := tTrue
			for _, w := range b.When {
				hyp = mkAnd(hyp, cw.term(w))
			}
			cg := &specCtx{x: x, st: s, old: pre, env: genv}
			con := tTrue
			for _, e := range b.Ensures {
				con = mkAnd(con, cg.term(e))
			}
			var trg []*Term
			for _, tr := range b.Trigger {
				trg = append(trg, cw.term(tr))
			}
			if len(trg) == 0 {
				panic(unsupported("behavior %s of %s needs a trigger", b.Name, short))
			}
			s.qfacts = append(s.qfacts, qfact{vars: vars, triggers: trg, body: mkImp(hyp, con), label: short + ":" + b.Name})
		}
		if s.dead {
			return
		}
		out := make([]SVal, len(res))
		copy(out, res)
		k(s, out)
	}
	if errIdx < 0 {
		finish(st, nil)
		return
	}
	s2 := st.clone()
	finish(st, VT{noErr()})
	x.paths++
	finish(s2, VT{newErr()})
}

func mkFn(t *Term) *Term { return t }

// assumeSpec assumes (hyp ⇒ e); a leading forall becomes a triggered fact
func (x *Exec) assumeSpec(c *specCtx, hyp *Term, e *sx, label string) {
	switch e.head() {
	case "and":
		for _, a := range e.list[1:] {
			x.assumeSpec(c, hyp, a, label)
		}
		return
	case "=>":
		x.assumeSpec(c, mkAnd(hyp, c.term(e.list[1])), e.list[2], label)
		return
	case "forall":
		vs := x.K.vars(e.list[1])
		env := map[string]sv{}
		for kk, v := range c.env {
			env[kk] = v
		}
		var vars []*Term
		for _, g := range vs {
			freshCnt++
			v := mkVar(fmt.Sprintf("%s@%d", g.name, freshCnt), g.ty.sort)
			vars = append(vars, v)
			env[g.name] = svOf(v, g.ty)
		}
		cc := c.with(env)
		var trg []*Term
		for _, t := range e.list[2].list[1:] {
			trg = append(trg, cc.term(t))
		}
		c.st.qfacts = append(c.st.qfacts, qfact{vars: vars, triggers: trg, body: mkImp(hyp, cc.term(e.list[3])), label: label})
		return
	}
	t := c.term(e)
	if e.head() == "=" && c.st.yes(hyp) && x.bindFile(c, e) {
		return
	}
	c.st.assume(mkImp(hyp, t))
}

// bindFile: (= (fs.content p) expr) about a file a call has just changed replaces its entry
func (x *Exec) bindFile(c *specCtx, e *sx) bool {
	if e.list[1].head() != "fs.content" {
		return false
	}
	f := fsx{x, c.st}
	p := c.term(e.list[1].list[1])
	cur := f.sel(p)
	if cur.Op != "const" || !strings.HasPrefix(cur.Name, "mod_file") || !c.st.yes(f.has(p)) {
		return false
	}
	t := c.term(e.list[2])
	if contains(t, cur, map[*Term]bool{}) {
		return false
	}
	c.st.assume(mkEq(cur, mkCons(fsOpt(), t)))
	f.put(p, t)
	return true
}

// proveSpec emits obligations for e under hyp (leading forall: fresh constants)
func (x *Exec) proveSpec(c *specCtx, e *sx, kind, label string, pos token.Pos) {
	switch e.head() {
	case "and":
		for _, a := range e.list[1:] {
			x.proveSpec(c, a, kind, label, pos)
		}
		return
	case "=>":
		n := *c
		n.st = c.st.clone()
		n.st.assume(c.term(e.list[1]))
		x.proveSpec(&n, e.list[2], kind, label, pos)
		return
	case "forall":
		vs := x.K.vars(e.list[1])
		env := map[string]sv{}
		for kk, v := range c.env {
			env[kk] = v
		}
		for _, g := range vs {
			env[g.name] = svOf(freshConst(g.name, g.ty.sort), g.ty)
		}
		x.proveSpec(c.with(env), e.list[3], kind, label, pos)
		return
	}
	if x.K.macros[e.head()].body != nil {
		m := x.K.macros[e.head()]
		switch m.body.head() {
		case "and", "=>", "forall":
			env := map[string]sv{}
			for kk, v := range c.env {
				env[kk] = v
			}
			for i, p := range m.params {
				env[p] = c.eval(e.list[i+1])
			}
			x.proveSpec(c.with(env), m.body, kind, label, pos)
			return
		}
	}
	x.oblig(c.st, kind, label+": "+trunc(e.String(), 160), c.term(e), pos)
}

// havocLoc gives an arbitrary value to a location named by a modifies clause: (fld obj f) | ghost name
func (x *Exec) havocLoc(c *specCtx, m *sx) {
	if m.head() == "fld" {
		o, ok := c.eval(m.list[1]).v.(VObj)
		if !ok {
			panic(unsupported("modifies: object expected in %s", m))
		}
		gn := ghostStruct(o.n)
		st := gn.Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == m.list[2].atom {
				nv := c.st.freshVal("mod_"+st.Field(j).Name(), st.Field(j).Type())
				if mv, ok := nv.(VMap); ok && mv.cell > 0 {
					delete(c.st.frozen, mv.cell)
				}
				c.st.heapWrite(heapKey(gn, j), o.addr, nv)
				c.st.wlog = append(c.st.wlog, wrec{n: gn, fi: j, addr: o.addr})
				return
			}
		}
	}
	if m.head() == "map" {
		v, ok := c.eval(m.list[1]).v.(VMap)
		if !ok || !v.shared() {
			panic(unsupported("modifies: shared map expected in %s", m))
		}
		if v.id.isInt() && v.id.Lit.Sign() == 0 {
			return // the nil map
		}
		c.x.setShared(c.st, v, freshConst("modmap", mapSort(v.t)))
		return
	}
	if m.head() == "file" || m.head() == "content" {
		p := (&specCtx{x: c.x, st: c.old, old: c.old, env: c.env}).term(m.list[1])
		c.st.setGhostAt("fs", p, freshConst("mod_file", fsOpt().sort))
		if m.head() == "file" {
			c.st.setGhostAt("gen", p, freshConst("mod_gen", optDecl(SInt).sort))
		}
		return
	}
	if m.head() == "ghost" {
		n := m.list[1].atom
		if g, ok := c.st.ghost[n]; ok {
			c.st.setGhost(n, freshConst("g_"+n, g.Sort))
		}
		return
	}
	panic(unsupported("modifies clause %s", m))
}
