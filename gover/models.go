package main

import (
	"go/token"
	"go/types"
	"strings"
)

type model func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont)

var models = map[string]model{}

var bytesType = types.NewSlice(types.Typ[types.Uint8])

func bytesVal(t *Term) SVal { return VSl{seq: t, nil_: tFalse} }

func le64(t *Term) *Term {
	declFun("le64", []string{SInt}, SByt)
	fixedLenFuns["le64"] = 8
	return mkApp("le64", t)
}

func dec64(t *Term) *Term {
	declFun("dec64", []string{SByt}, SInt)
	nonNegFuns["dec64"] = true
	return mkApp("dec64", t)
}

func declareModels() {
	declFun("le64", []string{SInt}, SByt)
	declFun("dec64", []string{SByt}, SInt)
	fixedLenFuns["le64"] = 8
	nonNegFuns["dec64"] = true
	declFun("sha512", []string{SByt}, SByt)
	fixedLenFuns["sha512"] = 64
	declFun("hexenc", []string{SByt}, SStr)
	declFun("hexdec", []string{SStr}, SByt)
	declFun("hexok", []string{SStr}, SBool)
	declFun("dec10", []string{SInt}, SStr)
	declFun("bytescmp", []string{SByt, SByt}, SInt)
	declFun("str2bytes", []string{SStr}, SByt)
	declFun("bytes2str", []string{SByt}, SStr)
	declFun("flt_of_int", []string{SInt}, "Flt")
	declFun("nextpow2", []string{SInt}, SInt)
	noErr()
	rewrites["bytes2str"] = func(a []*Term) (*Term, bool) {
		if a[0].Op == "uf" && a[0].Name == "str2bytes" {
			return a[0].Args[0], true
		}
		return nil, false
	}
	rewrites["str2bytes"] = func(a []*Term) (*Term, bool) {
		if a[0].Op == "uf" && a[0].Name == "bytes2str" {
			return a[0].Args[0], true
		}
		return nil, false
	}
	extraFacts = append(extraFacts, func(u *universe) []*Term {
		var out []*Term
		for _, t := range u.byKey["uf le64"] {
			x := t.Args[0]
			rng := mkAnd(mkGe(x, mkInt(0)), mkLt(x, two64))
			out = append(out, mkImp(rng, mkEqRaw(rawApp("dec64", SInt, t), x)))
		}
		for _, t := range u.byKey["uf dec64"] {
			s := t.Args[0]
			out = append(out, mkGe(mkSub(two64, mkInt(1)), t))
			out = append(out, mkImp(mkEq(mkLen(s), mkInt(8)), mkEqRaw(rawApp("le64", SByt, t), s)))
		}
		for _, t := range u.byKey["uf hexenc"] {
			out = append(out, mkEqRaw(rawApp("hexdec", SByt, t), t.Args[0]), rawApp("hexok", SBool, t))
		}
		for _, t := range u.byKey["uf dec10"] {
			declFun("undec10", []string{SStr}, SInt)
			out = append(out, mkEqRaw(rawApp("undec10", SInt, t), t.Args[0]))
		}
		for _, t := range u.byKey["uf bytes2str"] {
			out = append(out, mkEqRaw(rawApp("str2bytes", SByt, t), t.Args[0]))
		}
		for _, t := range u.byKey["uf str2bytes"] {
			out = append(out, mkEqRaw(rawApp("bytes2str", SStr, t), t.Args[0]))
			if strLits[t.Args[0]] != nil {
				out = append(out, mkEqRaw(t, strBytes(t.Args[0])))
			}
		}
		for _, t := range u.byKey["uf bytescmp"] {
			out = append(out, mkEq(mkEqRaw(t, mkInt(0)), mkEq(t.Args[0], t.Args[1])))
		}
		return out
	})

	errModel := func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{VT{newErr()}})
	}
	models["errors.New"] = errModel
	models["fmt.Errorf"] = errModel
	models["fmt.Sprintf"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{VT{x.sprintf(st, args)}})
	}
	models["encoding/binary.littleEndian.PutUint64"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		s, ok := args[1].(VSl)
		if !ok || s.cell == 0 {
			panic(unsupported("PutUint64 into a slice that is not a local array"))
		}
		cur := x.sliceTerm(st, s)
		x.safe(st, "PutUint64: at least 8 bytes", mkGe(mkLen(cur), mkInt(8)), pos)
		v := x.toTermNF(st, args[2], types.Typ[types.Uint64])
		n := mkLen(cur)
		nv := le64(v)
		if !yes(st, mkEq(n, mkInt(8))) {
			nv = mkConcatS(SByt, nv, mkExtract(cur, mkInt(8), mkSub(n, mkInt(8))))
		}
		x.setCell(st, s.cell, VT{nv})
		k(st, nil)
	}
	models["encoding/binary.littleEndian.Uint64"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		b := x.seqOf(st, args[1])
		x.safe(st, "Uint64: at least 8 bytes", mkGe(mkLen(b), mkInt(8)), pos)
		var e *Term
		if st.yes(mkEq(mkLen(b), mkInt(8))) {
			e = b
		} else {
			e = st.normExtract(b, mkInt(0), mkInt(8), 0)
		}
		if e.Op == "uf" && e.Name == "le64" {
			v := e.Args[0]
			if st.yes(mkGe(v, mkInt(0))) && st.yes(mkLt(v, two64)) {
				k(st, []SVal{VT{v}})
				return
			}
		}
		r := dec64(e)
		st.typeFacts(r, types.Typ[types.Uint64])
		k(st, []SVal{VT{r}})
	}
	models["bytes.Compare"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		a, b := x.seqOf(st, args[0]), x.seqOf(st, args[1])
		r := mkApp("bytescmp", a, b)
		e := mkEq(a, b)
		st.assume(mkEq(mkEq(r, mkInt(0)), e))
		if v, ok := st.decide(e); ok && v {
			k(st, []SVal{VT{mkInt(0)}})
			return
		}
		k(st, []SVal{VT{r}})
	}
	models["bytes.Equal"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{VT{mkEq(x.seqOf(st, args[0]), x.seqOf(st, args[1]))}})
	}
	models["encoding/hex.DecodeString"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		s := args[0].(VT).t
		var okT, val *Term
		if s.Op == "uf" && s.Name == "hexenc" {
			okT, val = tTrue, s.Args[0]
		} else {
			okT, val = mkApp("hexok", s), mkApp("hexdec", s)
		}
		if okT != tTrue {
			s2 := st.clone()
			s2.assume(mkNot(okT))
			if !s2.dead {
				k(s2, []SVal{VSl{seq: freshConst("hexpart", SByt), nil_: tFalse}, VT{newErr()}})
			}
			st.assume(okT)
		}
		if !st.dead {
			k(st, []SVal{bytesVal(val), VT{noErr()}})
		}
	}
	models["encoding/hex.EncodeToString"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{VT{mkApp("hexenc", x.seqOf(st, args[0]))}})
	}
	// sha512: a hasher is a byte accumulator
	models["crypto/sha512.New"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{VPtrCell{st.newCell(bytesType, VT{mkEmpty(SByt)})}})
	}
	models["crypto/sha512.Sum512"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{VT{mkApp("sha512", x.seqOf(st, args[0]))}})
	}
	models["iface hash.Hash.Write"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		c, ok := args[0].(VPtrCell)
		if !ok {
			panic(unsupported("unknown hasher"))
		}
		b := x.seqOf(st, args[1])
		cur := x.toTermNF(st, st.cells[c.id].val, bytesType)
		x.setCell(st, c.id, VT{mkConcatS(SByt, cur, b)})
		k(st, []SVal{VT{mkLen(b)}, VT{noErr()}})
	}
	models["iface hash.Hash.Sum"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		c, ok := args[0].(VPtrCell)
		if !ok {
			panic(unsupported("unknown hasher"))
		}
		pre := x.seqOf(st, args[1])
		cur := x.toTermNF(st, st.cells[c.id].val, bytesType)
		k(st, []SVal{bytesVal(mkConcatS(SByt, pre, mkApp("sha512", cur)))})
	}
	// next power of two through floating point
	flt1 := func(name string) {
		declFun("math:"+name, []string{"Flt"}, "Flt")
		models["math."+name] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
			k(st, []SVal{VT{mkApp("math:"+name, args[0].(VT).t)}})
		}
	}
	for _, n := range []string{"Log", "Log2", "Ceil", "Floor", "Sqrt", "Log10", "Abs"} {
		flt1(n)
	}
	declFun("math:Pow", []string{"Flt", "Flt"}, "Flt")
	models["math.Pow"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		a, b := args[0].(VT).t, args[1].(VT).t
		if n := nextPow2Arg(a, b); n != nil {
			x.noteAssume("math.Pow(2, math.Ceil(math.Log(n)/math.Log(2))) computes the smallest power of two that is at least n (checked by the bounded run-time harness for n up to 5000)")
			r := mkApp("nextpow2", n)
			st.assume(mkGe(r, n))
			st.assume(mkImp(mkGe(n, mkInt(1)), mkLt(r, mkMul(mkInt(2), n))))
			k(st, []SVal{VT{mkApp("flt_of_int", r)}})
			return
		}
		k(st, []SVal{VT{mkApp("math:Pow", a, b)}})
	}
}

func isFlt(t *Term, n int64) bool {
	return t.Op == "uf" && t.Name == "flt_of_int" && t.Args[0].isInt() && t.Args[0].Lit.IsInt64() && t.Args[0].Lit.Int64() == n
}

func nextPow2Arg(a, b *Term) *Term {
	if !isFlt(a, 2) || b.Name != "math:Ceil" {
		return nil
	}
	q := b.Args[0]
	if q.Name == "math:Log2" && q.Args[0].Name == "flt_of_int" {
		return q.Args[0].Args[0]
	}
	if q.Name != "flt:/" {
		return nil
	}
	l, r := q.Args[0], q.Args[1]
	if l.Name != "math:Log" || r.Name != "math:Log" || !isFlt(r.Args[0], 2) || l.Args[0].Name != "flt_of_int" {
		return nil
	}
	return l.Args[0].Args[0]
}

func (x *Exec) sprintf(st *State, args []SVal) *Term {
	f, ok := args[0].(VT)
	if !ok || strLits[f.t] == nil {
		return freshConst("sprintf", SStr)
	}
	format := *strLits[f.t]
	var el []*Term
	if len(args) > 1 {
		if s, ok := args[1].(VSl); ok {
			if s.cell > 0 {
				if a, ok := st.cells[s.cell].val.(VArr); ok {
					for _, e := range a.el {
						if t, ok := e.(VT); ok {
							el = append(el, t.t)
						} else {
							return freshConst("sprintf", SStr)
						}
					}
				}
			}
		}
	}
	unbox := func(t *Term) *Term {
		if t.Op == "uf" && strings.HasPrefix(t.Name, "mk_box:") {
			return t.Args[0]
		}
		return nil
	}
	if len(el) == 1 {
		a := unbox(el[0])
		if a != nil {
			switch {
			case format == "%x" && a.Sort == SByt:
				return mkApp("hexenc", a)
			case (format == "%d" || format == "%v") && a.Sort == SInt:
				return mkApp("dec10", a)
			case (format == "%s" || format == "%v") && a.Sort == SStr:
				return a
			}
		}
	}
	// a concatenation of texts
	if cat := catFormat(format, el, unbox); cat != nil {
		return cat
	}
	// deterministic function of the arguments
	n := "sprintf:" + format
	var as []string
	for _, e := range el {
		as = append(as, e.Sort)
	}
	n += "/" + strings.Join(as, ",")
	for _, r := range []string{"|", "\\", "\n"} {
		n = strings.ReplaceAll(n, r, "_")
	}
	declFun(n, as, SStr)
	return mkApp(n, el...)
}
