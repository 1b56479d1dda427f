package main

import (
	"go/token"
	"go/types"
)

// time and big integers
func declareModels2() {
	declFun("beint", []string{SInt}, SByt)
	declFun("unbe", []string{SByt}, SInt)
	nonNegFuns["unbe"] = true
	extraFacts = append(extraFacts, func(u *universe) []*Term {
		var out []*Term
		for _, t := range u.byKey["uf beint"] {
			n := t.Args[0]
			out = append(out, mkEqRaw(rawApp("unbe", SInt, t), mkIte(mkGe(n, mkInt(0)), n, mkSub(mkInt(0), n))))
		}
		return out
	})
	timeNote := "instants are modelled as their nanoseconds since 1970 (years 1678 to 2262); location and monotonic reading are ignored"
	val := func(x *Exec, st *State, v SVal) *Term { return x.toTermNF(st, v, types.Typ[types.Int64]) }
	models["time.Unix"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		x.noteAssume(timeNote)
		s, n := val(x, st, args[0]), val(x, st, args[1])
		r := mkAdd(mkMul(s, mkInt(1000000000)), n)
		st.typeFacts(r, types.Typ[types.Int64])
		k(st, []SVal{VT{r}})
	}
	models["time.Time.UTC"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{args[0]})
	}
	models["time.Time.UnixNano"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		x.noteAssume(timeNote)
		k(st, []SVal{args[0]})
	}
	sec := func(d int64) model {
		return func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
			x.noteAssume(timeNote)
			k(st, []SVal{VT{mkDiv(val(x, st, args[0]), mkInt(d))}})
		}
	}
	models["time.Time.Unix"] = sec(1000000000)
	models["time.Time.UnixMilli"] = sec(1000000)
	models["time.Time.UnixMicro"] = sec(1000)
	models["time.Now"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		r := freshConst("now", SInt)
		st.typeFacts(r, types.Typ[types.Int64])
		k(st, []SVal{VT{r}})
	}
	var bigT types.Type
	bigInt := func(sg *types.Signature) types.Type {
		if bigT == nil {
			bigT = sg.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		}
		return bigT
	}
	models["math/big.NewInt"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		id := st.newCell(bigInt(sg), VT{val(x, st, args[0])})
		k(st, []SVal{VPtrCell{id}})
	}
	models["math/big.Int.SetBytes"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		c, ok := args[0].(VPtrCell)
		if !ok {
			panic(unsupported("SetBytes of an unknown big.Int"))
		}
		b := x.seqOf(st, args[1])
		var v *Term
		if b.Op == "uf" && b.Name == "beint" && st.yes(mkGe(b.Args[0], mkInt(0))) {
			v = b.Args[0]
		} else {
			v = mkApp("unbe", b)
		}
		x.setCell(st, c.id, VT{v})
		k(st, []SVal{c})
	}
	deref := func(x *Exec, st *State, v SVal, pos token.Pos) *Term {
		x.derefCheck(st, v, pos)
		switch v := v.(type) {
		case VPtrCell:
			return x.toTermNF(st, st.cells[v.id].val, types.Typ[types.Int64])
		case VT:
			x.noteAssume("big integers are not modified after they are passed to or returned by this code")
			return mkSel(optDecl(SInt), 0, v.t)
		}
		panic(unsupported("big.Int receiver %T", v))
	}
	models["math/big.Int.Bytes"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{bytesVal(mkApp("beint", deref(x, st, args[0], pos)))})
	}
	models["math/big.Int.Sign"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		n := deref(x, st, args[0], pos)
		k(st, []SVal{VT{mkIte(mkLt(n, mkInt(0)), mkInt(-1), mkIte(mkEq(n, mkInt(0)), mkInt(0), mkInt(1)))}})
	}
}
