package main

import (
	"go/token"
	"go/types"
	"strings"
)

// ---- ghost file system ----
//
// fs  maps the path of every regular file to its content.
// gen maps a path to the number of times another file has taken its place: a handle stays valid
//     as long as the generation of its path is the one it was opened with.
// Every call may fail; a failed or partial write leaves an arbitrary content in its file only.

var ghostFileT *types.Named
var ghostSorts = map[string]types.Type{} // declared ghost globals

const (
	gfPath = iota
	gfGen
	gfPos
	gfOpen
	gfWr
)

// ghostStruct maps an external object type to the struct of its ghost fields
func ghostStruct(n *types.Named) *types.Named {
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File" {
		if ghostFileT == nil {
			f := func(name string, k types.BasicKind) *types.Var {
				return types.NewField(0, n.Obj().Pkg(), name, types.Typ[k], false)
			}
			s := types.NewStruct([]*types.Var{f("path", types.String), f("gen", types.Int), f("pos", types.Int), f("open", types.Bool), f("wr", types.Bool)}, nil)
			ghostFileT = types.NewNamed(types.NewTypeName(0, n.Obj().Pkg(), "File", nil), s, nil)
		}
		return ghostFileT
	}
	return n
}

var fsNote = "the file system is modelled by the contents of the files by path (POSIX open, read, write, rename and remove semantics; any call may fail; no other process changes the files meanwhile; paths of distinct plain names differ)"

type fsx struct {
	x  *Exec
	st *State
}

func (f fsx) fs() *Term  { return f.st.ghost["fs"] }
func (f fsx) gen() *Term { return f.st.ghost["gen"] }

func fsOpt() *adt { return optDecl(SByt) }

func (f fsx) has(path *Term) *Term {
	return mkNot(mkEq(f.sel(path), nilOf(fsOpt().sort)))
}

// sel reads the entry of a path, skipping writes to paths known to be different
func (f fsx) sel(path *Term) *Term { return f.st.selAt(f.fs(), path) }

func (f fsx) content(path *Term) *Term {
	c := mkSel(fsOpt(), 0, f.sel(path))
	f.st.assume(mkLe(mkLen(c), mkBig(maxLen)))
	return c
}

func (f fsx) genOf(path *Term) *Term {
	a := f.st.selAt(f.gen(), path)
	op := optDecl(SInt)
	return mkIte(mkEq(a, nilOf(op.sort)), mkInt(0), mkSel(op, 0, a))
}

func (f fsx) bump(path *Term) {
	op := optDecl(SInt)
	f.st.setGhostAt("gen", path, mkCons(op, mkAdd(f.genOf(path), mkInt(1))))
}

func (f fsx) put(path, content *Term) {
	if content.Op == "seq.++" {
		content = f.x.mergeSeq(f.st, content)
	}
	f.st.setGhostAt("fs", path, mkCons(fsOpt(), content))
}

func (f fsx) del(path *Term) {
	f.st.setGhostAt("fs", path, nilOf(fsOpt().sort))
}

func (f fsx) garble(path *Term) {
	f.st.setGhostAt("fs", path, freshConst("garbled", fsOpt().sort))
}

func (f fsx) field(h VObj, i int) *Term {
	g := ghostStruct(h.n)
	t := f.x.toTermNF(f.st, f.x.heapRead(f.st, g, i, h.addr), fieldType(g, i))
	if i == gfPath {
		t = f.st.repOf(t)
	}
	return t
}

func (f fsx) setField(h VObj, i int, t *Term) {
	g := ghostStruct(h.n)
	f.st.heapWrite(heapKey(g, i), h.addr, VT{t})
	f.st.wlog = append(f.st.wlog, wrec{n: g, fi: i, addr: h.addr})
}

// valid: the handle refers to the file that is now at its path
func (f fsx) valid(h VObj) *Term {
	p := f.field(h, gfPath)
	return mkAnd(f.field(h, gfOpen), mkEq(f.field(h, gfGen), f.genOf(p)), f.has(p))
}

// split runs k on the branches where c holds and does not hold
func split(st *State, c *Term, k func(st *State, holds bool)) {
	if v, ok := st.decide(c); ok {
		k(st, v)
		return
	}
	n := st.clone()
	n.assume(mkNot(c))
	st.assume(c)
	if !st.dead {
		k(st, true)
	}
	if !n.dead {
		k(n, false)
	}
}

func eofTerm(x *Exec, st *State) *Term {
	c := mkConst("gerr:io.EOF", SErr)
	noErr()
	st.assume(mkNot(mkEq(c, noErr())))
	return c
}

// ioErr is an error other than io.EOF
func ioErr(x *Exec, st *State) *Term {
	e := newErr()
	st.assume(mkNot(mkEq(e, eofTerm(x, st))))
	return e
}

// steps checks the step conditions of the function under verification in the current state of the files
func (x *Exec) fsStep(st *State, pos token.Pos) {
	if x.beh == nil || x.root == nil || x.pureDepth > 0 || x.entry == nil {
		return
	}
	c := &specCtx{x: x, st: st.clone(), old: x.entry, env: x.rootEnv}
	ec := &specCtx{x: x, st: x.entry, old: x.entry, env: x.rootEnv}
	var ps, gs []*Term
	all := false
	for _, m := range x.root.Modifies {
		switch {
		case m.head() == "file":
			ps = append(ps, ec.term(m.list[1]))
			gs = append(gs, ec.term(m.list[1]))
		case m.head() == "content":
			ps = append(ps, ec.term(m.list[1]))
		case m.head() == "ghost" && m.list[1].atom == "fs":
			all = true
		}
	}
	if !all {
		x.oblig(c.st, "frame", "at every moment only the declared files have changed", fsSame(c.st, c.st.ghost["fs"], x.entry.ghost["fs"], ps), pos)
		x.oblig(c.st, "frame", "at every moment only the declared files were replaced", fsSame(c.st, c.st.ghost["gen"], x.entry.ghost["gen"], gs), pos)
	}
	for _, e := range x.beh.Steps {
		x.proveSpec(c, e, "step", "at every moment", pos)
	}
}

func declareModels3() {
	declFun("pathjoin", []string{SStr, SStr}, SStr)
	declFun("fisize", []string{"I_io.fs.FileInfo"}, SInt)
	declFun("fiisdir", []string{"I_io.fs.FileInfo"}, SBool)
	declFun("isdirpath", []string{SStr}, SBool)
	nonNegFuns["fisize"] = true
	fi := "I_io.fs.FileInfo"
	begin := func(x *Exec, st *State) fsx {
		x.noteAssume(fsNote)
		if st.ghost["fs"] == nil || st.ghost["gen"] == nil {
			panic(unsupported("no ghost file system declared"))
		}
		return fsx{x, st}
	}
	fileT := func(sg *types.Signature) *types.Named {
		return namedStructOf(sg.Results().At(0).Type())
	}
	fail := func(st *State, x *Exec, k cont, res ...SVal) {
		n := st.clone()
		k(n, append(res, VT{ioErr(x, n)}))
	}
	models["path/filepath.Join"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		if s, ok := args[0].(VSl); ok {
			var el []*Term
			if s.cell > 0 {
				if a, ok := st.cells[s.cell].val.(VArr); ok {
					for _, e := range a.el {
						if t, ok := e.(VT); ok {
							el = append(el, t.t)
						}
					}
				} else if t, ok := st.cells[s.cell].val.(VT); ok {
					el = unitParts(t.t)
				}
			} else {
				el = unitParts(s.seq)
			}
			if len(el) == 2 {
				x.noteAssume(fsNote)
				k(st, []SVal{VT{mkApp("pathjoin", el...)}})
				return
			}
		}
		k(st, []SVal{VT{freshConst("path", SStr)}})
	}
	open := func(f fsx, sg *types.Signature, path *Term, wr bool) VObj {
		h := freshObj(fileT(sg))
		f.setField(h, gfPath, path)
		f.setField(h, gfPos, mkInt(0))
		f.setField(h, gfOpen, tTrue)
		f.setField(h, gfWr, mkBool(wr))
		return h
	}
	nilFile := func(sg *types.Signature) SVal { return VObj{mkInt(0), fileT(sg)} }
	models["os.Open"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		path := args[0].(VT).t
		begin(x, st)
		fail(st, x, k, nilFile(sg))
		split(st, fsx{x, st}.has(path), func(st *State, file bool) {
			f := fsx{x, st}
			h := open(f, sg, path, false)
			g := f.genOf(path)
			if !file {
				st.assume(mkApp("isdirpath", path))
				g = mkInt(-1)
			}
			f.setField(h, gfGen, g)
			k(st, []SVal{h, VT{noErr()}})
		})
	}
	models["os.Create"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		path := args[0].(VT).t
		begin(x, st)
		n := st.clone()
		fsx{x, n}.garble(path)
		x.fsStep(n, pos)
		k(n, []SVal{nilFile(sg), VT{ioErr(x, n)}})
		f := fsx{x, st}
		f.put(path, mkEmpty(SByt))
		h := open(f, sg, path, true)
		f.setField(h, gfGen, f.genOf(path))
		k(st, []SVal{h, VT{noErr()}})
	}
	models["os.Remove"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		path := args[0].(VT).t
		begin(x, st)
		fail(st, x, k)
		f := fsx{x, st}
		f.bump(path)
		f.del(path)
		x.fsStep(st, pos)
		k(st, []SVal{VT{noErr()}})
	}
	models["os.Rename"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		a, b := args[0].(VT).t, args[1].(VT).t
		begin(x, st)
		fail(st, x, k)
		f := fsx{x, st}
		x.noteAssume("only regular files are renamed")
		st.assume(f.has(a))
		c := f.content(a)
		f.bump(a)
		f.bump(b)
		f.del(a)
		f.put(b, c)
		x.fsStep(st, pos)
		k(st, []SVal{VT{noErr()}})
	}
	models["os.MkdirAll"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		begin(x, st)
		fail(st, x, k)
		k(st, []SVal{VT{noErr()}})
	}
	models["os.Stat"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		path := args[0].(VT).t
		f := begin(x, st)
		x.noteAssume("os.Stat fails exactly on absent files")
		split(st, mkOr(f.has(path), mkApp("isdirpath", path)), func(st *State, ok bool) {
			i := freshConst("info", fi)
			if !ok {
				k(st, []SVal{VT{i}, VT{newErr()}})
				return
			}
			f := fsx{x, st}
			st.assume(mkEq(mkApp("fiisdir", i), mkNot(f.has(path))))
			st.assume(mkImp(f.has(path), mkEq(mkApp("fisize", i), mkLen(f.content(path)))))
			k(st, []SVal{VT{i}, VT{noErr()}})
		})
	}
	models["iface io/fs.FileInfo.Size"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		t := mkApp("fisize", args[0].(VT).t)
		st.typeFacts(t, types.Typ[types.Int64])
		k(st, []SVal{VT{t}})
	}
	models["iface io/fs.FileInfo.IsDir"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{VT{mkApp("fiisdir", args[0].(VT).t)}})
	}
	models["os.File.Stat"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		f := begin(x, st)
		h := args[0].(VObj)
		i := freshConst("info", fi)
		fail(st, x, k, VT{i})
		split(st, f.valid(h), func(st *State, ok bool) {
			if ok {
				f := fsx{x, st}
				sz := mkLen(f.content(f.field(h, gfPath)))
				st.assume(mkEq(mkApp("fisize", i), sz))
				st.assume(mkLe(sz, mkBig(maxLen)))
			}
			k(st, []SVal{VT{i}, VT{noErr()}})
		})
	}
	models["os.File.Close"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		f := begin(x, st)
		f.setField(args[0].(VObj), gfOpen, tFalse)
		k(st, []SVal{VT{freshConst("closeerr", SErr)}})
	}
	models["os.File.Sync"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		begin(x, st)
		k(st, []SVal{VT{freshConst("syncerr", SErr)}})
	}
	models["os.File.Seek"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		f := begin(x, st)
		h := args[0].(VObj)
		n := st.clone()
		fsx{x, n}.setField(h, gfPos, freshConst("pos", SInt))
		k(n, []SVal{VT{mkInt(0)}, VT{ioErr(x, n)}})
		off := x.toTermNF(st, args[1], types.Typ[types.Int64])
		wh := x.toTermNF(st, args[2], types.Typ[types.Int])
		np := off
		if !st.yes(mkEq(wh, mkInt(0))) {
			np = freshConst("pos", SInt)
			st.assume(mkImp(mkEq(wh, mkInt(0)), mkEq(np, off)))
			st.assume(mkImp(mkEq(wh, mkInt(1)), mkEq(np, mkAdd(f.field(h, gfPos), off))))
		}
		st.assume(mkGe(np, mkInt(0)))
		f.setField(h, gfPos, np)
		k(st, []SVal{VT{np}, VT{noErr()}})
	}
	readAt := func(x *Exec, st *State, h VObj, dst SVal, off *Term, k func(st *State, n *Term, err *Term)) {
		d, ok := dst.(VSl)
		if !ok {
			panic(unsupported("read into an unknown buffer"))
		}
		set := func(st *State, v *Term) {
			if d.cell > 0 {
				x.setCell(st, d.cell, VT{v})
			} else if !st.yes(mkEq(mkLen(d.seq), mkInt(0))) {
				panic(unsupported("read into a slice whose backing array is not local"))
			}
		}
		ln := mkLen(x.sliceTerm(st, d))
		any := func(st *State, err *Term) {
			c := freshConst("read", SByt)
			st.assume(mkEq(mkLen(c), ln))
			n := freshConst("n", SInt)
			st.assume(mkGe(n, mkInt(0)))
			st.assume(mkLe(n, ln))
			set(st, c)
			k(st, n, err)
		}
		n := st.clone()
		any(n, ioErr(x, n))
		f := fsx{x, st}
		split(st, mkAnd(f.valid(h), mkGe(off, mkInt(0))), func(st *State, ok bool) {
			if !ok {
				if fsx(fsx{x, st}).field(h, gfGen) == mkInt(-1) {
					// a directory cannot be read
					if !st.yes(mkGe(ln, mkInt(1))) {
						st.assume(mkEq(ln, mkInt(0)))
						k(st, mkInt(0), noErr())
					}
					return
				}
				n := st.clone()
				any(n, eofTerm(x, n))
				c := freshConst("read", SByt)
				st.assume(mkEq(mkLen(c), ln))
				set(st, c)
				k(st, ln, noErr())
				return
			}
			f := fsx{x, st}
			cont := f.content(f.field(h, gfPath))
			st.assume(mkLe(mkLen(cont), mkBig(maxLen)))
			fits := mkLe(mkAdd(off, ln), mkLen(cont))
			if !st.yes(mkGe(ln, mkInt(1))) {
				fits = mkOr(fits, mkEq(ln, mkInt(0)))
			}
			split(st, fits, func(st *State, full bool) {
				if full {
					if !st.yes(mkEq(ln, mkInt(0))) {
						set(st, st.normExtract(cont, off, ln, 0))
					}
					k(st, ln, noErr())
					return
				}
				m := freshConst("n", SInt)
				st.assume(mkEq(m, mkIte(mkLe(off, mkLen(cont)), mkSub(mkLen(cont), off), mkInt(0))))
				st.assume(mkGe(m, mkInt(0)))
				st.assume(mkLt(m, ln))
				c := freshConst("read", SByt)
				st.assume(mkEq(mkLen(c), ln))
				set(st, c)
				k(st, m, eofTerm(x, st))
			})
		})
	}
	models["os.File.ReadAt"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		begin(x, st)
		readAt(x, st, args[0].(VObj), args[1], x.toTermNF(st, args[2], types.Typ[types.Int64]), func(st *State, n, err *Term) {
			k(st, []SVal{VT{n}, VT{err}})
		})
	}
	models["os.File.Read"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		f := begin(x, st)
		h := args[0].(VObj)
		p := f.field(h, gfPos)
		readAt(x, st, h, args[1], p, func(st *State, n, err *Term) {
			fsx{x, st}.setField(h, gfPos, mkAdd(p, n))
			k(st, []SVal{VT{n}, VT{err}})
		})
	}
	splice := func(st *State, cur, at, b *Term) *Term {
		if st.yes(mkEq(at, mkLen(cur))) {
			return mkConcatS(SByt, cur, b)
		}
		r := freshConst("written", SByt)
		inside := mkAnd(mkGe(at, mkInt(0)), mkLe(at, mkLen(cur)))
		end := mkAdd(at, mkLen(b))
		st.assume(mkImp(mkEq(at, mkLen(cur)), mkEq(r, mkConcatS(SByt, cur, b))))
		st.assume(mkImp(mkAnd(inside, mkLe(end, mkLen(cur))), mkEq(r, mkConcatS(SByt, mkExtract(cur, mkInt(0), at), b, mkExtract(cur, end, mkSub(mkLen(cur), end))))))
		st.assume(mkImp(mkAnd(inside, mkGt(end, mkLen(cur))), mkEq(r, mkConcatS(SByt, mkExtract(cur, mkInt(0), at), b))))
		return r
	}
	write := func(x *Exec, st *State, h VObj, b, at *Term, pos token.Pos, k func(st *State, n, err *Term)) {
		f := fsx{x, st}
		split(st, mkAnd(f.valid(h), f.field(h, gfWr)), func(st *State, ok bool) {
			f := fsx{x, st}
			if !ok {
				// a handle that is closed, read-only or whose file is no longer at its path: anything may change
				n := st.clone()
				if !st.yes(mkNot(f.field(h, gfOpen))) && !st.yes(mkNot(f.field(h, gfWr))) {
					n.setGhost("fs", freshConst("g_fs", f.fs().Sort))
					x.fsStep(n, pos)
				}
				nn := freshConst("n", SInt)
				k(n, nn, freshConst("writeerr", SErr))
				return
			}
			p := f.field(h, gfPath)
			n := st.clone()
			fsx{x, n}.put(p, freshConst("garbled", SByt))
			x.fsStep(n, pos)
			nn := freshConst("n", SInt)
			n.assume(mkGe(nn, mkInt(0)))
			n.assume(mkLe(nn, mkLen(b)))
			k(n, nn, ioErr(x, n))
			f.put(p, splice(st, f.content(p), at, b))
			k(st, mkLen(b), noErr())
		})
	}
	models["os.File.Write"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		f := begin(x, st)
		h := args[0].(VObj)
		at := f.field(h, gfPos)
		b := x.seqOf(st, args[1])
		write(x, st, h, b, at, pos, func(st *State, n, err *Term) {
			fsx{x, st}.setField(h, gfPos, mkAdd(at, n))
			k(st, []SVal{VT{n}, VT{err}})
		})
	}
	models["os.File.WriteAt"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		begin(x, st)
		write(x, st, args[0].(VObj), x.seqOf(st, args[1]), x.toTermNF(st, args[2], types.Typ[types.Int64]), pos, func(st *State, n, err *Term) {
			k(st, []SVal{VT{n}, VT{err}})
		})
	}
	unboxFile := func(v SVal) (VObj, bool) {
		if h, ok := v.(VObj); ok {
			return h, true
		}
		if t, ok := v.(VT); ok && t.t.Op == "uf" && strings.HasPrefix(t.t.Name, "mk_box:os.File:") && osFile() != nil {
			return VObj{t.t.Args[0], osFile()}, true
		}
		return VObj{}, false
	}
	models["io.Copy"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		f := begin(x, st)
		d, ok1 := unboxFile(args[0])
		s, ok2 := unboxFile(args[1])
		if !ok1 || !ok2 {
			panic(unsupported("io.Copy between unknown streams"))
		}
		sp := f.field(s, gfPos)
		var b *Term
		split(st, mkAnd(f.valid(s), mkGe(sp, mkInt(0)), mkLe(sp, mkLen(f.content(f.field(s, gfPath))))), func(st *State, ok bool) {
			f := fsx{x, st}
			if ok {
				c := f.content(f.field(s, gfPath))
				b = st.normExtract(c, sp, mkSub(mkLen(c), sp), 0)
			} else {
				b = freshConst("copied", SByt)
			}
			f.setField(s, gfPos, freshConst("pos", SInt))
			at := f.field(d, gfPos)
			write(x, st, d, b, at, pos, func(st *State, n, err *Term) {
				fsx{x, st}.setField(d, gfPos, mkAdd(at, n))
				k(st, []SVal{VT{n}, VT{err}})
			})
		})
	}
	models["github.com/juju/fslock.New"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
		k(st, []SVal{freshObj(fileT(sg))})
	}
	for _, n := range []string{"TryLock", "Lock", "Unlock"} {
		models["github.com/juju/fslock.Lock."+n] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
			x.noteAssume("locking does not change any file")
			k(st, []SVal{VT{freshConst("lockerr", SErr)}})
		}
	}
	errIs := models["errors.Is"]
	if errIs == nil {
		models["errors.Is"] = func(x *Exec, st *State, args []SVal, sg *types.Signature, pos token.Pos, k cont) {
			k(st, []SVal{VT{freshConst("erris", SBool)}})
		}
	}
}

var osFileT *types.Named

func osFile() *types.Named {
	if osFileT == nil {
		for _, p := range P.prog.AllPackages() {
			if p.Pkg.Path() == "os" {
				if o := p.Pkg.Scope().Lookup("File"); o != nil {
					osFileT = o.Type().(*types.Named)
				}
			}
		}
	}
	return osFileT
}

func unitParts(t *Term) []*Term {
	var out []*Term
	for _, p := range parts(t) {
		if p.Op != "seq.unit" {
			return nil
		}
		out = append(out, p.Args[0])
	}
	return out
}

// ---- strings ----

func strParts(t *Term) []*Term {
	if t.Op == "uf" && t.Name == "str_cat" {
		return append(strParts(t.Args[0]), strParts(t.Args[1])...)
	}
	if l := strLits[t]; l != nil && *l == "" {
		return nil
	}
	return []*Term{t}
}

func mkStrCat(ts ...*Term) *Term {
	declFun("str_cat", []string{SStr, SStr}, SStr)
	var ps []*Term
	for _, t := range ts {
		for _, p := range strParts(t) {
			if n := len(ps); n > 0 && strLits[ps[n-1]] != nil && strLits[p] != nil {
				ps[n-1] = strLit(*strLits[ps[n-1]] + *strLits[p])
				continue
			}
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return strLit("")
	}
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = mkApp("str_cat", ps[i], r)
	}
	return r
}

// strEq simplifies the equality of two strings built by concatenation or by joining a path
func strEq(a, b *Term) (*Term, bool) {
	if a.Op == "uf" && b.Op == "uf" && a.Name == "pathjoin" && b.Name == "pathjoin" && a.Args[0] == b.Args[0] {
		return mkEq(a.Args[1], b.Args[1]), true
	}
	isCat := func(t *Term) bool { return t.Op == "uf" && t.Name == "str_cat" }
	if !isCat(a) && !isCat(b) {
		return nil, false
	}
	pa, pb := strParts(a), strParts(b)
	ch := false
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb, ch = pa[1:], pb[1:], true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb, ch = pa[:len(pa)-1], pb[:len(pb)-1], true
	}
	if len(pa) == 0 || len(pb) == 0 {
		for _, p := range append(append([]*Term{}, pa...), pb...) {
			if strLits[p] != nil {
				return tFalse, true // a non-empty literal
			}
		}
	}
	if !ch {
		return nil, false
	}
	x, y := mkStrCat(pa...), mkStrCat(pb...)
	if x == y {
		return tTrue, true
	}
	return mkEq(x, y), true
}

// catFormat renders a format made of text, %s of strings and %d of integers
func catFormat(format string, el []*Term, unbox func(*Term) *Term) *Term {
	var ps []*Term
	for i := 0; format != ""; {
		j := strings.Index(format, "%")
		if j < 0 {
			ps = append(ps, strLit(format))
			break
		}
		if j > 0 {
			ps = append(ps, strLit(format[:j]))
		}
		if j+1 >= len(format) || i >= len(el) {
			return nil
		}
		a := unbox(el[i])
		i++
		switch {
		case a == nil:
			return nil
		case (format[j+1] == 's' || format[j+1] == 'v') && a.Sort == SStr:
			ps = append(ps, a)
		case (format[j+1] == 'd' || format[j+1] == 'v') && a.Sort == SInt:
			ps = append(ps, mkApp("dec10", a))
		default:
			return nil
		}
		format = format[j+2:]
		if format == "" && i != len(el) {
			return nil
		}
	}
	return mkStrCat(ps...)
}

// fsSame: two file maps agree on every path but ps
func fsSame(st *State, a, b *Term, ps []*Term) *Term {
	strip := func(t *Term) *Term {
		for t.Op == "store" {
			hit := false
			for _, p := range ps {
				if e := mkEq(t.Args[1], p); e == tTrue || st.yes(e) {
					hit = true
				}
			}
			if !hit {
				break
			}
			t = t.Args[0]
		}
		return t
	}
	a, b = strip(a), strip(b)
	if a == b {
		return tTrue
	}
	_, v := arrSorts(a.Sort)
	for _, p := range ps {
		a, b = mkStore(a, p, nilOf(v)), mkStore(b, p, nilOf(v))
	}
	return mkEq(a, b)
}

// ---- shared maps: maps with identity, whose contents live in the heap ----

var sharedMaps = map[string]bool{}
var sharedNames = map[string]*types.Named{}
var sharedSet = map[*types.Named]bool{}

func sharedMap(t types.Type) bool {
	m, ok := types.Unalias(t).(*types.Map)
	return ok && len(sharedMaps) > 0 && sharedMaps[strings.ReplaceAll(m.String(), modPath+"/", "")]
}

func (m VMap) shared() bool { return m.cell == -2 }

func isSharedNamed(n *types.Named) bool { return sharedSet[n] }

// sharedNamed is the fake struct type that holds the contents of such a map
func sharedNamed(m *types.Map) *types.Named {
	s := m.String()
	n := sharedNames[s]
	if n == nil {
		inner := types.NewNamed(types.NewTypeName(0, nil, "contents of "+s, nil), m, nil)
		n = types.NewNamed(types.NewTypeName(0, nil, "map"+sanitize(s), nil), types.NewStruct([]*types.Var{types.NewField(0, nil, "content", inner, false)}, nil), nil)
		sharedNames[s] = n
		sharedSet[n] = true
	}
	return n
}

func sharedType(m *types.Map) types.Type {
	return sharedNamed(m).Underlying().(*types.Struct).Field(0).Type()
}

func (x *Exec) sharedContent(st *State, m VMap) *Term {
	v := x.heapRead(st, sharedNamed(m.t), 0, m.id)
	return x.toTermNF(st, v, sharedType(m.t))
}

func (x *Exec) setShared(st *State, m VMap, content *Term) {
	n := sharedNamed(m.t)
	st.heapWrite(heapKey(n, 0), m.id, VT{content})
	st.wlog = append(st.wlog, wrec{n: n, addr: m.id})
}
