package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/steve-care-software/rodkina"

type program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by path
	funcs    map[string]*ssa.Function
	named    []*types.Named // concrete struct/other named types of the repo
	mut      map[*types.Named]bool
	implOf   map[*types.Named][]*types.Named // interface -> implementors
	notes    map[string]bool
	conv     map[*types.Named]map[*types.Named]bool // interface <- concrete conversions
	convFrom map[*types.Named]map[*types.Named]bool // interface <- interface conversions
	convAny  map[*types.Named]bool
}

func loadProgram(dir string) (*program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, "./libs/...", "./instances/...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &program{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, mut: map[*types.Named]bool{}, implOf: map[*types.Named][]*types.Named{}, notes: map[string]bool{}, conv: map[*types.Named]map[*types.Named]bool{}, convFrom: map[*types.Named]map[*types.Named]bool{}, convAny: map[*types.Named]bool{}}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.pkgs[sp.Pkg.Path()] = sp
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.funcs[funcKey(m)] = m
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				if _, isI := n.Underlying().(*types.Interface); !isI {
					p.named = append(p.named, n)
				}
				for i := 0; i < n.NumMethods(); i++ {
					f := prog.FuncValue(n.Method(i))
					if f != nil {
						p.funcs[funcKey(f)] = f
					}
				}
			}
		}
	}
	sort.Slice(p.named, func(i, j int) bool { return p.named[i].String() < p.named[j].String() })
	// mutability: any field store whose base is not an Alloc of the same function
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				p.noteConv(in)
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				addr := st.Addr
				for {
					if fa, ok := addr.(*ssa.FieldAddr); ok {
						base := fa.X
						if n := namedStructOf(base.Type()); n != nil {
							if _, isAlloc := base.(*ssa.Alloc); !isAlloc {
								if _, isFA := base.(*ssa.FieldAddr); !isFA {
									p.mut[n] = true
								}
							}
						}
						addr = base
						continue
					}
					if _, ok := addr.(*ssa.Alloc); ok {
						break
					}
					if addr == st.Addr {
						// store of a whole struct through a pointer
						if n := namedStructOf(addr.Type()); n != nil {
							p.mut[n] = true
						}
					}
					break
				}
			}
		}
	}
	return p, nil
}

func (p *program) noteConv(in ssa.Instruction) {
	asI := func(t types.Type) *types.Named {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return nil
		}
		if _, ok := n.Underlying().(*types.Interface); !ok {
			return nil
		}
		return n
	}
	switch in := in.(type) {
	case *ssa.MakeInterface:
		if n := asI(in.Type()); n != nil {
			if c := namedStructOf(in.X.Type()); c != nil {
				if p.conv[n] == nil {
					p.conv[n] = map[*types.Named]bool{}
				}
				p.conv[n][c] = true
			}
		}
	case *ssa.ChangeInterface:
		if n := asI(in.Type()); n != nil {
			if m := asI(in.X.Type()); m != nil {
				if p.convFrom[n] == nil {
					p.convFrom[n] = map[*types.Named]bool{}
				}
				p.convFrom[n][m] = true
			} else {
				p.convAny[n] = true
			}
		}
	case *ssa.TypeAssert:
		if n := asI(in.AssertedType); n != nil {
			p.convAny[n] = true
		}
	}
}

// funcKey: "<pkgpath>.Type.Method" or "<pkgpath>.Func"
func funcKey(f *ssa.Function) string {
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	return f.String()
}

func shortKey(k string) string { return strings.TrimPrefix(k, modPath+"/") }

// namedStructOf returns the named struct type T for *T (or T)
func namedStructOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func inRepo(n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (p *program) impls(n *types.Named) []*types.Named {
	if r, ok := p.implOf[n]; ok {
		return r
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Named
	for _, c := range p.named {
		if types.Implements(types.NewPointer(c), it) || types.Implements(c, it) {
			out = append(out, c)
		}
	}
	if len(out) > 1 {
		// closed world: keep the types that are actually converted to this interface somewhere in the program
		var used []*types.Named
		for _, c := range out {
			if p.convertedTo(n, c, map[*types.Named]bool{}) {
				used = append(used, c)
			}
		}
		if len(used) == 1 {
			p.notes[fmt.Sprintf("closed world: only %s is ever used as %s", typeMangle(used[0]), typeMangle(n))] = true
			out = used
		}
	}
	p.implOf[n] = out
	return out
}

func (p *program) convertedTo(n, c *types.Named, seen map[*types.Named]bool) bool {
	if seen[n] {
		return false
	}
	seen[n] = true
	if p.conv[n][c] || p.convAny[n] {
		return true
	}
	for m := range p.convFrom[n] {
		if p.convertedTo(m, c, seen) {
			return true
		}
	}
	return false
}

func typeMangle(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	path := n.Obj().Pkg().Path()
	path = strings.TrimPrefix(path, modPath+"/libs/")
	path = strings.ReplaceAll(path, "/domain", "")
	path = strings.ReplaceAll(path, "/", ".")
	return path + "." + n.Obj().Name()
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

var serviceSuffixes = []string{"Adapter", "Builder", "Factory", "Application", "Repository", "Service"}

func isServiceType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return false
	}
	if n.Obj().Name() == "Application" && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "/domain/") {
		return false // declarations and programs hold applications as data
	}
	for _, s := range serviceSuffixes {
		if strings.HasSuffix(n.Obj().Name(), s) {
			return true
		}
	}
	return false
}

// kinds of Go types for the value model
type kind int

const (
	kInt kind = iota
	kBool
	kStr
	kErr
	kSlice
	kADT    // pointer to immutable struct / interface with such single implementation
	kObj    // pointer to mutable struct / interface with such single implementation
	kOpt    // pointer to non-struct (or opaque struct)
	kStruct // struct by value (repo)
	kMap
	kArray
	kOpaque // opaque sort
	kFunc
	kTuple
	kObjVal // mutable struct by value (unsupported except cells)
)

type tinfo struct {
	k     kind
	named *types.Named // struct for ADT/Obj
	elem  types.Type
	sort  string
	bits  int
	sign  bool
}

var P *program
var tiMemo = map[types.Type]tinfo{}

func ti(t types.Type) tinfo {
	t = types.Unalias(t)
	if r, ok := tiMemo[t]; ok {
		return r
	}
	r := ti0(t)
	tiMemo[t] = r
	return r
}

func ti0(t types.Type) tinfo {
	if isErrorType(t) {
		return tinfo{k: kErr, sort: SErr}
	}
	if n, ok := t.(*types.Named); ok {
		if it, ok := n.Underlying().(*types.Interface); ok {
			if inRepo(n) && it.NumMethods() > 0 {
				im := P.impls(n)
				if len(im) == 1 {
					c := im[0]
					if _, ok := c.Underlying().(*types.Struct); ok {
						return ti(types.NewPointer(c))
					}
				}
				P.notes[fmt.Sprintf("interface %s has %d implementations", n, len(im))] = true
			}
			return tinfo{k: kOpaque, sort: "I_" + typeMangle(n)}
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			if inRepo(n) {
				return tinfo{k: kStruct, named: n}
			}
			// instants as nanoseconds since the Unix epoch; arbitrary integers
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "time.Time":
				return tinfo{k: kInt, sort: SInt, bits: 64, sign: true}
			case "math/big.Int":
				return tinfo{k: kInt, sort: SInt}
			}
			return tinfo{k: kOpaque, sort: "O_" + typeMangle(n)}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tinfo{k: kBool, sort: SBool}
		case u.Info()&types.IsInteger != 0:
			bits, sign := 64, true
			switch u.Kind() {
			case types.Int8:
				bits = 8
			case types.Int16:
				bits = 16
			case types.Int32:
				bits = 32
			case types.Uint8:
				bits, sign = 8, false
			case types.Uint16:
				bits, sign = 16, false
			case types.Uint32:
				bits, sign = 32, false
			case types.Uint, types.Uint64, types.Uintptr:
				sign = false
			}
			return tinfo{k: kInt, sort: SInt, bits: bits, sign: sign}
		case u.Info()&types.IsString != 0:
			return tinfo{k: kStr, sort: SStr}
		case u.Info()&types.IsFloat != 0:
			return tinfo{k: kOpaque, sort: "Flt"}
		case u.Kind() == types.UntypedNil:
			return tinfo{k: kOpaque, sort: "Nil"}
		}
		return tinfo{k: kOpaque, sort: "O_" + u.Name()}
	case *types.Slice:
		return tinfo{k: kSlice, elem: u.Elem(), sort: "(Seq " + sortOf(u.Elem()) + ")"}
	case *types.Array:
		return tinfo{k: kArray, elem: u.Elem(), sort: "(Seq " + sortOf(u.Elem()) + ")"}
	case *types.Map:
		if sharedMap(t) {
			return tinfo{k: kMap, elem: u.Elem(), sort: SInt}
		}
		return tinfo{k: kMap, elem: u.Elem(), sort: mapSort(u)}
	case *types.Signature:
		return tinfo{k: kFunc, sort: "Func"}
	case *types.Tuple:
		return tinfo{k: kTuple}
	case *types.Interface:
		return tinfo{k: kOpaque, sort: "Any"}
	case *types.Chan:
		return tinfo{k: kOpaque, sort: "Chan"}
	case *types.Pointer:
		if n := namedStructOf(t); n != nil && inRepo(n) {
			if P.mut[n] {
				return tinfo{k: kObj, named: n, sort: SInt}
			}
			return tinfo{k: kADT, named: n, sort: "T_" + typeMangle(n)}
		}
		if n := namedStructOf(t); n != nil && extObjects[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
			return tinfo{k: kObj, named: n, sort: SInt}
		}
		return tinfo{k: kOpt, elem: u.Elem(), sort: optDecl(sortOf(u.Elem())).sort}
	case *types.Struct:
		return tinfo{k: kOpaque, sort: "O_struct"}
	}
	panic(unsupported("type %s", t))
}

// external struct types treated as heap objects (ghost fields) rather than values
var extObjects = map[string]bool{
	"os.File":                     true,
	"github.com/juju/fslock.Lock": true,
}

func sanitizeSort(s string) string {
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	return strings.ReplaceAll(s, " ", "_")
}

func mapSort(m *types.Map) string {
	k, v := sortOfSafe(m.Key()), sortOfSafe(m.Elem())
	optDecl(v)
	return "(Array " + k + " " + "Opt_" + sanitizeSort(v) + ")"
}

func sortOfSafe(t types.Type) string { return sortOf(t) }

func sortOf(t types.Type) string {
	i := ti(t)
	switch i.k {
	case kStruct:
		return "S_" + typeMangle(i.named)
	case kTuple:
		panic(unsupported("tuple sort"))
	}
	return i.sort
}

// Opt sort as an ADT with one field
func optDecl(elem string) *adt {
	s := "Opt_" + sanitizeSort(elem)
	if a, ok := adtTab[s]; ok {
		return a
	}
	a := &adt{sort: s, sels: []string{"val_" + s}, sorts: []string{elem}}
	adtTab[s] = a
	selTab[a.sels[0]] = selRef{a, 0}
	return a
}

func adtOf(n *types.Named) *adt {
	return adtFor(n, "T_")
}

// adtForStruct is the struct-by-value ADT (no nil used)
func adtForStruct(n *types.Named) *adt { return adtFor(n, "S_") }

func adtFor(n *types.Named, prefix string) *adt {
	s := prefix + typeMangle(n)
	if a, ok := adtTab[s]; ok {
		return a
	}
	a := &adt{sort: s}
	adtTab[s] = a
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		a.sels = append(a.sels, s+"."+f.Name())
		a.sorts = append(a.sorts, sortOf(f.Type()))
		if pt, ok := types.Unalias(f.Type()).Underlying().(*types.Pointer); ok && ti(f.Type()).k == kOpt {
			optDecl(sortOf(pt.Elem()))
		}
	}
	for i := range a.sels {
		selTab[a.sels[i]] = selRef{a, i}
	}
	return a
}
