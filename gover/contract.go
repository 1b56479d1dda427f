package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type stype struct {
	sort string
	typ  types.Type // may be nil
}

type sv struct {
	v  SVal
	ty stype
}

type bvar struct {
	name string
	ty   stype
}

type eachT struct {
	name string // the key, also the name of a ghost variable of the behavior
	body *sx
}

type Behavior struct {
	Name     string
	Ghost    []bvar
	When     []*sx
	Ensures  []*sx
	Trigger  []*sx
	NoSafety bool
	Optional bool
	Invs     []invT
	Fuel     int
	Shapes   int
	Wraps    bool            // wrapped machine arithmetic is named (one constant per term)
	Steps    []*sx           // must hold after every change of the ghost files
	Each     []eachT         // what a range over a map has checked of every key it passed
	Uses     map[string]bool // restricts callee behaviors ("key:beh"), nil = all
	Hide     map[string]bool // definitions and lemmas that the proof of this behavior does not use
	Only     map[string]bool // the only definitions and lemmas that the proof of this behavior uses (nil = all)
	Line     string
}

type invT struct {
	vars []bvar
	body *sx
	src  string
}

type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Requires []*sx
	Behs     []*Behavior
	Invs     []invT
	Modifies []*sx
	Nullable map[string]bool
	Fresh    map[string]bool
	Trusted  string
	Inline   bool
	Fuel     int
	Shapes   int
	Wraps    bool // wrapped machine arithmetic is named (one constant per term)
	Opaque   map[string]bool
	NoDef    bool
}

func (c *Contract) beh(n string) *Behavior {
	for _, b := range c.Behs {
		if b.Name == n {
			return b
		}
	}
	return nil
}

type axiom struct {
	name     string
	vars     []*Term
	triggers [][]*Term
	body     *Term
	kind     string // def | axiom | lemma | invariant
	why      string
	maxRound int
}

type lemma struct {
	terms   []*Term
	name    string
	bvars   []bvar
	vars    []*Term
	hyp     *Term
	concl   *Term
	split   bool
	induct  string // name of the Int variable for induction ("" = none)
	down    *Term
	order   int
	uses    map[string]bool
	fuel    int
	measure *Term
}

type macro struct {
	params []string
	body   *sx
}

type propSpec struct {
	id    string
	behs  [][2]string // key, behavior
	lem   []string
	extra []string
}

type contracts struct {
	alias  map[string]types.Type
	pkg    map[string]string
	fns    map[string]*Contract
	order  []string
	axioms []*axiom
	lemmas []*lemma
	macros map[string]macro
	sorts  map[string]stype // function result types
	props  map[string]*propSpec
	invs   map[string]bool
	roots  []string
	consts map[string]sv
	bad    map[*sx]bool
	badFn  map[string]string
	errs   []string
	used   map[string]bool // axioms and lemmas instantiated in some query
}

func mathInt() stype          { return stype{SInt, nil} }
func boolT() stype            { return stype{SBool, nil} }
func styp(t types.Type) stype { return stype{sortOf(t), t} }

func (K *contracts) fail(s *sx, f string, a ...interface{}) {
	panic(unsupported("%s:%d: %s (in %s)", s.file, s.line, fmt.Sprintf(f, a...), trunc(s.String(), 120)))
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (K *contracts) sort(s *sx) stype {
	if !s.isL {
		switch s.atom {
		case "Int":
			return mathInt()
		case "int", "uint", "int64", "uint64", "bool":
			return styp(types.Universe.Lookup(s.atom).Type())
		case "Bool":
			return boolT()
		case "Str":
			return stype{SStr, types.Typ[types.String]}
		case "Err":
			return stype{SErr, types.Universe.Lookup("error").Type()}
		case "Bytes":
			return styp(types.NewSlice(types.Typ[types.Uint8]))
		case "Any":
			return styp(types.Universe.Lookup("any").Type())
		case "Func":
			return stype{"Func", nil}
		}
		if t, ok := K.alias[s.atom]; ok {
			return styp(t)
		}
		// an uninterpreted ghost sort
		if strings.HasPrefix(s.atom, "G_") {
			return stype{s.atom, nil}
		}
		K.fail(s, "unknown sort")
	}
	switch s.head() {
	case "Seq":
		e := K.sort(s.list[1])
		if e.typ != nil {
			return styp(types.NewSlice(e.typ))
		}
		return stype{"(Seq " + e.sort + ")", nil}
	case "Array":
		return stype{"(Array " + K.sort(s.list[1]).sort + " " + K.sort(s.list[2]).sort + ")", nil}
	case "Map":
		kt, vt := K.sort(s.list[1]), K.sort(s.list[2])
		if kt.typ == nil || vt.typ == nil {
			K.fail(s, "Map needs Go types")
		}
		m := types.NewMap(kt.typ, vt.typ)
		return stype{mapSort(m), m}
	case "Ptr":
		e := K.sort(s.list[1])
		if e.typ == nil {
			return stype{optDecl(e.sort).sort, nil}
		}
		return styp(types.NewPointer(e.typ))
	case "Opt":
		e := K.sort(s.list[1])
		optDecl(e.sort)
		return stype{"Opt_" + sanitizeSort(e.sort), nil}
	}
	K.fail(s, "bad sort")
	return stype{}
}

func (K *contracts) vars(s *sx) []bvar {
	var out []bvar
	for _, e := range s.list {
		if !e.isL || len(e.list) != 2 {
			K.fail(e, "binding (name Sort) expected")
		}
		out = append(out, bvar{e.list[0].atom, K.sort(e.list[1])})
	}
	return out
}

func names(s *sx) []string {
	var out []string
	for _, e := range s.list {
		out = append(out, e.atom)
	}
	return out
}

func (K *contracts) key(s *sx) string {
	i := strings.Index(s.atom, ".")
	if i < 0 {
		K.fail(s, "function key alias.Func expected")
	}
	p, ok := K.pkg[s.atom[:i]]
	if !ok {
		K.fail(s, "unknown package alias %s", s.atom[:i])
	}
	return p + s.atom[i:]
}

func loadContracts(dir string) (K *contracts, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(errUnsupported); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	K = &contracts{used: map[string]bool{}, bad: map[*sx]bool{}, badFn: map[string]string{}, alias: map[string]types.Type{}, pkg: map[string]string{}, fns: map[string]*Contract{}, macros: map[string]macro{}, sorts: map[string]stype{}, props: map[string]*propSpec{}, invs: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	var all []*sx
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		ss, e := parseSx(filepath.Base(f), string(b))
		if e != nil {
			return nil, e
		}
		all = append(all, ss...)
	}
	for pass := 0; pass < 3; pass++ {
		for _, s := range all {
			K.safeTop(s, pass)
		}
	}
	return K, nil
}

// safeTop: a form that no longer fits the code is recorded and dropped; what depends on it becomes unsupported
func (K *contracts) safeTop(s *sx, pass int) {
	if K.bad[s] {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if _, ok := r.(errUnsupported); !ok {
				msg = fmt.Sprintf("%s:%d: internal: %v", s.file, s.line, r)
				if os.Getenv("GOVER_TRACE") != "" {
					fmt.Println(string(debug.Stack()))
				}
			}
			K.bad[s] = true
			K.errs = append(K.errs, msg)
			if s.head() == "func" {
				func() {
					defer func() { recover() }()
					K.badFn[K.key(s.list[1])] = msg
				}()
			}
		}
	}()
	K.top(s, pass)
}

// baseCase evaluates a definition applied to an empty sequence
func baseCase(vars []*Term, b *Term, args []*Term) (*Term, bool) {
	em := false
	for _, a := range args {
		em = em || a.Op == "seq.empty"
	}
	if !em {
		return nil, false
	}
	m := map[*Term]*Term{}
	for i, v := range vars {
		m[v] = args[i]
	}
	switch b.Op {
	case "ite":
		if subst(b.Args[0], m) == tTrue {
			return subst(b.Args[1], m), true
		}
	case "or":
		for _, d := range b.Args {
			if d.Op == "=" && subst(d, m) == tTrue {
				return tTrue, true
			}
		}
	}
	return nil, false
}

// a lemma (= (f (++ a b) …) rhs) marked (split) is used as a rewriting rule, except while proving lemmas
var useSplits bool
var splits = map[string]func(vars []*Term, body *Term, args []*Term) (*Term, bool){}

func (K *contracts) addSplit(s *sx, l *lemma, trg [][]*Term) {
	if len(trg) != 1 || len(trg[0]) != 1 || l.concl.Op != "=" {
		K.fail(s, "split: one trigger and an equality expected")
	}
	pat := trg[0][0]
	rhs := l.concl.Args[1]
	if rhs == pat {
		rhs = l.concl.Args[0]
	} else if l.concl.Args[0] != pat {
		K.fail(s, "split: the left side is the trigger")
	}
	at := -1
	for i, a := range pat.Args {
		if a.Op == "seq.++" && len(a.Args) == 2 {
			at = i
		}
	}
	if pat.Op != "uf" || at < 0 {
		K.fail(s, "split: no concatenation in the trigger")
	}
	splits[pat.Name] = func(vars []*Term, body *Term, args []*Term) (*Term, bool) {
		m := map[*Term]*Term{}
		switch a := args[at]; a.Op {
		case "seq.++":
			for i, v := range pat.Args {
				if i != at {
					m[v] = args[i]
				}
			}
			m[pat.Args[at].Args[0]] = a.Args[0]
			m[pat.Args[at].Args[1]] = mkConcatS(a.Sort, a.Args[1:]...)
			K.used[l.name] = true
			return subst(rhs, m), true
		case "seq.unit":
			for i, v := range vars {
				m[v] = args[i]
			}
			return subst(body, m), true
		}
		return nil, false
	}
}

func (K *contracts) top(s *sx, pass int) {
	h := s.head()
	switch pass {
	case 0:
		switch h {
		case "sharedmap":
			sharedMaps[s.list[1].atom] = true
		case "opaquemap":
			opaqueMaps[s.list[1].atom] = true
		case "pkg":
			K.pkg[s.list[1].atom] = modPath + "/" + s.list[2].atom
		case "alias":
			a := s.list[2].atom
			i := strings.Index(a, ".")
			p, ok := K.pkg[a[:i]]
			if !ok {
				K.fail(s, "unknown package")
			}
			sp := P.pkgs[p]
			if sp == nil {
				K.fail(s, "package %s not loaded", p)
			}
			o := sp.Pkg.Scope().Lookup(a[i+1:])
			if o == nil {
				K.fail(s, "no type %s", a)
			}
			K.alias[s.list[1].atom] = o.Type()
		case "ghost":
			ty := K.sort(s.list[2])
			if ty.typ == nil {
				K.fail(s, "a ghost global needs a Go type")
			}
			ghostSorts[s.list[1].atom] = ty.typ
		case "purefunc":
			// (purefunc pkg.Type f): calls of function values of the named type are applications of f to the value and the arguments
			a := s.list[1].atom
			i := strings.Index(a, ".")
			pureFuncs[K.pkg[a[:i]]+"."+a[i+1:]] = s.list[2].atom
		case "define":
			K.macros[s.list[1].list[0].atom] = macro{names(&sx{list: s.list[1].list[1:], isL: true}), s.list[2]}
		}
	case 1:
		switch h {
		case "fun":
			var as []string
			for _, a := range s.list[2].list {
				as = append(as, K.sort(a).sort)
			}
			r := K.sort(s.list[3])
			declFun(s.list[1].atom, as, r.sort)
			K.sorts[s.list[1].atom] = r
			for _, o := range s.list[4:] {
				switch o.head() {
				case "len":
					n, _ := strconv.ParseInt(o.list[1].atom, 10, 64)
					fixedLenFuns[s.list[1].atom] = n
				case "nonneg":
					nonNegFuns[s.list[1].atom] = true
				}
			}
		case "def":
			var as []string
			vs := K.vars(s.list[2])
			for _, v := range vs {
				as = append(as, v.ty.sort)
			}
			r := K.sort(s.list[3])
			declFun(s.list[1].atom, as, r.sort)
			K.sorts[s.list[1].atom] = r
			for _, o := range s.list[5:] {
				if o.head() == "nonneg" {
					nonNegFuns[s.list[1].atom] = true
				}
			}
		}
	case 2:
		switch h {
		case "def":
			name := s.list[1].atom
			vs := K.vars(s.list[2])
			env, terms := K.bind(vs, name)
			b := K.pure(s.list[4], env)
			r := K.sort(s.list[3])
			if b.Sort != r.sort {
				K.fail(s, "body has sort %s", b.Sort)
			}
			app := mkApp(name, terms...)
			theDefs[name] = &axiom{name: name, vars: terms, body: mkEqRaw(app, b)}
			if rewrites[name] == nil {
				rewrites[name] = func(args []*Term) (*Term, bool) {
					if r, ok := baseCase(terms, b, args); ok {
						return r, true
					}
					if sp := splits[name]; sp != nil {
						return sp(terms, b, args)
					}
					return nil, false
				}
			}
			K.axioms = append(K.axioms, &axiom{name: "def " + name, vars: terms, triggers: [][]*Term{{app}}, body: mkEqRaw(app, b), kind: "def"})
		case "axiom", "lemma":
			// (axiom name ((x S)…) (hyp…) concl (trigger t…)… (why "…"))
			name := s.list[1].atom
			vs := K.vars(s.list[2])
			env, terms := K.bind(vs, name)
			var hs []*Term
			var concl *Term
			var trg [][]*Term
			l := &lemma{name: name, bvars: vs, vars: terms, order: len(K.axioms)}
			a := &axiom{name: name, vars: terms, kind: h}
			for _, e := range s.list[3:] {
				switch e.head() {
				case "hyp":
					for _, q := range e.list[1:] {
						hs = append(hs, K.pure(q, env))
					}
				case "trigger":
					var one []*Term
					for _, q := range e.list[1:] {
						one = append(one, K.pure(q, env))
					}
					trg = append(trg, one)
				case "why":
					a.why = e.list[1].atom
				case "terms":
					for _, q := range e.list[1:] {
						l.terms = append(l.terms, K.pure(q, env))
					}
				case "split":
					l.split = true
				case "induct":
					l.induct = e.list[1].atom
				case "measure":
					l.measure = K.pure(e.list[1], env)
				case "fuel":
					l.fuel, _ = strconv.Atoi(e.list[1].atom)
				case "maxround":
					a.maxRound, _ = strconv.Atoi(e.list[1].atom)
				default:
					concl = K.pure(e, env)
				}
			}
			l.hyp, l.concl = mkAnd(hs...), concl
			a.body = mkImp(l.hyp, concl)
			a.triggers = trg
			if len(trg) == 0 && len(vs) > 0 {
				K.fail(s, "no trigger")
			}
			if h == "lemma" && l.split && useSplits && l.hyp == tTrue {
				K.lemmas = append(K.lemmas, l)
				K.addSplit(s, l, trg)
				return
			}
			if h == "lemma" {
				K.lemmas = append(K.lemmas, l)
			} else if a.why == "" {
				K.fail(s, "an axiom needs a (why …)")
			}
			K.axioms = append(K.axioms, a)
		case "invariant":
			// (invariant Alias (self) body…)
			t := K.alias[s.list[1].atom]
			i := ti(t)
			if i.k == kStruct {
				t = types.NewPointer(t)
				i = ti(t)
			}
			if i.k != kADT {
				K.fail(s, "invariants are for immutable structs")
			}
			a := adtOf(i.named)
			v := mkVar(s.list[2].list[0].atom+"@"+s.list[1].atom, i.sort)
			env := map[string]sv{s.list[2].list[0].atom: {VT{v}, styp(t)}}
			var bs []*Term
			for _, e := range s.list[3:] {
				bs = append(bs, K.pure(e, env))
			}
			body := mkAnd(bs...)
			K.invs[i.sort] = true
			adtInv[i.sort] = adtInvT{v, body}
			_ = a
			K.axioms = append(K.axioms, &axiom{name: "invariant " + s.list[1].atom, vars: []*Term{v}, triggers: [][]*Term{{v}}, body: mkImp(mkNot(mkEq(v, nilOf(i.sort))), body), kind: "invariant"})
		case "nilfield", "nilassume":
			// (nilfield Alias (self) field cond): the slice field is nil exactly when cond holds of the other fields
			t := K.alias[s.list[1].atom]
			i := ti(t)
			if i.k == kStruct {
				t = types.NewPointer(t)
				i = ti(t)
			}
			if i.k != kADT {
				K.fail(s, "nilfield is for immutable structs")
			}
			v := mkVar(s.list[2].list[0].atom+"@"+s.list[1].atom, i.sort)
			st := i.named.Underlying().(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == s.list[3].atom {
					nilFields[adtOf(i.named).sels[j]] = nilFieldT{adtOf(i.named), j, v, K.pure(s.list[4], map[string]sv{s.list[2].list[0].atom: {VT{v}, styp(t)}}), h == "nilassume"}
				}
			}
		case "func":
			K.fn(s)
		case "prop":
			p := &propSpec{id: s.list[1].atom}
			for _, e := range s.list[2:] {
				switch e.head() {
				case "lemmas":
					p.lem = append(p.lem, names(&sx{list: e.list[1:], isL: true})...)
				default:
					if !e.isL {
						K.fail(e, "(key beh…) expected")
					}
					k := K.key(e.list[0])
					for _, b := range e.list[1:] {
						p.behs = append(p.behs, [2]string{k, b.atom})
					}
				}
			}
			if o := K.props[p.id]; o != nil {
				o.behs = append(o.behs, p.behs...)
				o.lem = append(o.lem, p.lem...)
			} else {
				K.props[p.id] = p
			}
		case "pkg", "alias", "define", "fun", "opaquemap", "ghost", "sharedmap", "purefunc":
		default:
			K.fail(s, "unknown top-level form")
		}
	}
}

var pureFuncs = map[string]string{}

type adtInvT struct{ v, body *Term }

var adtInv = map[string]adtInvT{}

// slice fields of immutable structs whose nil-ness is a function of the other fields (checked when such a struct is built)
type nilFieldT struct {
	a    *adt
	i    int
	v    *Term
	cond *Term
	free bool // assumed, not checked
}

var nilFields = map[string]nilFieldT{}

func mkEqRaw(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(unsupported("sort mismatch %s / %s", a.Sort, b.Sort))
	}
	return intern(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

func (K *contracts) bind(vs []bvar, tag string) (map[string]sv, []*Term) {
	env := map[string]sv{}
	var ts []*Term
	for _, v := range vs {
		t := mkVar(v.name+"@"+tag, v.ty.sort)
		ts = append(ts, t)
		env[v.name] = svOf(t, v.ty)
	}
	return env, ts
}

func svOf(t *Term, ty stype) sv {
	if ty.typ != nil {
		i := ti(ty.typ)
		switch i.k {
		case kSlice:
			return sv{VSl{seq: t, nil_: freshConst("vnil", SBool)}, ty}
		case kObj:
			return sv{VObj{t, i.named}, ty}
		}
	}
	return sv{VT{t}, ty}
}

// pure evaluates a state-independent expression
func (K *contracts) pure(s *sx, env map[string]sv) *Term {
	x := newExec(K)
	st := newState()
	c := &specCtx{x: x, st: st, old: st, env: env}
	return c.term(s)
}

func (K *contracts) fn(s *sx) {
	c := &Contract{Key: K.key(s.list[1]), Nullable: map[string]bool{}, Fresh: map[string]bool{}}
	if o := K.fns[c.Key]; o != nil {
		K.fail(s, "duplicate contract")
	}
	for _, e := range s.list[2:] {
		switch e.head() {
		case "params":
			c.Params = names(&sx{list: e.list[1:], isL: true})
		case "results":
			c.Results = names(&sx{list: e.list[1:], isL: true})
		case "requires":
			c.Requires = append(c.Requires, e.list[1:]...)
		case "nullable":
			for _, n := range e.list[1:] {
				c.Nullable[n.atom] = true
			}
		case "fresh":
			for _, n := range e.list[1:] {
				c.Fresh[n.atom] = true
			}
		case "modifies":
			c.Modifies = append(c.Modifies, e.list[1:]...)
		case "trusted":
			c.Trusted = e.list[1].atom
		case "nodefaults":
			c.NoDef = true
		case "inline": // callers use the body, which is also checked against this contract
			c.Inline = true
		case "opaque":
			c.Opaque = map[string]bool{}
			for _, n := range e.list[1:] {
				c.Opaque["def "+n.atom] = true
				c.Opaque[n.atom] = true
			}
		case "wraps":
			c.Wraps = true
		case "shapes":
			// instantiation rounds spent on the invariants the verifier guesses itself
			c.Shapes, _ = strconv.Atoi(e.list[1].atom)
		case "fuel":
			c.Fuel, _ = strconv.Atoi(e.list[1].atom)
		case "inv":
			c.Invs = append(c.Invs, invT{K.vars(e.list[1]), e.list[2], e.String()})
		case "behavior":
			b := &Behavior{Name: e.list[1].atom, Line: fmt.Sprintf("%s:%d", e.file, e.line)}
			for _, q := range e.list[2:] {
				switch q.head() {
				case "ghost":
					b.Ghost = K.vars(&sx{list: q.list[1:], isL: true})
				case "inv":
					b.Invs = append(b.Invs, invT{K.vars(q.list[1]), q.list[2], q.String()})
				case "when":
					b.When = append(b.When, q.list[1:]...)
				case "ensures":
					b.Ensures = append(b.Ensures, q.list[1:]...)
				case "trigger":
					b.Trigger = append(b.Trigger, q.list[1:]...)
				case "step":
					b.Steps = append(b.Steps, q.list[1:]...)
				case "each":
					b.Each = append(b.Each, eachT{q.list[1].atom, q.list[2]})
				case "nosafety":
					b.NoSafety = true
				case "optional":
					b.Optional = true
				case "hide":
					b.Hide = map[string]bool{}
					for _, u := range q.list[1:] {
						b.Hide[u.atom] = true
						b.Hide["def "+u.atom] = true
					}
				case "only":
					b.Only = map[string]bool{}
					for _, u := range q.list[1:] {
						b.Only[u.atom] = true
					}
				case "fuel":
					b.Fuel, _ = strconv.Atoi(q.list[1].atom)
				case "uses":
					b.Uses = map[string]bool{}
					for _, u := range q.list[1:] {
						if !u.isL {
							b.Uses[u.atom] = true
							continue
						}
						k := K.key(u.list[0])
						for _, n := range u.list[1:] {
							b.Uses[k+":"+n.atom] = true
						}
						b.Uses[k] = true
					}
				default:
					K.fail(q, "unknown behavior clause")
				}
			}
			c.Behs = append(c.Behs, b)
		default:
			K.fail(e, "unknown contract clause")
		}
	}
	K.fns[c.Key] = c
	K.order = append(K.order, c.Key)
}

// ---- evaluation of specification expressions ----

type specCtx struct {
	now *State // inside (old …): the state whose facts decide conditions
	x   *Exec
	st  *State
	old *State
	env map[string]sv
	// in a loop invariant: the state in which the loop starts
	loop *State
}

func (c *specCtx) with(env map[string]sv) *specCtx {
	n := *c
	n.env = env
	return &n
}

// decide evaluates a condition in the facts of the state being described
func (c *specCtx) decide(t *Term) (bool, bool) {
	if c.now != nil {
		return c.now.decide(t)
	}
	return c.st.decide(t)
}

func (c *specCtx) toT(v sv) *Term {
	switch p := v.v.(type) {
	case VSl:
		return c.x.sliceTerm(c.st, p)
	case VMap:
		if p.shared() {
			return c.x.sharedContent(c.st, p)
		}
		if p.cell < 0 {
			return p.id
		}
		cv := c.st.cells[p.cell]
		return c.x.toTermNF(c.st, cv.val, cv.typ)
	case VPtrCell:
		// snapshot without freezing
		tmp := c.st.clone()
		return c.x.toTerm(tmp, p, v.ty.typ)
	}
	return c.x.toTermNF(c.st, v.v, v.ty.typ)
}

func (c *specCtx) term(s *sx) *Term { return c.toT(c.eval(s)) }

func termSV(t *Term, ty stype) sv { return sv{VT{t}, ty} }

func (c *specCtx) asSeq(s *sx) (*Term, stype) {
	v := c.eval(s)
	t := c.toT(v)
	if !strings.HasPrefix(t.Sort, "(Seq ") {
		c.x.K.fail(s, "sequence expected, got %s", t.Sort)
	}
	return t, v.ty
}

func elemSt(ty stype) stype {
	if ty.typ != nil {
		switch u := types.Unalias(ty.typ).Underlying().(type) {
		case *types.Slice:
			et := u.Elem()
			if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return mathInt()
			}
			return styp(et)
		case *types.Array:
			return styp(u.Elem())
		}
	}
	return stype{elemSort(ty.sort), nil}
}

func (c *specCtx) seqSV(t *Term, ty stype) sv {
	return sv{VSl{seq: t, nil_: freshConst("vnil", SBool)}, ty}
}

func (c *specCtx) eval(s *sx) sv {
	x := c.x
	K := x.K
	if !s.isL {
		if s.str {
			return termSV(strLit(s.atom), stype{SStr, types.Typ[types.String]})
		}
		if v, ok := c.env[s.atom]; ok {
			return v
		}
		switch s.atom {
		case "true":
			return termSV(tTrue, boolT())
		case "false":
			return termSV(tFalse, boolT())
		case "noerr":
			return termSV(noErr(), stype{SErr, nil})
		}
		if b, ok := new(big.Int).SetString(s.atom, 10); ok {
			return termSV(mkBig(b), mathInt())
		}
		if sg, ok := funTab[s.atom]; ok && len(sg.args) == 0 {
			return svOf(mkApp(s.atom), K.sorts[s.atom])
		}
		K.fail(s, "unknown name %q", s.atom)
	}
	h := s.head()
	args := s.list[1:]
	need := func(n int) {
		if len(args) != n {
			K.fail(s, "%s: %d arguments expected", h, n)
		}
	}
	bt := func(t *Term) sv { return termSV(t, boolT()) }
	switch h {
	case "=":
		need(2)
		a, b := c.eval(args[0]), c.eval(args[1])
		ta, tb := c.toT(a), c.toT(b)
		if ta.Sort != tb.Sort {
			K.fail(s, "sorts differ: %s / %s", ta.Sort, tb.Sort)
		}
		return bt(mkEq(ta, tb))
	case "not":
		need(1)
		return bt(mkNot(c.term(args[0])))
	case "and", "or":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, c.term(a))
		}
		if h == "and" {
			return bt(mkAnd(ts...))
		}
		return bt(mkOr(ts...))
	case "=>":
		need(2)
		return bt(mkImp(c.term(args[0]), c.term(args[1])))
	case "if":
		need(3)
		cd := c.term(args[0])
		if x.root != nil && x.root.Wraps && cd != tTrue && cd != tFalse {
			if v, ok := c.decide(cd); ok {
				cd = tFalse
				if v {
					cd = tTrue
				}
			}
		}
		if cd == tTrue {
			return c.eval(args[1])
		}
		if cd == tFalse {
			return c.eval(args[2])
		}
		a, b := c.eval(args[1]), c.eval(args[2])
		ty := a.ty
		if ty.typ == nil {
			ty = b.ty
		}
		return svOf(mkIte(cd, c.toT(a), c.toT(b)), ty)
	case "<=", "<", ">=", ">":
		need(2)
		a, b := c.term(args[0]), c.term(args[1])
		switch h {
		case "<=":
			return bt(mkLe(a, b))
		case "<":
			return bt(mkLt(a, b))
		case ">=":
			return bt(mkGe(a, b))
		}
		return bt(mkGt(a, b))
	case "+":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, c.term(a))
		}
		return termSV(mkAdd(ts...), mathInt())
	case "-":
		if len(args) == 1 {
			return termSV(mkSub(mkInt(0), c.term(args[0])), mathInt())
		}
		need(2)
		return termSV(mkSub(c.term(args[0]), c.term(args[1])), mathInt())
	case "*":
		need(2)
		return termSV(mkMul(c.term(args[0]), c.term(args[1])), mathInt())
	case "div":
		need(2)
		return termSV(mkDiv(c.term(args[0]), c.term(args[1])), mathInt())
	case "mod":
		need(2)
		return termSV(mkMod(c.term(args[0]), c.term(args[1])), mathInt())
	case "len":
		need(1)
		t, _ := c.asSeq(args[0])
		return termSV(mkLen(t), mathInt())
	case "nth":
		need(2)
		t, ty := c.asSeq(args[0])
		return svOf(c.st.normNth(t, c.term(args[1])), elemSt(ty))
	case "++":
		var ts []*Term
		var ty stype
		for _, a := range args {
			t, y := c.asSeq(a)
			ts = append(ts, t)
			if ty.typ == nil {
				ty = y
			}
		}
		return c.seqSV(mkConcatS(ts[0].Sort, ts...), ty)
	case "unit":
		need(1)
		v := c.eval(args[0])
		t := c.toT(v)
		ty := stype{"(Seq " + t.Sort + ")", nil}
		if v.ty.typ != nil {
			ty = styp(types.NewSlice(v.ty.typ))
		}
		return c.seqSV(mkUnit(t), ty)
	case "empty":
		need(1)
		ty := K.sort(args[0])
		return c.seqSV(mkEmpty(ty.sort), ty)
	case "extract":
		need(3)
		t, ty := c.asSeq(args[0])
		return c.seqSV(c.st.normExtract(t, c.term(args[1]), c.term(args[2]), 0), ty)
	case "take":
		need(2)
		t, ty := c.asSeq(args[0])
		return c.seqSV(c.st.normExtract(t, mkInt(0), c.term(args[1]), 0), ty)
	case "drop":
		need(2)
		t, ty := c.asSeq(args[0])
		n := c.term(args[1])
		return c.seqSV(c.st.normExtract(t, n, mkSub(mkLen(t), n), 0), ty)
	case "emptymap": // (emptymap K V)
		ty := K.sort(&sx{isL: true, line: s.line, list: append([]*sx{{atom: "Map"}}, args...)})
		return termSV(emptyMap(ty.sort), ty)
	case "get", "haskey", "put", "mdel":
		mv := c.eval(args[0])
		mt, ok := mv.ty.typ.(*types.Map)
		if !ok {
			if mv.ty.typ != nil {
				mt, ok = mv.ty.typ.Underlying().(*types.Map)
			}
			if !ok {
				K.fail(s, "map expected")
			}
		}
		a := c.toT(mv)
		key := c.term(args[1])
		op := optDecl(sortOf(mt.Elem()))
		switch h {
		case "put":
			return termSV(mkStore(a, key, mkCons(op, c.term(args[2]))), mv.ty)
		case "mdel":
			return termSV(mkStore(a, key, nilOf(op.sort)), mv.ty)
		case "haskey":
			return bt(mkNot(mkEq(mkSelect(a, key), nilOf(op.sort))))
		}
		sel := mkSelect(a, key)
		z := x.toTerm(c.st.clone(), x.zero(c.st.clone(), mt.Elem()), mt.Elem())
		absent := mkEq(sel, nilOf(op.sort))
		if v, ok := c.decide(absent); ok && !v {
			return svOf(mkSel(op, 0, sel), styp(mt.Elem()))
		}
		return svOf(mkIte(absent, z, mkSel(op, 0, sel)), styp(mt.Elem()))
	case "select":
		need(2)
		a := c.term(args[0])
		return svOf(mkSelect(a, c.term(args[1])), stype{"", nil})
	case "bytes":
		need(1)
		return c.seqSV(strBytes(c.term(args[0])), styp(types.NewSlice(types.Typ[types.Uint8])))
	case "strof":
		need(1)
		t, _ := c.asSeq(args[0])
		return termSV(strOfBytes(t), stype{SStr, types.Typ[types.String]})
	case "ok":
		need(1)
		return bt(mkEq(c.term(args[0]), noErr()))
	case "isnil":
		need(1)
		v := c.eval(args[0])
		switch p := v.v.(type) {
		case VSl:
			if p.cell > 0 {
				return bt(tFalse)
			}
			return bt(p.nil_)
		case VObj:
			return bt(mkEq(p.addr, mkInt(0)))
		case VMap:
			return bt(p.nil_)
		case VPtrCell:
			return bt(tFalse)
		}
		t := c.toT(v)
		if t.Sort == SInt {
			return bt(mkEq(t, mkInt(0)))
		}
		return bt(mkEq(t, nilOf(t.Sort)))
	case "fresh":
		need(1)
		v := c.eval(args[0])
		if o, ok := v.v.(VObj); ok {
			return bt(mkBool(o.addr.isInt() && o.addr.Lit.Sign() < 0))
		}
		K.fail(s, "fresh: object expected")
	case "deref":
		need(1)
		v := c.eval(args[0])
		if vt, ok := v.v.(VT); ok && strings.HasPrefix(vt.t.Sort, "Opt_") && v.ty.typ == nil {
			a := adtTab[vt.t.Sort]
			return svOf(mkSel(a, 0, vt.t), stype{a.sorts[0], nil})
		}
		if v.ty.typ == nil {
			K.fail(s, "deref of untyped value")
		}
		pt, ok := types.Unalias(v.ty.typ).Underlying().(*types.Pointer)
		if !ok {
			K.fail(s, "deref of %s", v.ty.typ)
		}
		if vt, ok := v.v.(VT); ok && ti(v.ty.typ).k == kOpt {
			return svOf(mkSel(adtTab[vt.t.Sort], 0, vt.t), styp(pt.Elem()))
		}
		return sv{x.load(c.st, v.v, pt.Elem()), styp(pt.Elem())}
	case "ptr": // pointer (option) to a value
		need(1)
		v := c.eval(args[0])
		t := c.toT(v)
		a := optDecl(t.Sort)
		ty := stype{a.sort, nil}
		if v.ty.typ != nil {
			ty.typ = types.NewPointer(v.ty.typ)
		}
		return sv{VT{mkCons(a, t)}, ty}
	case "nilptr":
		need(1)
		ty := K.sort(args[0])
		a := optDecl(ty.sort)
		return sv{VT{nilOf(a.sort)}, stype{a.sort, nil}}
	case "val": // payload of an option term
		need(1)
		t := c.term(args[0])
		a := adtTab[t.Sort]
		return svOf(mkSel(a, 0, t), stype{a.sorts[0], nil})
	case "strcat":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, c.term(a))
		}
		return termSV(mkStrCat(ts...), stype{SStr, types.Typ[types.String]})
	case "fs.content", "fs.has", "fs.gen":
		need(1)
		if c.st.ghost["fs"] == nil {
			K.fail(s, "no ghost file system")
		}
		f := fsx{x, c.st}
		p := c.term(args[0])
		switch h {
		case "fs.has":
			return bt(f.has(p))
		case "fs.gen":
			return termSV(f.genOf(p), mathInt())
		}
		return c.seqSV(f.content(p), styp(types.NewSlice(types.Typ[types.Uint8])))
	case "fs.valid":
		need(1)
		if o, ok := c.eval(args[0]).v.(VObj); ok {
			return bt(fsx{x, c.st}.valid(o))
		}
		K.fail(s, "file expected")
	case "fs.same": // (fs.same p…): the files other than p… are as they were
		var ps []*Term
		for _, a := range args {
			ps = append(ps, c.term(a))
		}
		return bt(fsSame(c.st, c.st.ghost["fs"], c.old.ghost["fs"], ps))
	case "same": // (same a b): the same shared map (identity, not contents)
		need(2)
		a, ok1 := c.eval(args[0]).v.(VMap)
		b, ok2 := c.eval(args[1]).v.(VMap)
		if !ok1 || !ok2 || !a.shared() || !b.shared() {
			K.fail(s, "shared maps expected")
		}
		return bt(mkEq(a.id, b.id))
	case "mapsize": // the number of entries of a map
		need(1)
		return termSV(mapSize(c.term(args[0])), mathInt())
	case "box": // a value stored in an empty interface
		need(1)
		t := c.term(args[0])
		fn := "mk_box:" + t.Sort + ":Any"
		declFun(fn, []string{t.Sort}, "Any")
		return termSV(mkApp(fn, t), K.sort(&sx{atom: "Any"}))
	case "fn.hist": // (fn.hist h f args…): the history h followed by a call of the function value f
		var ts []*Term
		for _, a := range args {
			ts = append(ts, c.term(a))
		}
		return termSV(histCall(ts), K.sort(&sx{atom: "Any"}))
	case "fn.res": // (fn.res i Sort h): the i-th result of the last call of the history h
		need(3)
		ty := K.sort(args[1])
		return svOf(histRes(args[0].atom, ty.sort, c.term(args[2])), ty)
	case "ghost":
		need(1)
		t, ok := c.st.ghost[args[0].atom]
		if !ok {
			K.fail(s, "no ghost global %s", args[0].atom)
		}
		return termSV(t, styp(ghostSorts[args[0].atom]))
	case "fld":
		need(2)
		v := c.eval(args[0])
		return c.field(s, v, args[1].atom)
	case "old":
		need(1)
		n := *c
		if n.now == nil {
			n.now = c.st
		}
		n.st = c.old
		r := n.eval(args[0])
		// make it independent of the state it was read in
		if vm, ok := r.v.(VMap); ok && vm.shared() {
			return termSV(x.sharedContent(c.old, vm), styp(sharedType(vm.t)))
		}
		if vs, ok := r.v.(VSl); ok && vs.cell > 0 {
			return sv{VSl{seq: x.sliceTerm(c.old, vs), nil_: tFalse}, r.ty}
		}
		return r
	case "entry":
		need(1)
		if args[0].isL || c.env["entry:"+args[0].atom].v == nil {
			// (entry e): the value of e when the loop starts
			if c.loop == nil {
				K.fail(s, "entry outside of a loop invariant")
			}
			n := *c
			if n.now == nil {
				n.now = c.st
			}
			n.st = c.loop
			r := n.eval(args[0])
			return svOf(n.toT(r), r.ty)
		}
		v, ok := c.env["entry:"+args[0].atom]
		if !ok {
			K.fail(s, "no entry value")
		}
		return v
	case "let":
		env := map[string]sv{}
		for k, v := range c.env {
			env[k] = v
		}
		n := c.with(env)
		for _, b := range args[0].list {
			env[b.list[0].atom] = n.eval(b.list[1])
		}
		return n.eval(args[1])
	case "as": // (as e Alias): give a Go type to a term
		need(2)
		t := c.term(args[0])
		ty := K.sort(args[1])
		return svOf(t, ty)
	case "mk": // (mk Alias field…): an immutable struct value
		ty := K.sort(args[0])
		i := ti(ty.typ)
		a := adtOf(i.named)
		if len(args)-1 != len(a.sorts) {
			K.fail(s, "%s has %d fields", args[0], len(a.sorts))
		}
		var ts []*Term
		for j, e := range args[1:] {
			t := c.term(e)
			if t.Sort != a.sorts[j] {
				K.fail(s, "field %d has sort %s, expected %s", j, t.Sort, a.sorts[j])
			}
			ts = append(ts, t)
		}
		return sv{VT{mkCons(a, ts...)}, ty}
	case "some": // a pointer to a value
		need(1)
		t := c.term(args[0])
		a := optDecl(t.Sort)
		return termSV(mkCons(a, t), stype{a.sort, nil})
	case "nildef":
		need(1)
		ty := K.sort(args[0])
		return svOf(nilOf(ty.sort), ty)
	}
	if strings.HasPrefix(h, ".") {
		return c.getter(s, c.eval(args[0]), h[1:], args[1:])
	}
	if m, ok := K.macros[h]; ok {
		if len(args) != len(m.params) {
			K.fail(s, "macro %s: %d arguments expected", h, len(m.params))
		}
		env := map[string]sv{}
		for k, v := range c.env {
			if strings.HasPrefix(k, "entry:") || strings.HasPrefix(k, "?") || k == "k" {
				env[k] = v
			}
		}
		for i, p := range m.params {
			env[p] = c.eval(args[i])
		}
		return c.with(env).eval(m.body)
	}
	if sg, ok := funTab[h]; ok {
		if len(sg.args) != len(args) {
			K.fail(s, "%s: %d arguments expected", h, len(sg.args))
		}
		var ts []*Term
		for i, a := range args {
			t := c.term(a)
			if t.Sort != sg.args[i] {
				K.fail(s, "%s: argument %d has sort %s, expected %s", h, i+1, t.Sort, sg.args[i])
			}
			ts = append(ts, t)
		}
		rt, ok := K.sorts[h]
		if !ok {
			rt = stype{sg.res, nil}
		}
		return svOf(mkApp(h, ts...), rt)
	}
	K.fail(s, "unknown operator %q", h)
	return sv{}
}

func (c *specCtx) field(s *sx, v sv, name string) sv {
	x := c.x
	if v.ty.typ == nil {
		x.K.fail(s, "field of untyped value")
	}
	i := ti(v.ty.typ)
	if i.named == nil {
		x.K.fail(s, "field of %s", v.ty.typ)
	}
	gn := ghostStruct(i.named)
	st := gn.Underlying().(*types.Struct)
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == name {
			ft := st.Field(j).Type()
			switch p := v.v.(type) {
			case VObj:
				return sv{x.heapRead(c.st, gn, j, p.addr), styp(ft)}
			case VSt:
				return sv{p.fs[j], styp(ft)}
			case VPtrCell:
				if q, ok := c.st.cells[p.id].val.(VSt); ok {
					return sv{q.fs[j], styp(ft)}
				}
			case VT:
				a := adtOf(i.named)
				if i.k == kStruct {
					a = adtForStruct(i.named)
				}
				return sv{c.st.fromTerm(mkSel(a, j, p.t), ft), styp(ft)}
			}
		}
	}
	x.K.fail(s, "no field %s in %s", name, i.named)
	return sv{}
}

func methodOf(t types.Type, name string) *ssa.Function {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, isI := n.Underlying().(*types.Interface); isI {
			im := P.impls(n)
			if len(im) != 1 {
				return nil
			}
			t = types.NewPointer(im[0])
		}
	}
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	// value methods reachable through a pointer
	if _, ok := t.(*types.Pointer); !ok {
		return methodOf(types.NewPointer(t), name)
	}
	return nil
}

func (c *specCtx) getter(s *sx, recv sv, name string, args []*sx) sv {
	x := c.x
	if recv.ty.typ == nil {
		x.K.fail(s, "method %s of an untyped value", name)
	}
	fn := methodOf(recv.ty.typ, name)
	if fn == nil {
		x.K.fail(s, "no method %s on %s", name, recv.ty.typ)
	}
	vals := []SVal{recv.v}
	for _, a := range args {
		vals = append(vals, c.eval(a).v)
	}
	res := fn.Signature.Results()
	rv := x.runPure(c.st, fn, vals)
	if res.Len() == 1 {
		return sv{rv, styp(res.At(0).Type())}
	}
	return sv{rv, stype{"tuple", res}}
}

// runPure symbolically runs a side-effect-free function; its paths are merged into one value
func (x *Exec) runPure(st *State, fn *ssa.Function, args []SVal) SVal {
	sc := st.clone()
	if sc.fr == nil {
		sc.fr = nil
	}
	sc.fr = nil
	base := len(sc.facts)
	rec, beh := x.record, x.beh
	x.record = false
	x.pureDepth++
	type out struct {
		st  *State
		res []SVal
	}
	var outs []out
	func() {
		defer func() { x.record, x.beh = rec, beh; x.pureDepth-- }()
		x.callFn(sc, fn, args, nil, 0, func(s *State, res []SVal) {
			outs = append(outs, out{s, res})
		})
	}()
	if len(outs) == 0 {
		panic(unsupported("specification getter %s has no normal return", fn))
	}
	conv := func(o out, i int) SVal {
		// results referring to scratch cells must be turned into terms
		t := fn.Signature.Results().At(i).Type()
		switch v := o.res[i].(type) {
		case VSl:
			if v.cell > 0 {
				return VSl{seq: x.sliceTerm(o.st, v), nil_: tFalse}
			}
			return v
		case VPtrCell, VSt:
			return VT{x.toTerm(o.st, v, t)}
		}
		return o.res[i]
	}
	n := fn.Signature.Results().Len()
	var vs []SVal
	for i := 0; i < n; i++ {
		t := fn.Signature.Results().At(i).Type()
		last := conv(outs[len(outs)-1], i)
		if len(outs) > 1 {
			var gs []*Term
			var vals []SVal
			for _, o := range outs[:len(outs)-1] {
				gs = append(gs, mkAnd(o.st.facts[base:]...))
				vals = append(vals, conv(o, i))
			}
			// merge in order
			rg, rvv := []*Term{}, []SVal{}
			for j := range gs {
				rg = append(rg, gs[j])
				rvv = append(rvv, vals[j])
			}
			last = x.mergeVals(st, rg, rvv, last, t)
		}
		vs = append(vs, last)
	}
	if len(outs) == 1 {
		// facts learnt about fresh constants of the run are definitional
		for _, f := range outs[0].st.facts[base:] {
			st.assume(f)
		}
		st.adoptHeap(outs[0].st)
	}
	if n == 1 {
		return vs[0]
	}
	return VTup{vs}
}

func (st *State) adoptHeap(o *State) {}

func (x *Exec) mergeVals(st *State, g []*Term, v []SVal, last SVal, t types.Type) SVal {
	return x.merge(st, g, v, last, t)
}
