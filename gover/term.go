package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // "const" | "var" | "int" | "true" | "false" | SMT/UF operator
	Name string // for const / var / UF application
	Args []*Term
	Sort string
	Lit  *big.Int
	id   int
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SErr  = "Err"
	SByt  = "(Seq Int)"
)

var termTab = map[string]*Term{}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.Lit != nil {
		sb.WriteByte('#')
		sb.WriteString(t.Lit.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(termTab) + 1
	termTab[k] = t
	return t
}

var tTrue = intern(&Term{Op: "true", Sort: SBool})
var tFalse = intern(&Term{Op: "false", Sort: SBool})

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(n int64) *Term       { return mkBig(big.NewInt(n)) }
func mkBig(n *big.Int) *Term    { return intern(&Term{Op: "int", Sort: SInt, Lit: new(big.Int).Set(n)}) }
func mkConst(n, s string) *Term { return intern(&Term{Op: "const", Name: n, Sort: s}) }
func mkVar(n, s string) *Term   { return intern(&Term{Op: "var", Name: n, Sort: s}) }

func (t *Term) isInt() bool { return t.Op == "int" }

var freshCnt = 0

func freshConst(prefix, s string) *Term {
	freshCnt++
	p := sanitize(prefix)
	return mkConst(fmt.Sprintf("%s!%d", p, freshCnt), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '-' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// ---- linear arithmetic normal form ----

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func newLin() *lin { return &lin{new(big.Int), map[*Term]*big.Int{}} }

func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.Op == "int":
		l.c.Add(l.c, new(big.Int).Mul(t.Lit, k))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && t.Args[0].isInt():
		l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].Lit))
	default:
		if o, ok := l.co[t]; ok {
			n := new(big.Int).Add(o, k)
			if n.Sign() == 0 {
				delete(l.co, t)
			} else {
				l.co[t] = n
			}
		} else {
			l.co[t] = new(big.Int).Set(k)
		}
	}
}

func (l *lin) keys() []*Term {
	ks := make([]*Term, 0, len(l.co))
	for k := range l.co {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (l *lin) term() *Term {
	var args []*Term
	for _, k := range l.keys() {
		c := l.co[k]
		if c.IsInt64() && c.Int64() == 1 {
			args = append(args, k)
		} else {
			args = append(args, intern(&Term{Op: "*", Sort: SInt, Args: []*Term{mkBig(c), k}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, mkBig(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{Op: "+", Sort: SInt, Args: args})
}

var one = big.NewInt(1)
var minusOne = big.NewInt(-1)

func linOf(a, b *Term) *lin { // a - b
	l := newLin()
	l.add(a, one)
	if b != nil {
		l.add(b, minusOne)
	}
	return l
}

func mkAdd(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term()
}
func mkSub(a, b *Term) *Term { return linOf(a, b).term() }
func mkMul(a, b *Term) *Term {
	if a.isInt() {
		l := newLin()
		l.add(b, a.Lit)
		return l.term()
	}
	if b.isInt() {
		return mkMul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "*", Sort: SInt, Args: []*Term{a, b}})
}

// euclidean div/mod of SMT; callers handle Go truncation
func mkDiv(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Lit.Sign() > 0 {
		return mkBig(new(big.Int).Div(a.Lit, b.Lit))
	}
	return intern(&Term{Op: "div", Sort: SInt, Args: []*Term{a, b}})
}
func mkMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Lit.Sign() > 0 {
		return mkBig(new(big.Int).Mod(a.Lit, b.Lit))
	}
	return intern(&Term{Op: "mod", Sort: SInt, Args: []*Term{a, b}})
}

func nonNeg(t *Term) bool {
	switch t.Op {
	case "int":
		return t.Lit.Sign() >= 0
	case "seq.len":
		return true
	case "+":
		for _, a := range t.Args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case "*":
		return nonNeg(t.Args[0]) && nonNeg(t.Args[1])
	case "mod":
		return true
	case "const":
		return nonNegConsts[t]
	case "ite":
		return nonNeg(t.Args[1]) && nonNeg(t.Args[2])
	case "uf":
		return nonNegFuns[t.Name]
	}
	return false
}

var nonNegConsts = map[*Term]bool{}
var nonNegFuns = map[string]bool{}

// a >= b, canonical: (ge0 L)
func mkGe(a, b *Term) *Term {
	l := linOf(a, b)
	if len(l.co) == 0 {
		return mkBool(l.c.Sign() >= 0)
	}
	// divide by gcd when beneficial: skip
	t := l.term()
	if nonNeg(t) {
		return tTrue
	}
	// all coefficients negative on nonneg terms and const negative => false
	neg := newLin()
	neg.add(t, minusOne)
	neg.c.Sub(neg.c, one)
	if nonNeg(neg.term()) {
		return tFalse
	}
	return intern(&Term{Op: "ge0", Sort: SBool, Args: []*Term{t}})
}
func mkLe(a, b *Term) *Term { return mkGe(b, a) }
func mkLt(a, b *Term) *Term { return mkGe(b, mkAdd(a, mkInt(1))) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

func mkNot(t *Term) *Term {
	switch t.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.Args[0]
	case "ge0":
		l := newLin()
		l.add(t.Args[0], minusOne)
		l.c.Sub(l.c, one)
		return mkGe(l.term(), mkInt(0))
	}
	return intern(&Term{Op: "not", Sort: SBool, Args: []*Term{t}})
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.Op == "true" || seen[t] {
			continue
		}
		if t.Op == "false" {
			return tFalse
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, t := range out {
		if seen[mkNot(t)] {
			return tFalse
		}
	}
	return intern(&Term{Op: "and", Sort: SBool, Args: out})
}

func mkOr(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.Op == "false" || seen[t] {
			continue
		}
		if t.Op == "true" {
			return tTrue
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, t := range out {
		if seen[mkNot(t)] {
			return tTrue
		}
	}
	return intern(&Term{Op: "or", Sort: SBool, Args: out})
}

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.Sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
	}
	if c.Op == "not" {
		return mkIte(c.Args[0], b, a)
	}
	return intern(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(unsupported("sort mismatch in equality: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	switch a.Sort {
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	case SInt:
		l := linOf(a, b)
		if len(l.co) == 0 {
			return mkBool(l.c.Sign() == 0)
		}
		// split in positive and negative side
		p, n := newLin(), newLin()
		for _, k := range l.keys() {
			c := l.co[k]
			if c.Sign() > 0 {
				p.add(k, c)
			} else {
				n.add(k, new(big.Int).Neg(c))
			}
		}
		if len(p.co) == 0 || (len(n.co) > 0 && n.keys()[0].id < p.keys()[0].id) {
			p, n = n, p
			l.c.Neg(l.c)
		}
		n.c.Neg(l.c)
		if len(n.co) == 0 && n.c.Sign() < 0 && nonNeg(p.term()) {
			return tFalse
		}
		a, b = p.term(), n.term()
		return intern(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
	}
	if isMk(a) && isMk(b) && a.Name == b.Name {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, mkEq(a.Args[i], b.Args[i]))
		}
		return mkAnd(cs...)
	}
	if isMk(a) && isNilC(b) || isMk(b) && isNilC(a) {
		return tFalse
	}
	if isMk(a) && isMk(b) && a.Name != b.Name {
		return tFalse
	}
	if strLits[a] != nil && strLits[b] != nil {
		return tFalse
	}
	if a.Sort == SStr {
		if r, ok := strEq(a, b); ok {
			return r
		}
	}
	if strings.HasPrefix(a.Sort, "(Seq ") {
		if x, y, ok := cancelConcat(a, b); ok {
			return mkEq(x, y)
		}
		// unit/empty mismatch by constant length
		la, lb := mkLen(a), mkLen(b)
		if mkEq(la, lb) == tFalse {
			return tFalse
		}
		if a.Op == "seq.unit" && b.Op == "seq.unit" {
			return mkEq(a.Args[0], b.Args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

var strLits = map[*Term]*string{}

func parts(t *Term) []*Term {
	if t.Op == "seq.++" {
		return t.Args
	}
	if t.Op == "seq.empty" {
		return nil
	}
	return []*Term{t}
}

func cancelConcat(a, b *Term) (*Term, *Term, bool) {
	pa, pb := parts(a), parts(b)
	ch := false
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
		ch = true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		ch = true
	}
	if !ch {
		return a, b, false
	}
	return mkConcatS(a.Sort, pa...), mkConcatS(a.Sort, pb...), true
}

// ---- sequences ----

func mkEmpty(s string) *Term { return intern(&Term{Op: "seq.empty", Sort: s}) }
func mkUnit(t *Term) *Term {
	return intern(&Term{Op: "seq.unit", Sort: "(Seq " + t.Sort + ")", Args: []*Term{t}})
}
func mkConcatS(s string, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "seq.empty" {
			continue
		}
		if t.Op == "seq.++" {
			out = append(out, t.Args...)
			continue
		}
		out = append(out, t)
	}
	// merge adjacent extracts: extract(s,a,n) ++ extract(s,a+n,m) is only valid in bounds; leave to solver
	if len(out) == 0 {
		return mkEmpty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "seq.++", Sort: s, Args: out})
}
func mkConcat(ts ...*Term) *Term { return mkConcatS(ts[0].Sort, ts...) }

var fixedLenFuns = map[string]int64{}

func mkLen(s *Term) *Term {
	switch s.Op {
	case "seq.empty":
		return mkInt(0)
	case "seq.unit":
		return mkInt(1)
	case "seq.++":
		var ls []*Term
		for _, a := range s.Args {
			ls = append(ls, mkLen(a))
		}
		return mkAdd(ls...)
	case "uf":
		if n, ok := fixedLenFuns[s.Name]; ok {
			return mkInt(n)
		}
	case "ite":
		a, b := mkLen(s.Args[1]), mkLen(s.Args[2])
		if a == b {
			return a
		}
	}
	return intern(&Term{Op: "seq.len", Sort: SInt, Args: []*Term{s}})
}

func elemSort(s string) string {
	if !strings.HasPrefix(s, "(Seq ") {
		panic(unsupported("not a sequence sort: %s", s))
	}
	return s[5 : len(s)-1]
}

func mkNth(s, i *Term) *Term {
	if s.Op == "seq.unit" && i.isInt() && i.Lit.Sign() == 0 {
		return s.Args[0]
	}
	if s.Op == "seq.++" {
		off := mkInt(0)
		for _, p := range s.Args {
			if p.Op == "seq.unit" && off == i {
				return p.Args[0]
			}
			lp := mkLen(p)
			// i in [off, off+lp)?
			if i.isInt() && off.isInt() && lp.isInt() {
				if i.Lit.Cmp(off.Lit) >= 0 && i.Lit.Cmp(new(big.Int).Add(off.Lit, lp.Lit)) < 0 {
					return mkNth(p, mkSub(i, off))
				}
			}
			off = mkAdd(off, lp)
		}
	}
	return intern(&Term{Op: "seq.nth", Sort: elemSort(s.Sort), Args: []*Term{s, i}})
}

func mkExtract(s, off, n *Term) *Term {
	if n.isInt() && n.Lit.Sign() <= 0 {
		return mkEmpty(s.Sort)
	}
	if off.isInt() && off.Lit.Sign() == 0 && n == mkLen(s) {
		return s
	}
	if s.Op == "seq.++" {
		// aligned boundaries
		cur := mkInt(0)
		start := -1
		for i := 0; i <= len(s.Args); i++ {
			if start < 0 && cur == off {
				start = i
			}
			if start >= 0 && mkSub(cur, off) == n {
				return mkConcatS(s.Sort, s.Args[start:i]...)
			}
			if i < len(s.Args) {
				cur = mkAdd(cur, mkLen(s.Args[i]))
			}
		}
		// drop an aligned prefix
		if start > 0 {
			return mkExtract(mkConcatS(s.Sort, s.Args[start:]...), mkInt(0), n)
		}
		// drop fully skipped known-size prefix parts
		if off.isInt() {
			cur := new(big.Int)
			i := 0
			for i < len(s.Args) {
				l := mkLen(s.Args[i])
				if !l.isInt() {
					break
				}
				nx := new(big.Int).Add(cur, l.Lit)
				if nx.Cmp(off.Lit) > 0 {
					break
				}
				cur = nx
				i++
			}
			if i > 0 {
				return mkExtract(mkConcatS(s.Sort, s.Args[i:]...), mkBig(new(big.Int).Sub(off.Lit, cur)), n)
			}
		}
	}
	return intern(&Term{Op: "seq.extract", Sort: s.Sort, Args: []*Term{s, off, n}})
}

// ---- uninterpreted functions / ADTs ----

type funSig struct {
	args []string
	res  string
}

var funTab = map[string]funSig{}

func declFun(n string, args []string, res string) {
	if o, ok := funTab[n]; ok {
		if o.res != res || strings.Join(o.args, " ") != strings.Join(args, " ") {
			panic(unsupported("function %s redeclared with another signature", n))
		}
		return
	}
	funTab[n] = funSig{args, res}
}

func mkApp(n string, args ...*Term) *Term {
	sg, ok := funTab[n]
	if !ok {
		panic(unsupported("unknown function %s", n))
	}
	if len(sg.args) != len(args) {
		panic(unsupported("function %s: %d args expected, got %d", n, len(sg.args), len(args)))
	}
	for i, a := range args {
		if a.Sort != sg.args[i] {
			panic(unsupported("function %s arg %d: sort %s expected, got %s in %s", n, i, sg.args[i], a.Sort, a))
		}
	}
	if r, ok := rewriteApp(n, args); ok {
		return r
	}
	return intern(&Term{Op: "uf", Name: n, Sort: sg.res, Args: args})
}

// ADT registry: opaque sort with nil constant, one constructor and selectors.
type adt struct {
	sort   string
	sels   []string
	sorts  []string
	filled bool
}

var adtTab = map[string]*adt{}   // by sort
var selTab = map[string]selRef{} // selector name -> ref
type selRef struct {
	a *adt
	i int
}

func (a *adt) mkName() string  { return "mk_" + a.sort }
func (a *adt) nilName() string { return "nil_" + a.sort }

func isMk(t *Term) bool   { return t.Op == "uf" && strings.HasPrefix(t.Name, "mk_") }
func isNilC(t *Term) bool { return t.Op == "const" && strings.HasPrefix(t.Name, "nil_") }

func nilOf(sort string) *Term { return mkConst("nil_"+sort, sort) }

func mkCons(a *adt, args ...*Term) *Term {
	declFun(a.mkName(), a.sorts, a.sort)
	return mkApp(a.mkName(), args...)
}

func mkSel(a *adt, i int, t *Term) *Term {
	if isMk(t) {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return mkIte(t.Args[0], mkSel(a, i, t.Args[1]), mkSel(a, i, t.Args[2]))
	}
	declFun(a.sels[i], []string{a.sort}, a.sorts[i])
	return intern(&Term{Op: "uf", Name: a.sels[i], Sort: a.sorts[i], Args: []*Term{t}})
}

var rewrites = map[string]func(args []*Term) (*Term, bool){}

func rewriteApp(n string, args []*Term) (*Term, bool) {
	if f, ok := rewrites[n]; ok {
		return f(args)
	}
	return nil, false
}

// ---- substitution ----

func subst(t *Term, m map[*Term]*Term) *Term { return substM(t, m, map[*Term]*Term{}) }

func substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substM(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "+":
		return mkAdd(a...)
	case "*":
		return mkMul(a[0], a[1])
	case "div":
		return mkDiv(a[0], a[1])
	case "mod":
		return mkMod(a[0], a[1])
	case "ge0":
		return mkGe(a[0], mkInt(0))
	case "=":
		return mkEq(a[0], a[1])
	case "not":
		return mkNot(a[0])
	case "and":
		return mkAnd(a...)
	case "or":
		return mkOr(a...)
	case "ite":
		return mkIte(a[0], a[1], a[2])
	case "seq.++":
		return mkConcatS(t.Sort, a...)
	case "seq.len":
		return mkLen(a[0])
	case "seq.nth":
		return mkNth(a[0], a[1])
	case "seq.unit":
		return mkUnit(a[0])
	case "seq.extract":
		return mkExtract(a[0], a[1], a[2])
	case "select":
		return mkSelect(a[0], a[1])
	case "store":
		return mkStore(a[0], a[1], a[2])
	case "uf":
		if sr, ok := selTab[t.Name]; ok {
			return mkSel(sr.a, sr.i, a[0])
		}
		return mkApp(t.Name, a...)
	}
	panic("rebuild: " + t.Op)
}

func mkSelect(a, i *Term) *Term {
	for a.Op == "store" {
		e := mkEq(a.Args[1], i)
		if e == tTrue {
			return a.Args[2]
		}
		if e == tFalse {
			a = a.Args[0]
			continue
		}
		break
	}
	_, v := arrSorts(a.Sort)
	if a.Op == "uf" && a.Name == "emptymap_"+sanitize(a.Sort) {
		return nilOf(v)
	}
	return intern(&Term{Op: "select", Sort: v, Args: []*Term{a, i}})
}
func mkStore(a, i, v *Term) *Term {
	return intern(&Term{Op: "store", Sort: a.Sort, Args: []*Term{a, i, v}})
}

func arrSorts(s string) (string, string) {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[:i], in[i+1:]
		}
	}
	panic("arrSorts " + s)
}

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil)
	return sb.String()
}

func sym(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '-') {
			return "|" + n + "|"
		}
	}
	return n
}

func (t *Term) write(sb *strings.Builder, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.writeBody(sb, names)
}

func (t *Term) writeBody(sb *strings.Builder, names map[*Term]string) {
	switch t.Op {
	case "true", "false":
		sb.WriteString(t.Op)
	case "int":
		if t.Lit.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.Lit).String())
		} else {
			sb.WriteString(t.Lit.String())
		}
	case "const", "var":
		sb.WriteString(sym(t.Name))
	case "seq.empty":
		fmt.Fprintf(sb, "(as seq.empty %s)", t.Sort)
	case "ge0":
		sb.WriteString("(>= ")
		t.Args[0].write(sb, names)
		sb.WriteString(" 0)")
	case "uf":
		if len(t.Args) == 0 {
			sb.WriteString(sym(t.Name))
			return
		}
		sb.WriteString("(" + sym(t.Name))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.write(sb, names)
		}
		sb.WriteByte(')')
	default:
		sb.WriteString("(" + t.Op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.write(sb, names)
		}
		sb.WriteByte(')')
	}
}

type errUnsupported struct{ msg string }

func (e errUnsupported) Error() string { return e.msg }
func unsupported(f string, a ...interface{}) errUnsupported {
	return errUnsupported{fmt.Sprintf(f, a...)}
}
