package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type solver struct {
	mu      sync.Mutex
	cache   map[string]string
	qcache  map[string]bool
	z3in    io.WriteCloser
	z3out   *bufio.Reader
	z3cmd   *exec.Cmd
	stats   map[string]int
	timeMs  map[string]int64
	queries int
	quickN  int
	quickMs int64
	tmp     string
	sem     chan struct{}
}

var theSolver *solver
var debugHoudini bool
var debugDump string

func newSolver() *solver {
	d, _ := os.MkdirTemp("", "gover")
	return &solver{cache: map[string]string{}, qcache: map[string]bool{}, stats: map[string]int{}, timeMs: map[string]int64{}, tmp: d, sem: make(chan struct{}, 8)}
}

func (s *solver) close() {
	if s.z3cmd != nil {
		s.z3in.Close()
		s.z3cmd.Process.Kill()
		s.z3cmd.Wait()
	}
	os.RemoveAll(s.tmp)
}

// ---- quick linear-arithmetic oracle ----

func (s *solver) startZ3() {
	s.z3cmd = exec.Command("z3-new", "-in")
	s.z3in, _ = s.z3cmd.StdinPipe()
	o, _ := s.z3cmd.StdoutPipe()
	s.z3out = bufio.NewReader(o)
	if err := s.z3cmd.Start(); err != nil {
		panic(err)
	}
	io.WriteString(s.z3in, "(set-option :timeout 300)\n")
}

type arithPr struct {
	decl  map[string]string
	atoms []*Term
	seen  map[*Term]bool
}

func (a *arithPr) atom(t *Term) string {
	n := fmt.Sprintf("a%d", t.id)
	if _, ok := a.decl[n]; !ok {
		a.decl[n] = t.Sort
		a.atoms = append(a.atoms, t)
	}
	return n
}

// arithmetic abstraction of t; ok=false when nothing arithmetic is visible
func (a *arithPr) pr(sb *strings.Builder, t *Term) {
	switch t.Op {
	case "true", "false":
		sb.WriteString(t.Op)
		return
	case "int":
		if t.Lit.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", t.Lit.String()[1:])
		} else {
			sb.WriteString(t.Lit.String())
		}
		return
	case "ge0":
		sb.WriteString("(>= ")
		a.pr(sb, t.Args[0])
		sb.WriteString(" 0)")
		return
	case "+", "not", "and", "or":
		sb.WriteString("(" + t.Op)
		for _, x := range t.Args {
			sb.WriteByte(' ')
			a.pr(sb, x)
		}
		sb.WriteByte(')')
		return
	case "*":
		if t.Args[0].isInt() {
			sb.WriteString("(* ")
			a.pr(sb, t.Args[0])
			sb.WriteByte(' ')
			a.pr(sb, t.Args[1])
			sb.WriteByte(')')
			return
		}
	case "div", "mod":
		if t.Args[1].isInt() && t.Args[1].Lit.Sign() > 0 {
			sb.WriteString("(" + t.Op + " ")
			a.pr(sb, t.Args[0])
			sb.WriteByte(' ')
			a.pr(sb, t.Args[1])
			sb.WriteByte(')')
			return
		}
	case "=":
		if t.Args[0].Sort == SInt || t.Args[0].Sort == SBool {
			sb.WriteString("(= ")
			a.pr(sb, t.Args[0])
			sb.WriteByte(' ')
			a.pr(sb, t.Args[1])
			sb.WriteByte(')')
			return
		}
		sb.WriteString(a.atom(t))
		return
	case "ite":
		if t.Sort == SInt || t.Sort == SBool {
			sb.WriteString("(ite ")
			for i, x := range t.Args {
				if i > 0 {
					sb.WriteByte(' ')
				}
				a.pr(sb, x)
			}
			sb.WriteByte(')')
			return
		}
	}
	sb.WriteString(a.atom(t))
}

func (s *solver) quick(st *State, g *Term) bool {
	return s.arith(st.facts, g)
}

func seqEqLens(t *Term) *Term {
	if t.Op == "=" && strings.HasPrefix(t.Args[0].Sort, "(Seq ") {
		return mkEq(mkLen(t.Args[0]), mkLen(t.Args[1]))
	}
	return nil
}

func (s *solver) arith(facts []*Term, g *Term) bool {
	if g.Op == "uf" || g.Op == "=" && g.Args[0].Sort != SInt && g.Args[0].Sort != SBool {
		return false
	}
	a := &arithPr{decl: map[string]string{}}
	var body strings.Builder
	addFact := func(f *Term) {
		body.WriteString("(assert ")
		a.pr(&body, f)
		body.WriteString(")\n")
	}
	for _, f := range facts {
		if l := seqEqLens(f); l != nil {
			if l != tTrue {
				addFact(l)
			}
			continue
		}
		addFact(f)
	}
	addFact(mkNot(g))
	for i := 0; i < len(a.atoms); i++ {
		t := a.atoms[i]
		if nonNeg(t) {
			addFact(intern(&Term{Op: "ge0", Sort: SBool, Args: []*Term{t}}))
		}
		if t.Op == "seq.len" {
			u := t.Args[0]
			if u.Op == "seq.extract" {
				b, o, n := u.Args[0], u.Args[1], u.Args[2]
				addFact(mkImp(mkAnd(mkGe(o, mkInt(0)), mkGe(n, mkInt(0)), mkLe(mkAdd(o, n), mkLen(b))), mkEqRaw(t, n)))
				addFact(mkLe(t, mkLen(b)))
				addFact(mkImp(mkGe(n, mkInt(0)), mkLe(t, n)))
			}
			if u.Op == "ite" {
				addFact(mkIte(u.Args[0], mkEq(t, mkLen(u.Args[1])), mkEq(t, mkLen(u.Args[2]))))
			}
		}
	}
	var q strings.Builder
	q.WriteString("(push)\n")
	var ns []string
	for n := range a.decl {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		srt := a.decl[n]
		if srt != SInt && srt != SBool {
			srt = SInt
		}
		fmt.Fprintf(&q, "(declare-const %s %s)\n", n, srt)
	}
	q.WriteString(body.String())
	q.WriteString("(check-sat)\n(pop)\n(echo \"@@\")\n")
	key := q.String()
	s.mu.Lock()
	defer s.mu.Unlock()
	if r, ok := s.qcache[key]; ok {
		return r
	}
	if s.z3cmd == nil {
		s.startZ3()
	}
	t0 := time.Now()
	io.WriteString(s.z3in, key)
	res := ""
	for {
		l, err := s.z3out.ReadString('\n')
		if err != nil {
			s.z3cmd.Wait()
			s.z3cmd = nil
			break
		}
		l = strings.TrimSpace(l)
		if l == "@@" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "quick:", l)
			res = "err"
		}
		if res == "" {
			res = l
		}
	}
	s.quickN++
	s.quickMs += time.Since(t0).Milliseconds()
	s.qcache[key] = res == "unsat"
	return res == "unsat"
}

// ---- full queries ----

func sortNames(s string, m map[string]bool) {
	s = strings.NewReplacer("(", " ", ")", " ").Replace(s)
	for _, w := range strings.Fields(s) {
		switch w {
		case "Int", "Bool", "Seq", "Array":
		default:
			m[w] = true
		}
	}
}

func printQuery(as []*Term) string {
	// reference counts for sharing
	ref := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		ref[t]++
		if ref[t] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, t := range as {
		walk(t)
	}
	sorts := map[string]bool{}
	consts := map[string]string{}
	ufs := map[string]bool{}
	var lits []*Term
	for _, t := range order {
		sortNames(t.Sort, sorts)
		switch t.Op {
		case "const", "var":
			consts[t.Name] = t.Sort
			if strLits[t] != nil {
				lits = append(lits, t)
			}
		case "uf":
			ufs[t.Name] = true
		}
	}
	for n := range ufs {
		sg := funTab[n]
		for _, a := range sg.args {
			sortNames(a, sorts)
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, s := range keysOf(sorts) {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", sym(s))
	}
	var cn []string
	for n := range consts {
		cn = append(cn, n)
	}
	sort.Strings(cn)
	for _, n := range cn {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", sym(n), symSort(consts[n]))
	}
	for _, n := range keysOf(ufs) {
		sg := funTab[n]
		if sg.res == "" {
			panic("undeclared " + n)
		}
		var as []string
		for _, a := range sg.args {
			as = append(as, symSort(a))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", sym(n), strings.Join(as, " "), symSort(sg.res))
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			sb.WriteString(" " + sym(l.Name))
		}
		sb.WriteString("))\n")
	}
	names := map[*Term]string{}
	for _, t := range order {
		if ref[t] > 1 && len(t.Args) > 0 {
			n := fmt.Sprintf("tt%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, symSort(t.Sort))
			t.writeBody(&sb, names)
			sb.WriteString(")\n")
			names[t] = n
		}
	}
	for _, t := range as {
		sb.WriteString("(assert ")
		t.write(&sb, names)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func symSort(s string) string {
	// quote exotic sort names
	out := ""
	cur := ""
	flush := func() {
		if cur != "" {
			out += sym(cur)
			cur = ""
		}
	}
	for _, r := range s {
		if r == '(' || r == ')' || r == ' ' {
			flush()
			out += string(r)
			continue
		}
		cur += string(r)
	}
	flush()
	return out
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type backend struct {
	name string
	args func(ms int, f string) []string
}

var backends = map[string]backend{
	"cvc5":   {"cvc5", func(ms int, f string) []string { return []string{"--tlimit=" + fmt.Sprint(ms), "--strings-exp", f} }},
	"z3-new": {"z3-new", func(ms int, f string) []string { return []string{fmt.Sprintf("-t:%d", ms), f} }},
	"z3":     {"z3", func(ms int, f string) []string { return []string{fmt.Sprintf("-t:%d", ms), f} }},
}

// wallFactor: a solver may take this many times its budget in wall-clock time when the machine is busy; the budget counts its own CPU time
const wallFactor = 4

func runBackend(ctx context.Context, b string, ms int, file string) string {
	be := backends[b]
	c2, cancel := context.WithTimeout(ctx, time.Duration(wallFactor*ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c2, be.name, be.args(wallFactor*ms, file)...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	if err := cmd.Start(); err != nil {
		return "unknown"
	}
	done := make(chan struct{})
	go func() {
		stat := fmt.Sprintf("/proc/%d/stat", cmd.Process.Pid)
		t0 := time.Now()
		for {
			wait := time.Duration(ms)*time.Millisecond - time.Since(t0)
			if wait < 50*time.Millisecond {
				wait = 50 * time.Millisecond
			}
			select {
			case <-done:
				return
			case <-time.After(wait):
			}
			d, err := os.ReadFile(stat)
			if err != nil {
				return
			}
			f := strings.Fields(string(d[bytes.LastIndexByte(d, ')')+1:]))
			if len(f) > 12 {
				u, _ := strconv.Atoi(f[11])
				k, _ := strconv.Atoi(f[12])
				if (u+k)*10 >= ms {
					cancel()
					return
				}
			}
		}
	}()
	cmd.Wait()
	close(done)
	out := buf.Bytes()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l
		}
	}
	return "unknown"
}

// solve runs a staged portfolio; returns verdict and backend
func (s *solver) solve(q string, budget int) (string, string, int64) {
	s.mu.Lock()
	if r, ok := s.cache[q]; ok {
		s.mu.Unlock()
		return r, "cache", 0
	}
	s.queries++
	id := s.queries
	s.mu.Unlock()
	file := fmt.Sprintf("%s/q%d.smt2", s.tmp, id)
	os.WriteFile(file, []byte(q), 0644)
	defer os.Remove(file)
	t0 := time.Now()
	verdict, by := "unknown", ""
	stages := [][]string{{"cvc5"}, {"cvc5", "z3-new", "z3"}, {"cvc5", "z3-new", "z3"}}
	ms := []int{800, 4000, 20000}
	sats := ""
	for i, st := range stages {
		if i > 0 && ms[i-1] >= budget {
			break
		}
		lim := ms[i]
		if lim > budget {
			lim = budget
		}
		ctx, cancel := context.WithCancel(context.Background())
		type r struct{ v, b string }
		ch := make(chan r, len(st))
		for _, b := range st {
			go func(b string) {
				s.sem <- struct{}{}
				v := runBackend(ctx, b, lim, file)
				<-s.sem
				ch <- r{v, b}
			}(b)
		}
		for range st {
			x := <-ch
			if strings.HasPrefix(x.v, "error") {
				fmt.Fprintln(os.Stderr, x.b, x.v)
				os.WriteFile("/tmp/gover-error.smt2", []byte(q), 0644)
			}
			if x.v == "unsat" {
				verdict, by = "unsat", x.b
				break
			}
			if x.v == "sat" {
				sats = x.b
				verdict, by = "sat", x.b
				break
			}
		}
		cancel()
		if verdict != "unknown" {
			break
		}
	}
	_ = sats
	d := time.Since(t0).Milliseconds()
	s.mu.Lock()
	if verdict == "unsat" || verdict == "sat" {
		s.cache[q] = verdict
	}
	s.stats[by]++
	s.timeMs[by] += d
	s.mu.Unlock()
	return verdict, by, d
}

func (x *Exec) opts() qopts {
	o := qopts{exclude: -1}
	if x.root != nil {
		o.opaque = x.root.Opaque
	}
	if x.beh != nil && x.beh.Only != nil {
		h := map[string]bool{}
		for n := range o.opaque {
			h[n] = true
		}
		for _, a := range x.K.axioms {
			if (a.kind == "lemma" || a.kind == "def") && !x.beh.Only[strings.TrimPrefix(a.name, "def ")] {
				h[a.name] = true
			}
		}
		o.opaque = h
	}
	if x.beh != nil && len(x.beh.Hide) > 0 {
		h := map[string]bool{}
		for n := range o.opaque {
			h[n] = true
		}
		for n := range x.beh.Hide {
			h[n] = true
		}
		o.opaque = h
	}
	if x.beh != nil && x.beh.Fuel > 0 {
		o.fuel = x.beh.Fuel
	} else if x.root != nil && x.root.Fuel > 0 {
		o.fuel = x.root.Fuel
	}
	return o
}

// phases: obligations are first tried with few axiom instances, then with more
func (x *Exec) phases() []int {
	f := x.opts().fuel
	if f == 0 {
		f = 3
	}
	var out []int
	for i := 1; i <= f; i++ {
		out = append(out, i)
	}
	return out
}

func phaseBudget(last bool, i, budget int) int {
	if last {
		return budget
	}
	if budget < 3000 {
		return budget
	}
	return 3000
}

// solveMany discharges Houdini queries in parallel (moderate budget)
var hmu sync.Mutex
var hstats = map[string][2]int64{}

func printHstats() {
	var ks []string
	for k := range hstats {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return hstats[ks[a]][1] > hstats[ks[b]][1] })
	for i, k := range ks {
		if i > 25 {
			break
		}
		fmt.Fprintf(os.Stderr, "hstat %6d queries %8d ms  %s\n", hstats[k][0], hstats[k][1], k)
	}
}

func (s *solver) solveMany(x *Exec, qs []*Obl, cs []*cand) {
	failed := map[*cand]bool{}
	var mu sync.Mutex
	ph := x.phases()
	known := x.root != nil && x.root.Shapes > 0
	for i, o := range qs {
		if known && (x.bad[cs[i].key()] > 0 && !cs[i].user || x.bad[cs[i].key()] > 5) {
			o.Status = "failed"
			failed[cs[i]] = true
		} else if s.arith(o.facts, o.goal) {
			o.Status = "discharged"
		} else if cs[i].arith {
			o.Status = "failed"
			failed[cs[i]] = true
		}
	}
	defer func() {
		for i, o := range qs {
			if strings.HasPrefix(o.Status, "failed") && known {
				x.bad[cs[i].key()]++
			}
		}
	}()
	for pi, fuel := range ph {
		last := pi == len(ph)-1
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i, o := range qs {
			if o.Status == "discharged" || o.Status == "failed" {
				continue
			}
			if x.root != nil && x.root.Shapes > 0 && fuel > x.root.Shapes && !cs[i].user {
				o.Status = "failed"
				failed[cs[i]] = true
				continue
			}
			mu.Lock()
			f := failed[cs[i]]
			mu.Unlock()
			if f {
				o.Status = "skipped"
				continue
			}
			op := x.opts()
			op.fuel = fuel
			o.Query = printQuery(x.K.instantiate(o.facts, o.qfacts, o.goal, op))
			wg.Add(1)
			sem <- struct{}{}
			go func(o *Obl, c *cand) {
				defer func() { <-sem; wg.Done() }()
				budget := 1500
				if c.user {
					budget = houdiniBudget
				}
				v, by, ms := s.solve(o.Query, phaseBudget(last, pi, budget))
				o.Solver, o.Ms = by, o.Ms+ms
				if debugHoudini {
					hmu.Lock()
					k := c.name + " => " + v + fmt.Sprint(" fuel ", fuel)
					hstats[k] = [2]int64{hstats[k][0] + 1, hstats[k][1] + ms}
					hmu.Unlock()
				}
				if debugOn && ms > 700 {
					fmt.Fprintf(os.Stderr, "slow: fuel %d %d ms %s %s cand %s\n", fuel, ms, v, by, c.name)
				}
				if debugDump != "" {
					os.WriteFile(fmt.Sprintf("%s/h%p-f%d-%s.smt2", debugDump, o, fuel, v), []byte(o.Query), 0644)
				}
				if v == "unsat" {
					o.Status = "discharged"
					return
				}
				if last {
					o.Status = "failed:" + v
					mu.Lock()
					failed[c] = true
					mu.Unlock()
				}
			}(o, cs[i])
		}
		wg.Wait()
	}
}

var houdiniBudget = 5000
var finalBudget = 30000

// discharge solves recorded obligations
func (s *solver) discharge(x *Exec) {
	ph := x.phases()
	for _, o := range x.obls {
		if o.Status == "" && s.arith(o.facts, o.goal) {
			o.Status, o.Solver = "discharged", "z3-new (linear arithmetic)"
		}
	}
	for pi, fuel := range ph {
		last := pi == len(ph)-1
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for _, o := range x.obls {
			if o.Status != "" {
				continue
			}
			op := x.opts()
			op.fuel = fuel
			o.Query = printQuery(x.K.instantiate(o.facts, o.qfacts, o.goal, op))
			wg.Add(1)
			sem <- struct{}{}
			go func(o *Obl) {
				defer func() { <-sem; wg.Done() }()
				v, by, ms := s.solve(o.Query, phaseBudget(last, pi, finalBudget))
				o.Solver, o.Ms = by, o.Ms+ms
				if debugHoudini {
					hmu.Lock()
					k := "FINAL " + o.Name + " => " + v + fmt.Sprint(" fuel ", fuel)
					hstats[k] = [2]int64{hstats[k][0] + 1, hstats[k][1] + ms}
					hmu.Unlock()
				}
				if debugOn && ms > 700 {
					fmt.Fprintf(os.Stderr, "slow: fuel %d %d ms %s %s %s @%s %s\n", fuel, ms, v, by, o.Name, o.Pos, trunc(o.goal.String(), 200))
				}
				if v == "unsat" {
					o.Status = "discharged"
					if !keepQueries {
						o.Query = ""
					}
				} else if last {
					if debugDump != "" {
						fmt.Fprintf(os.Stderr, "failing: %s\n   goal: %s\n", o.Name, trunc(o.goal.String(), 3000))
						for _, q := range o.facts {
							fmt.Fprintf(os.Stderr, "      fact: %s\n", trunc(q.String(), 500))
						}
					}
					o.Status = "failed:" + v
				}
			}(o)
		}
		wg.Wait()
	}
}

var keepQueries bool
