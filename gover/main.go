package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"os/signal"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type binding = sv

type oblOut struct {
	Name, Kind, Pos, Status, Solver string
	Ms                              int64
	Query                           string `json:",omitempty"`
}

type behResult struct {
	Key, Behavior string
	Status        string // proved | failed | unsupported | error
	Why           string
	Obls          []oblOut
	Returns       int
	Paths         int
	Vacuous       bool
	Assumptions   []string
	Used          []string
	Inlined       []string
	Models        []string
	Havocked      []string
	Ms            int64
}

// verify proves one behavior of one function under contract
func verify(K *contracts, key, beh string) (r *behResult) {
	t0 := time.Now()
	r = &behResult{Key: shortKey(key), Behavior: beh, Status: "proved"}
	x := newExec(K)
	defer func() {
		r.Ms = time.Since(t0).Milliseconds()
		r.Assumptions = sortedKeys(x.assumps)
		r.Used = sortedKeys(x.used)
		r.Inlined = sortedKeys(x.inlined)
		r.Models = sortedKeys(x.models)
		r.Havocked = sortedKeys(x.havocked)
		r.Paths = x.paths
		if e := recover(); e != nil {
			if u, ok := e.(errUnsupported); ok {
				r.Status, r.Why = "unsupported", u.msg
				return
			}
			if debugHoudini {
				panic(e)
			}
			r.Status, r.Why = "unsupported", fmt.Sprintf("internal: %v", e)
			if os.Getenv("GOVER_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	ct := K.fns[key]
	if ct == nil {
		r.Status, r.Why = "unsupported", "no contract for "+key+" "+K.badFn[key]
		return
	}
	b := ct.beh(beh)
	if b == nil {
		r.Status, r.Why = "unsupported", "no behavior "+beh
		return
	}
	if ct.Trusted != "" {
		x.noteAssume("trusted contract of " + shortKey(key) + ": " + ct.Trusted)
		return
	}
	fn := P.funcs[key]
	if fn == nil {
		r.Status, r.Why = "missing", "function "+shortKey(key)+" no longer exists in the source"
		return
	}
	x.root, x.beh, x.rootFn, x.record = ct, b, fn, true
	st := newState()
	for n, t := range ghostSorts {
		st.ghost[n] = mkConst("ghost:"+n, sortOf(t))
	}
	var args []SVal
	off := 0
	if fn.Signature.Recv() != nil {
		off = 1
	}
	for i, p := range fn.Params {
		n := "self"
		if i >= off {
			if i-off >= len(ct.Params) {
				r.Status, r.Why = "unsupported", "parameter list of "+shortKey(key)+" changed"
				return
			}
			n = ct.Params[i-off]
		}
		v := st.freshVal(n, p.Type())
		if i < off || isServiceType(p.Type()) {
			x.serviceFact(st, v, p.Type(), nil)
		}
		args = append(args, v)
	}
	if len(ct.Params) != len(fn.Params)-off {
		r.Status, r.Why = "unsupported", "parameter list of "+shortKey(key)+" changed"
		return
	}
	st.assume(x.defaultPre(st, ct, fn, args))
	env := x.paramEnv(ct, fn, args)
	for _, g := range b.Ghost {
		c := freshConst(g.name, g.ty.sort)
		if g.ty.typ != nil {
			env[g.name] = sv{st.fromTerm(c, g.ty.typ), g.ty}
		} else {
			env[g.name] = termSV(c, g.ty)
		}
	}
	x.rootEnv = env
	x.entry = st
	cc := &specCtx{x: x, st: st, old: st, env: env}
	// (= param expr): bind the parameter directly
	assumeWhen := func(e *sx) {
		if e.head() == "=" && !e.list[1].isL && !mentionsVar(e.list[2], e.list[1].atom) {
			for i, p := range fn.Params {
				if i < off || ct.Params[i-off] != e.list[1].atom {
					continue
				}
				cur := cc.toT(env[e.list[1].atom])
				if cur.Op != "const" {
					break
				}
				t := cc.term(e.list[2])
				if t.Sort != cur.Sort {
					break
				}
				args[i] = st.fromTerm(t, p.Type())
				env[e.list[1].atom] = sv{args[i], styp(p.Type())}
				return
			}
		}
		x.assumeSpec(cc, tTrue, e, "when")
	}
	for _, e := range ct.Requires {
		assumeWhen(e)
	}
	for _, e := range b.When {
		assumeWhen(e)
	}
	x.entry = st.clone()
	x.rootEnv = env
	entryFacts := st.facts
	entryQ := st.qfacts
	var rets []*State
	x.callBody(st, fn, args, nil, func(s *State, res []SVal) {
		r.Returns++
		rets = append(rets, s)
		env2 := map[string]sv{}
		for k, v := range env {
			env2[k] = v
		}
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			n := fmt.Sprintf("res%d", i)
			if i < len(ct.Results) {
				n = ct.Results[i]
			}
			env2[n] = sv{res[i], styp(rs.At(i).Type())}
		}
		c2 := &specCtx{x: x, st: s, old: x.entry, env: env2}
		for i := 0; i < rs.Len(); i++ {
			n := fmt.Sprintf("res%d", i)
			if i < len(ct.Results) {
				n = ct.Results[i]
			}
			if ct.Fresh[n] {
				if o, ok := res[i].(VObj); ok {
					x.oblig(s, "frame", "result is a fresh object", mkBool(o.addr.isInt() && o.addr.Lit.Sign() <= 0), fn.Pos())
				}
			}
		}
		for _, e := range b.Ensures {
			x.proveSpec(&specCtx{x: x, st: s.clone(), old: c2.old, env: env2}, e, "post", "postcondition", fn.Pos())
		}
		x.frameCheck(s, ct, env)
	})
	if debugHoudini {
		fmt.Fprintf(os.Stderr, "%s: %d returns, %d obligations, %d paths\n", shortKey(key), r.Returns, len(x.obls), x.paths)
	}
	theSolver.discharge(x)
	if smoke {
		x.smokeReport(fn)
	}
	for _, o := range x.obls {
		oo := oblOut{o.Name, o.Kind, o.Pos, o.Status, o.Solver, o.Ms, o.Query}
		if o.Status != "discharged" {
			r.Status = "failed"
			if debugDump != "" {
				f := fmt.Sprintf("%s/%s-%d.smt2", debugDump, strings.ReplaceAll(r.Key, "/", "_"), len(r.Obls))
				os.WriteFile(f, []byte(o.Query), 0644)
				fmt.Fprintf(os.Stderr, "  dumped %s: %s @%s\n    goal: %s\n", f, o.Name, o.Pos, trunc(o.goal.String(), 1500))
				for _, q := range o.facts {
					fmt.Fprintf(os.Stderr, "      fact: %s\n", trunc(q.String(), 600))
				}
			}
		} else {
			oo.Query = ""
		}
		r.Obls = append(r.Obls, oo)
	}
	// vacuity: the assumptions of the behavior and of at least one return must not be contradictory
	if r.Status == "proved" {
		q := printQuery(K.instantiate(entryFacts, entryQ, tFalse, x.opts()))
		if v, _, _ := theSolver.solve(q, 1500); v == "unsat" {
			r.Vacuous = true
		}
		live := false
		for i := len(rets) - 1; i >= 0 && i >= len(rets)-6; i-- {
			if rets[i].dead {
				continue
			}
			q := printQuery(K.instantiate(rets[i].facts, rets[i].qfacts, tFalse, x.opts()))
			if v, _, _ := theSolver.solve(q, 1500); v != "unsat" {
				live = true
				break
			}
		}
		if !live && len(rets) > 0 && len(rets) <= 6 || len(rets) == 0 {
			r.Vacuous = true
		}
		if r.Vacuous {
			r.Status, r.Why = "failed", "vacuous: no normal return is reachable under the assumptions"
		}
	}
	return
}

// frameCheck: writes to objects that exist outside must be declared
func (x *Exec) frameCheck(s *State, ct *Contract, env map[string]sv) {
	done := map[string]bool{}
	for _, w := range s.wlog {
		if w.cell > 0 {
			continue
		}
		if w.ghost == "fs" || w.ghost == "gen" {
			continue // checked after every change (steps)
		}
		if w.ghost != "" {
			ok := false
			for _, m := range ct.Modifies {
				if m.head() == "ghost" && m.list[1].atom == w.ghost {
					ok = true
				}
			}
			if !ok && !done[w.ghost] {
				done[w.ghost] = true
				x.oblig(s, "frame", "ghost state "+w.ghost+" is not modified", tFalse, x.rootFn.Pos())
			}
			continue
		}
		if w.ghost == "" && w.addr.isInt() && w.addr.Lit.Sign() < 0 {
			continue
		}
		key := heapKey(w.n, w.fi)
		ok := false
		may := tFalse
		if isSharedNamed(w.n) {
			for _, m := range ct.Modifies {
				if m.head() == "map" {
					c := &specCtx{x: x, st: x.entry, old: x.entry, env: env}
					if v, is := c.eval(m.list[1]).v.(VMap); is && v.shared() && yes(s, mkEq(v.id, w.addr)) {
						ok = true
					}
				}
			}
		}
		for _, m := range ct.Modifies {
			if m.head() == "fld" && w.n.Underlying().(*types.Struct).Field(w.fi).Name() == m.list[2].atom {
				c := &specCtx{x: x, st: x.entry, old: x.entry, env: env}
				if o, is := c.eval(m.list[1]).v.(VObj); is {
					if yes(s, mkEq(o.addr, w.addr)) {
						ok = true
					}
					may = mkOr(may, mkEq(o.addr, w.addr))
				}
			}
		}
		if at := key + " " + w.addr.String() + " " + may.String(); !ok && !done[at] {
			done[at] = true
			x.oblig(s, "frame", "field "+key+" of an existing object is not modified", may, x.rootFn.Pos())
		}
	}
}

func (K *contracts) usedAxioms() []string {
	var out []string
	for _, a := range K.axioms {
		if a.kind == "axiom" && K.used[a.name] {
			out = append(out, a.name+": "+a.why)
		}
	}
	return out
}

// closure: the property's behaviors and every callee behavior used, transitively
func verifyAll(K *contracts, start [][2]string) []*behResult {
	var out []*behResult
	seen := map[[2]string]bool{}
	work := append([][2]string{}, start...)
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		if seen[w] {
			continue
		}
		seen[w] = true
		r := verify(K, w[0], w[1])
		out = append(out, r)
		for _, u := range r.Used {
			p := strings.SplitN(u, "\x00", 2)
			n := [2]string{p[0], p[1]}
			if !seen[n] {
				work = append(work, n)
			}
		}
	}
	return out
}

// workerOut is what a worker process reports
type workerOut struct {
	Behaviors  []*behResult     `json:"behaviors"`
	Lemmas     []*lemmaResult   `json:"lemmas"`
	SolverMs   map[string]int64 `json:"solver_ms"`
	SolverN    map[string]int   `json:"solver_n"`
	ArithN     int              `json:"arith_n"`
	ArithMs    int64            `json:"arith_ms"`
	Axioms     []string         `json:"axioms"`
	UsedLemmas []string         `json:"used_lemmas"`
}

var total = workerOut{SolverMs: map[string]int64{}, SolverN: map[string]int{}}
var totalMu sync.Mutex

var stopAt time.Time

func runWorker(args ...string) (*workerOut, string) {
	ctx := context.Background()
	if !stopAt.IsZero() {
		var cancel func()
		ctx, cancel = context.WithDeadline(ctx, stopAt)
		defer cancel()
	}
	f, _ := os.CreateTemp("", "goverw")
	f.Close()
	defer os.Remove(f.Name())
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, append(args, "-json", f.Name(), "-worker")...)
	out, _ := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return nil, "the time budget of the run was used up"
	}
	b, _ := os.ReadFile(f.Name())
	w := &workerOut{}
	if len(b) == 0 || json.Unmarshal(b, w) != nil {
		t := string(out)
		if len(t) > 600 {
			t = t[len(t)-600:]
		}
		return nil, "verifier worker failed: " + t
	}
	totalMu.Lock()
	for k, v := range w.SolverMs {
		total.SolverMs[k] += v
	}
	for k, v := range w.SolverN {
		total.SolverN[k] += v
	}
	total.ArithN += w.ArithN
	total.ArithMs += w.ArithMs
	for _, a := range w.Axioms {
		ok := true
		for _, x := range total.Axioms {
			if x == a {
				ok = false
			}
		}
		if ok {
			total.Axioms = append(total.Axioms, a)
		}
	}
	totalMu.Unlock()
	return w, ""
}

// verifyPar runs the closure of the behaviors, and the lemmas they use, in worker processes
func verifyPar(K *contracts, start [][2]string, startLemmas []string, j int, common []string) (res []*behResult, lres []*lemmaResult) {
	type job struct{ key, beh, lemma string }
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []job
	seen := map[job]bool{}
	running := 0
	push := func(x job) {
		if !seen[x] {
			seen[x] = true
			queue = append(queue, x)
		}
	}
	for _, s := range start {
		push(job{key: s[0], beh: s[1]})
	}
	for _, l := range startLemmas {
		push(job{lemma: l})
	}
	var wg sync.WaitGroup
	for i := 0; i < j; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					cond.Broadcast()
					return
				}
				x := queue[0]
				queue = queue[1:]
				running++
				mu.Unlock()
				var w *workerOut
				var why string
				if x.lemma != "" {
					w, why = runWorker(append(common, "-lemma", x.lemma)...)
				} else {
					w, why = runWorker(append(common, "-key", x.key+"#"+x.beh)...)
				}
				mu.Lock()
				running--
				if w == nil {
					if x.lemma != "" {
						lres = append(lres, &lemmaResult{Name: x.lemma, Status: "unsupported", Why: why})
					} else {
						res = append(res, &behResult{Key: shortKey(x.key), Behavior: x.beh, Status: "unsupported", Why: why})
					}
				} else {
					res = append(res, w.Behaviors...)
					lres = append(lres, w.Lemmas...)
					for _, r := range w.Behaviors {
						for _, u := range r.Used {
							p := strings.SplitN(u, "\x00", 2)
							push(job{key: p[0], beh: p[1]})
						}
					}
					for _, l := range w.UsedLemmas {
						push(job{lemma: l})
					}
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	sort.Slice(res, func(a, b int) bool {
		return res[a].Key+"#"+res[a].Behavior < res[b].Key+"#"+res[b].Behavior
	})
	sort.Slice(lres, func(a, b int) bool { return lres[a].Name < lres[b].Name })
	return
}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	specs := flag.String("specs", "/verif/contracts", "contracts directory")
	prop := flag.String("prop", "", "property id")
	fnk := flag.String("fn", "", "alias.Func[:behavior] to verify")
	closure := flag.Bool("closure", false, "with -fn: also verify the contracts it uses")
	jsonOut := flag.String("json", "", "write the result as JSON")
	dump := flag.String("ssa", "", "dump the SSA of a function key")
	lem := flag.String("lemma", "", "prove one lemma (or all)")
	onekey := flag.String("key", "", "full key#behavior to verify")
	jobs := flag.Int("j", 4, "worker processes for -prop")
	deadline := flag.Int("deadline", 0, "seconds after which no further behavior is started and running ones are stopped")
	retry := flag.Bool("retry", true, "try a failed behavior again with larger budgets")
	worker := flag.Bool("worker", false, "run as a worker: no transitive lemmas")
	list := flag.Bool("list", false, "list contracts")
	flag.BoolVar(&debugHoudini, "v", false, "verbose")
	flag.StringVar(&debugDump, "dump", "", "directory for failing queries")
	flag.BoolVar(&debugOn, "d", false, "debug")
	flag.IntVar(&finalBudget, "budget", finalBudget, "ms per obligation")
	flag.IntVar(&houdiniBudget, "hbudget", houdiniBudget, "ms per invariant candidate")
	flag.Parse()
	if *deadline > 0 {
		stopAt = time.Now().Add(time.Duration(*deadline) * time.Second)
	}
	var err error
	P, err = loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD-ERROR", err)
		os.Exit(3)
	}
	if *dump != "" {
		for k, f := range P.funcs {
			if strings.HasSuffix(k, *dump) {
				fmt.Println(k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	theSolver = newSolver()
	defer theSolver.close()
	if debugHoudini {
		ch := make(chan os.Signal, 1)
		signal.Notify(ch, syscall.SIGTERM)
		go func() {
			<-ch
			printHstats()
			theSolver.close()
			os.Exit(4)
		}()
	}
	declareModels()
	declareModels2()
	declareModels3()
	useSplits = *lem == ""
	K, err := loadContracts(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "SPEC-ERROR", err)
		theSolver.close()
		os.Exit(4)
	}
	if *list {
		for _, k := range K.order {
			var bs []string
			for _, b := range K.fns[k].Behs {
				bs = append(bs, b.Name)
			}
			fmt.Println(shortKey(k), strings.Join(bs, ","))
		}
		return
	}
	var res []*behResult
	var lres []*lemmaResult
	t0 := time.Now()
	switch {
	case *lem != "":
		for _, l := range K.lemmas {
			if *lem == "all" || l.name == *lem {
				lres = append(lres, K.proveLemma(l))
			}
		}
	case *onekey != "":
		p := strings.SplitN(*onekey, "#", 2)
		r := verify(K, p[0], p[1])
		if r.Status == "failed" && *retry {
			// once more, with more time
			finalBudget, houdiniBudget = 2*finalBudget, 3*houdiniBudget
			r = verify(K, p[0], p[1])
		}
		res = append(res, r)
	case *fnk != "":
		p := strings.SplitN(*fnk, ":", 2)
		key := K.key(&sx{atom: p[0]})
		var start [][2]string
		ct := K.fns[key]
		if ct == nil {
			fmt.Fprintln(os.Stderr, "no contract", key)
			os.Exit(2)
		}
		for _, b := range ct.Behs {
			if len(p) == 1 || p[1] == b.Name {
				start = append(start, [2]string{key, b.Name})
			}
		}
		if *closure {
			res = verifyAll(K, start)
		} else {
			for _, s := range start {
				res = append(res, verify(K, s[0], s[1]))
			}
		}
	case *prop != "":
		ps := K.props[*prop]
		if ps == nil {
			fmt.Fprintln(os.Stderr, "no property", *prop)
			os.Exit(2)
		}
		res, lres = verifyPar(K, ps.behs, ps.lem, *jobs, []string{"-repo", *repo, "-specs", *specs, "-budget", fmt.Sprint(finalBudget), "-hbudget", fmt.Sprint(houdiniBudget)})
		theSolver.stats, theSolver.timeMs, theSolver.quickN, theSolver.quickMs = total.SolverN, total.SolverMs, total.ArithN, total.ArithMs
	}
	if *lem == "" && *prop == "" && !*worker {
		// every lemma used in a query, and the lemmas used in their proofs
		for done := map[string]bool{}; ; {
			n := len(lres)
			for _, l := range K.lemmas {
				if K.used[l.name] && !done[l.name] && !l.split {
					done[l.name] = true
					lres = append(lres, K.proveLemma(l))
				}
			}
			if len(lres) == n {
				break
			}
		}
	}
	for _, e := range K.errs {
		fmt.Println("SPEC", e)
	}
	bad := 0
	for _, r := range res {
		n, d := len(r.Obls), 0
		for _, o := range r.Obls {
			if o.Status == "discharged" {
				d++
			}
		}
		fmt.Printf("%-12s %s : %s  (%d/%d obligations, %d returns, %d ms) %s\n", strings.ToUpper(r.Status), r.Key, r.Behavior, d, n, r.Returns, r.Ms, r.Why)
		if r.Status != "proved" {
			bad++
		}
		for _, o := range r.Obls {
			if o.Status != "discharged" {
				fmt.Printf("    FAILED [%s] %s @ %s : %s\n", o.Kind, o.Name, o.Pos, o.Status)
			}
		}
		if debugHoudini {
			for _, a := range r.Assumptions {
				fmt.Println("    assumes", a)
			}
			for _, a := range r.Havocked {
				fmt.Println("    havocs", a)
			}
		}
	}
	for _, l := range lres {
		fmt.Printf("%-12s lemma %s (%d ms) %s\n", strings.ToUpper(l.Status), l.Name, l.Ms, l.Why)
		if l.Status != "proved" {
			bad++
		}
	}
	if debugHoudini {
		printHstats()
	}
	var st []string
	for k, v := range theSolver.stats {
		st = append(st, fmt.Sprintf("%s:%d/%dms", k, v, theSolver.timeMs[k]))
	}
	sort.Strings(st)
	fmt.Printf("total %d ms; solver %s; arithmetic oracle %d calls %d ms\n", time.Since(t0).Milliseconds(), strings.Join(st, " "), theSolver.quickN, theSolver.quickMs)
	if *jsonOut != "" {
		o := map[string]interface{}{"behaviors": res, "lemmas": lres, "solver_ms": theSolver.timeMs, "solver_n": theSolver.stats, "arith_n": theSolver.quickN, "arith_ms": theSolver.quickMs, "spec_errors": K.errs, "axioms": K.usedAxioms(), "wall_ms": time.Since(t0).Milliseconds()}
		if *prop != "" {
			o["axioms"] = total.Axioms
		}
		var ul []string
		for _, l := range K.lemmas {
			if K.used[l.name] && l.name != *lem {
				ul = append(ul, l.name)
			}
		}
		o["used_lemmas"] = ul
		b, _ := json.MarshalIndent(o, "", " ")
		os.WriteFile(*jsonOut, b, 0644)
	}
	if bad > 0 {
		theSolver.close()
		os.Exit(1)
	}
}

var _ *ssa.Function

type lemmaResult struct {
	Name, Status, Why string
	Ms                int64
	Solver            string
}

// proveLemma: directly, or by induction on an Int variable (downwards measure or upwards from 0)
func (K *contracts) proveLemma(l *lemma) *lemmaResult {
	t0 := time.Now()
	r := &lemmaResult{Name: l.name, Status: "proved"}
	m := map[*Term]*Term{}
	for _, v := range l.vars {
		m[v] = freshConst(strings.SplitN(v.Name, "@", 2)[0], v.Sort)
	}
	hyp, concl := subst(l.hyp, m), subst(l.concl, m)
	o := qopts{exclude: l.order, fuel: l.fuel}
	facts := []*Term{hyp}
	for _, t := range l.terms {
		o.terms = append(o.terms, subst(t, m))
	}
	if l.measure != nil {
		// well-founded induction: the lemma may be used for arguments with a smaller, non-negative measure
		mv := subst(l.measure, m)
		facts = append(facts)
		ih := mkImp(mkAnd(mkGe(l.measure, mkInt(0)), mkLt(l.measure, mv), l.hyp), l.concl)
		for _, a := range K.axioms {
			if a.name == l.name {
				for _, trg := range a.triggers {
					o.extra = append(o.extra, qfact{vars: l.vars, triggers: trg, body: ih, label: "IH"})
				}
			}
		}
	}
	mx := l.fuel
	if mx == 0 {
		mx = 3
	}
	var v, by, q string
	for f := 1; f <= mx; f++ {
		o.fuel = f
		q = printQuery(K.instantiate(facts, nil, concl, o))
		v, by, _ = theSolver.solve(q, phaseBudget(f == mx, f-1, finalBudget))
		if v == "unsat" {
			break
		}
	}
	r.Solver = by
	if v != "unsat" {
		r.Status, r.Why = "failed", v
		if debugDump != "" {
			os.WriteFile(debugDump+"/lemma-"+l.name+".smt2", []byte(q), 0644)
		}
	}
	r.Ms = time.Since(t0).Milliseconds()
	return r
}
