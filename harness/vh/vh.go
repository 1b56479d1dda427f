// Package vh runs generated cases against the real code.
// It is compiled into /repo's module through an overlay (see check.py).
package vh

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// Ctx is one case
type Ctx struct {
	R          *rand.Rand
	N          int // case number
	Tmp        string
	log        []string
	nontrivial bool
	tags       []string
}

// Failure is what a failing case reports
type Failure struct {
	Key    string   `json:"key"`
	Detail string   `json:"detail"`
	Input  []string `json:"input"`
	Case   int      `json:"case"`
	Stack  string   `json:"stack,omitempty"`
}

type stop struct{ f *Failure }
type skip struct{}

// Logf records a part of the input
func (c *Ctx) Logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 2000 {
		s = s[:2000] + "…"
	}
	c.log = append(c.log, s)
}

// NonTrivial marks the case as one that exercises the property
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Fail stops the case
func (c *Ctx) Fail(key string, f string, a ...interface{}) {
	panic(stop{&Failure{Key: key, Detail: fmt.Sprintf(f, a...)}})
}

// Assert fails the case unless ok
func (c *Ctx) Assert(ok bool, key string, f string, a ...interface{}) {
	if !ok {
		c.Fail(key, f, a...)
	}
}

// NoErr fails the case on an error
func (c *Ctx) NoErr(err error, what string) {
	if err != nil {
		c.Fail(what+":error", "%s returned an error: %s", what, err.Error())
	}
}

// Skip abandons the case (the generator could not make a valid input)
func (c *Ctx) Skip() { panic(skip{}) }

// Int in [lo, hi]
func (c *Ctx) Int(lo, hi int) int { return lo + c.R.Intn(hi-lo+1) }

// Bool with probability 1/2
func (c *Ctx) Bool() bool { return c.R.Intn(2) == 0 }

// One in n
func (c *Ctx) One(n int) bool { return c.R.Intn(n) == 0 }

// Bytes of length n
func (c *Ctx) Bytes(n int) []byte {
	b := make([]byte, n)
	c.R.Read(b)
	return b
}

// Pick one of the values
func (c *Ctx) Pick(v ...int) int { return v[c.R.Intn(len(v))] }

// Prop is the generator and the oracle of one property
type Prop struct {
	Rule string
	Run  func(c *Ctx)
	// Slow: expected upper bound for one case, in seconds (default 10)
	Slow int
}

type report struct {
	Property    string    `json:"property"`
	Evaluations int       `json:"evaluations"`
	Distinct    int       `json:"distinct_nontrivial"`
	Skipped     int       `json:"skipped"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Known       []Failure `json:"known"`
	Failure     *Failure  `json:"failure"`
	WallS       float64   `json:"wall_s"`
}

func seedOf(seed int64, prop string, n int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, n)
	return int64(h.Sum64() >> 1)
}

func run(p Prop, c *Ctx) (f *Failure, skipped bool) {
	defer func() {
		e := recover()
		switch v := e.(type) {
		case nil:
			return
		case stop:
			f = v.f
		case skip:
			skipped = true
			return
		default:
			st := string(debug.Stack())
			key := "panic"
			if i := strings.Index(st, "panic("); i >= 0 {
				// first frame of the code under test
				for _, l := range strings.Split(st[i:], "\n") {
					if strings.HasPrefix(l, "github.com/") && !strings.Contains(l, "/zzverif/") {
						l = l[strings.LastIndex(l, "/")+1:]
						if j := strings.LastIndex(l, "("); j > 0 {
							l = l[:j]
						}
						key = "panic:" + l
						break
					}
				}
			}
			f = &Failure{Key: key, Detail: fmt.Sprintf("panic: %v", e), Stack: st}
		}
		f.Case = c.N
		f.Input = c.log
	}()
	p.Run(c)
	return
}

// Main runs the property named on the command line
func Main(props map[string]Prop) {
	id := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Float64("time", 10, "")
	max := flag.Int("max", 1<<30, "")
	one := flag.Int("case", -1, "")
	out := flag.String("out", "", "")
	status := flag.String("status", "", "")
	tmp := flag.String("tmp", "", "")
	known := flag.String("known", "", "comma separated failure keys")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	p, ok := props[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness for", *id)
		os.Exit(3)
	}
	isKnown := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			isKnown[k] = true
		}
	}
	var stf *os.File
	if *status != "" {
		stf, _ = os.Create(*status)
	}
	rep := &report{Property: *id, Rule: p.Rule, Samples: []string{}, Known: []Failure{}}
	write := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		} else {
			fmt.Println(string(b))
		}
	}
	slow := p.Slow
	if slow == 0 {
		slow = 10
	}
	var cur, curStart int64
	var curCtx atomic.Value
	t0 := time.Now()
	atomic.StoreInt64(&curStart, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Now().UnixNano()-atomic.LoadInt64(&curStart) > int64(slow)*1e9 {
				c := curCtx.Load().(*Ctx)
				rep.Failure = &Failure{Key: "timeout", Detail: fmt.Sprintf("the case did not finish within %d s", slow), Case: int(atomic.LoadInt64(&cur)), Input: append([]string{}, c.log...)}
				rep.WallS = time.Since(t0).Seconds()
				write()
				os.Exit(1)
			}
		}
	}()
	distinct := map[[32]byte]bool{}
	seenKnown := map[string]bool{}
	start, end := 0, *max
	if *one >= 0 {
		start, end = *one, *one+1
	}
	for n := start; n < end; n++ {
		if time.Since(t0).Seconds() > *secs && *one < 0 {
			break
		}
		if stf != nil {
			stf.WriteAt([]byte(fmt.Sprintf("%12d\n", n)), 0)
		}
		c := &Ctx{R: rand.New(rand.NewSource(seedOf(*seed, *id, n))), N: n, Tmp: *tmp}
		curCtx.Store(c)
		atomic.StoreInt64(&cur, int64(n))
		atomic.StoreInt64(&curStart, time.Now().UnixNano())
		f, skipped := run(p, c)
		if skipped {
			rep.Skipped++
			continue
		}
		rep.Evaluations++
		if c.nontrivial {
			distinct[sha256.Sum256([]byte(strings.Join(c.log, "\n")))] = true
			if len(rep.Samples) < 3 && n%7 == 3 {
				s := strings.Join(c.log, " | ")
				if len(s) > 1200 {
					s = s[:1200] + "…"
				}
				rep.Samples = append(rep.Samples, s)
			}
		}
		if f != nil {
			if isKnown[f.Key] {
				if !seenKnown[f.Key] {
					seenKnown[f.Key] = true
					f.Stack = ""
					rep.Known = append(rep.Known, *f)
				}
				continue
			}
			rep.Failure = f
			break
		}
	}
	rep.Distinct = len(distinct)
	rep.WallS = time.Since(t0).Seconds()
	write()
	if rep.Failure != nil {
		os.Exit(1)
	}
}
