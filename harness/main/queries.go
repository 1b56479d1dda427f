//go:build go1.18

package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	app_queries "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

// ---- a small description of queries, turned into real ones and evaluated directly ----

type qQuery struct {
	id              int
	tok, rev, elem  string
	index           uint
	content         int // < 0: all contents
	fetch           []qFetch
	single          bool // content function
	qsingle         bool // query function
	fnMode, qfnMode int  // 0: a result, 1: nothing / not valid, 2: an error
	real            queries.Query
}

type qFetch struct {
	rec string
	q   *qQuery
}

func (q *qQuery) text() string {
	s := fmt.Sprintf("q%d{%s/%s[%d]", q.id, q.tok, q.elem, q.index)
	if q.content >= 0 {
		s += fmt.Sprintf(".%d", q.content)
	}
	if q.fetch == nil {
		s += fmt.Sprintf(" fn single=%v mode=%d", q.single, q.fnMode)
	}
	for _, f := range q.fetch {
		if f.q != nil {
			s += " " + f.q.text()
		} else {
			s += " rec:" + f.rec
		}
	}
	return s + fmt.Sprintf(" result single=%v mode=%d}", q.qsingle, q.qfnMode)
}

type qRun struct {
	c   *vh.Ctx
	log []string // calls of the functions
	ids map[trees.Content]string
	n   int
}

func (r *qRun) id(x trees.Content) string {
	if _, ok := r.ids[x]; !ok {
		r.ids[x] = fmt.Sprintf("c%d", len(r.ids))
	}
	return r.ids[x]
}

var errQuery = errors.New("a function failed")

func (r *qRun) contentResult(q *qQuery, l []trees.Content) ([]interface{}, error) {
	s := fmt.Sprintf("contents of q%d:", q.id)
	out := []interface{}{}
	for _, x := range l {
		s += " " + r.id(x)
		out = append(out, fmt.Sprintf("%d:%s", q.id, r.id(x)))
	}
	r.log = append(r.log, s)
	switch q.fnMode {
	case 1:
		return nil, nil
	case 2:
		return nil, errQuery
	}
	return append(out, q.id), nil
}

func (r *qRun) queryResult(q *qQuery, l []interface{}) (interface{}, bool, error) {
	r.log = append(r.log, fmt.Sprintf("result of q%d: %v", q.id, l))
	switch q.qfnMode {
	case 1:
		return fmt.Sprintf("invalid%d", q.id), false, nil
	case 2:
		return nil, false, errQuery
	}
	return fmt.Sprintf("q%d%v", q.id, l), true, nil
}

func (r *qRun) make(q *qQuery) queries.Query {
	if q.real != nil {
		return q.real
	}
	tb := queries.NewTokenBuilder().Create().WithName(q.tok).WithReverseName(q.rev).
		WithElement(must(queries.NewElementBuilder().Create().WithName(q.elem).WithIndex(q.index).Now()))
	if q.content >= 0 {
		tb = tb.WithContent(uint(q.content))
	}
	ib := queries.NewInsideBuilder().Create()
	if q.fetch == nil {
		fb := queries.NewContentFnBuilder().Create()
		if q.single {
			fb = fb.WithSingle(func(x trees.Content) ([]interface{}, error) { return r.contentResult(q, []trees.Content{x}) })
		} else {
			fb = fb.WithMulti(func(l []trees.Content) ([]interface{}, error) { return r.contentResult(q, l) })
		}
		ib = ib.WithFn(must(fb.Now()))
	} else {
		l := []queries.Fetcher{}
		for _, f := range q.fetch {
			fb := queries.NewFetcherBuilder().Create()
			if f.q != nil {
				fb = fb.WithQuery(r.make(f.q))
			} else {
				fb = fb.WithRecursive(f.rec)
			}
			l = append(l, must(fb.Now()))
		}
		ib = ib.WithFetchers(must(queries.NewFetchersBuilder().Create().WithList(l).Now()))
	}
	qb := queries.NewQueryFnBuilder().Create()
	if q.qsingle {
		qb = qb.WithSingle(func(x interface{}) (interface{}, bool, error) { return r.queryResult(q, []interface{}{x}) })
	} else {
		qb = qb.WithMulti(func(l []interface{}) (interface{}, bool, error) { return r.queryResult(q, l) })
	}
	q.real = must(queries.NewBuilder().Create().WithToken(must(tb.Now())).WithInside(must(ib.Now())).WithFn(must(qb.Now())).Now())
	return q.real
}

// eval is what the query must do on the tree
func (r *qRun) eval(q *qQuery, t trees.Tree, last map[string]*qQuery) (interface{}, bool, error) {
	if q.tok != t.Grammar().Name() || !t.Block().HasSuccessful() {
		return nil, false, errQuery
	}
	var found []trees.Content
	n := uint(0)
	for _, e := range t.Block().Successful().Elements().List() {
		name := q.rev
		if e.HasGrammar() {
			name = e.Grammar().Name()
		}
		if name != q.elem {
			continue
		}
		if n == q.index {
			found = e.Contents().List()
			if q.content >= 0 {
				if q.content >= len(found) {
					return nil, false, errQuery
				}
				found = found[q.content : q.content+1]
			}
			break
		}
		n++
	}
	last[q.tok] = q
	res := []interface{}{}
	if q.fetch == nil {
		l := found
		if q.single {
			if len(l) == 0 {
				return nil, false, errQuery
			}
			l = l[:1]
		}
		out, err := r.contentResult(q, l)
		if err != nil {
			return nil, false, err
		}
		res = out
	} else {
		for _, x := range found {
			if !x.IsTree() {
				continue
			}
			for _, f := range q.fetch {
				sub := f.q
				if sub == nil {
					if sub = last[f.rec]; sub == nil {
						return nil, false, errQuery
					}
				}
				v, ok, err := r.eval(sub, x.Tree(), last)
				if err != nil {
					return nil, false, err
				}
				if ok {
					res = append(res, v)
				}
			}
		}
	}
	if len(res) == 0 {
		return nil, false, nil
	}
	if q.qsingle {
		res = res[:1]
	}
	return r.queryResult(q, res)
}

// query makes a query that mostly fits the tree
func (r *qRun) query(t trees.Tree, depth int, up []string) *qQuery {
	c := r.c
	q := &qQuery{id: r.n, tok: t.Grammar().Name(), rev: "reverse", content: -1, single: c.One(3), qsingle: c.One(3)}
	r.n++
	if c.One(12) {
		q.fnMode = c.Int(0, 2)
	}
	if c.One(12) {
		q.qfnMode = c.Int(0, 2)
	}
	if c.One(40) {
		q.tok = "other"
	}
	if !t.Block().HasSuccessful() {
		q.elem = "none"
		return q
	}
	els := t.Block().Successful().Elements().List()
	pick := c.R.Intn(len(els))
	e := els[pick]
	q.elem = q.rev
	if e.HasGrammar() {
		q.elem = e.Grammar().Name()
		if c.One(6) {
			q.rev = q.elem
		}
	} else if c.One(4) {
		q.rev, q.elem = "x", "x"
	}
	for _, x := range els[:pick] {
		if x.HasGrammar() && x.Grammar().Name() == q.elem || !x.HasGrammar() && q.elem == q.rev {
			q.index++
		}
	}
	if c.One(15) {
		q.index = uint(c.Int(0, 2))
	}
	if c.One(30) {
		q.elem = "none"
	}
	cts := e.Contents().List()
	if c.One(3) {
		q.content = c.Int(0, len(cts))
		if q.content == len(cts) && len(cts) > 0 && !c.One(4) {
			q.content--
		}
	}
	if depth <= 0 || c.One(4) {
		return q
	}
	var sub []trees.Tree
	for i, x := range cts {
		if x.IsTree() && (q.content < 0 || q.content == i) {
			sub = append(sub, x.Tree())
		}
	}
	if len(sub) == 0 && !c.One(10) {
		return q
	}
	up = append(up, q.tok)
	for i := c.Int(1, 2); i > 0; i-- {
		if len(sub) == 0 || c.One(4) {
			n := up[c.R.Intn(len(up))]
			if len(sub) > 0 && !c.One(10) {
				n = sub[0].Grammar().Name()
				if i == 2 {
					q.fetch = append(q.fetch, qFetch{q: r.query(sub[0], depth-1, up)})
				}
			}
			q.fetch = append(q.fetch, qFetch{rec: n})
			continue
		}
		q.fetch = append(q.fetch, qFetch{q: r.query(sub[c.R.Intn(len(sub))], depth-1, up)})
	}
	return q
}

func init() {
	props["C26"] = vh.Prop{Rule: "random queries on the trees of random grammars against a direct evaluation of the query", Run: func(c *vh.Ctx) {
		p := runParse(c, &astGen{every: 6, ext: true, rec: true, comp: true, chans: c.One(4)})
		if p.err != nil {
			return
		}
		for k := 0; k < 4; k++ {
			r := &qRun{c: c, ids: map[trees.Content]string{}}
			q := r.query(p.real, 3, nil)
			c.Logf("query %s", q.text())
			want, wok, werr := r.eval(q, p.real, map[string]*qQuery{})
			wlog := r.log
			r.log = nil
			got, ok, rem, err := app_queries.NewApplication().Execute(r.make(q), p.real)
			c.Logf("got %v %v %v, calls %q", got, ok, err, r.log)
			c.Logf("expect %v %v %v, calls %q", want, wok, werr, wlog)
			c.Assert((err == nil) == (werr == nil), "error", "the query returned the error %v, expected %v", err, werr)
			c.Assert(reflect.DeepEqual(r.log, wlog), "calls", "the functions of the query were called otherwise")
			if err == nil {
				c.Assert(ok == wok && reflect.DeepEqual(got, want), "result", "the query returned %v, %v", got, ok)
				c.Assert(string(rem) == string(rest(p.real)), "remaining", "remaining %q", rem)
				if len(wlog) > 2 {
					c.NonTrivial()
				}
			}
		}
	}}
}
