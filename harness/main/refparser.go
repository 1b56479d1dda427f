//go:build go1.18

package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

// ---- the reference parser ----
// rTree is what the tree of a token must look like.
type rTree struct {
	name   string
	failed bool // no line of the token is successful
	line   int
	rev    bool
	els    []rEl
	suffix []*rTree
	rem    []byte
}

type rEl struct {
	name string // "" when the element has no grammar
	cts  []rCt
}

type rCt struct {
	prefix []*rTree
	val    byte
	tree   *rTree
}

// steps bounds the work: some grammars backtrack for ages
type refParser struct {
	c     *vh.Ctx
	steps int
}

type rEnv struct {
	stack  map[string]*gTok
	chans  []gChan
	prev   []byte
	escape *gTok
}

func (e rEnv) with(prev []byte) rEnv { e.prev = prev; return e }

func (e rEnv) push(t *gTok) rEnv {
	m := map[string]*gTok{t.name: t}
	for k, v := range e.stack {
		if k != t.name {
			m[k] = v
		}
	}
	e.stack = m
	return e
}

func (p *refParser) grammar(g *gGram, prev, data []byte) (*rTree, bool) {
	return p.token(g.root, rEnv{stack: map[string]*gTok{}, chans: g.chans, prev: prev}, false, data)
}

func (p *refParser) token(t *gTok, e rEnv, rev bool, data []byte) (*rTree, bool) {
	p.steps++
	out := &rTree{name: t.name, failed: true, rem: data}
	in := e.push(t)
	attempted := false
	if rev {
		els, rem, ok := p.everything(t, in, data)
		if !ok {
			return nil, false
		}
		attempted = true
		out.failed, out.rev, out.els, out.rem = false, true, els, rem
	} else {
		for idx, l := range t.lines {
			els, rem, ok := p.line(l, in, data)
			if !ok {
				continue
			}
			attempted = true
			if len(els) > 0 {
				out.failed, out.line, out.els, out.rem = false, idx, els, rem
				break
			}
		}
	}
	if !attempted {
		return nil, false
	}
	out.suffix, out.rem = p.channels(e.chans, e.prev, out.rem)
	return out, true
}

// everything: one byte after another, until a line of the exception matches
func (p *refParser) everything(t *gTok, e rEnv, data []byte) ([]rEl, []byte, bool) {
	cts := []rCt{}
	rem, prev := data, e.prev
	exception := func(prev, data []byte) ([]rEl, []byte, bool) {
		for _, l := range t.lines {
			if els, r, ok := p.line(l, e.with(prev), data); ok {
				return els, r, true
			}
		}
		return nil, nil, false
	}
	for len(rem) > 0 {
		if e.escape != nil {
			ee := e
			ee.escape, ee.prev = nil, prev
			if et, ok := p.token(e.escape, ee, false, rem); ok && !et.failed && len(et.rem) > 0 {
				if els, r, ok := exception(rem, et.rem); ok && len(els) > 0 {
					n := len(et.rem) - len(r)
					for _, b := range et.rem[:n] {
						cts = append(cts, rCt{val: b})
					}
					prev, rem = et.rem, et.rem[n:]
					continue
				}
			}
		}
		if _, _, ok := exception(prev, rem); ok {
			break
		}
		cts = append(cts, rCt{val: rem[0]})
		prev, rem = rem, rem[1:]
	}
	if len(cts) == 0 {
		return nil, nil, false
	}
	return []rEl{{cts: cts}}, rem, true
}

func (p *refParser) line(l []gCont, e rEnv, data []byte) ([]rEl, []byte, bool) {
	if p.steps++; p.steps > 5000 {
		p.c.Skip()
	}
	els := []rEl{}
	rem, prev := data, e.prev
	for _, c := range l {
		if c.kind == gComp {
			el := rEl{name: c.label()}
			for _, o := range c.comp {
				for i := uint(0); i < o.n; i++ {
					ct, r, ok := p.value(o.b, e.with(prev), rem)
					if !ok {
						return nil, nil, false
					}
					el.cts = append(el.cts, ct)
					prev, rem = rem, r
				}
			}
			els = append(els, el)
			continue
		}
		el := rEl{name: c.label()}
		for len(rem) > 0 && (c.max < 0 || len(el.cts) < c.max) {
			ct, r, ok := p.content(c, e.with(prev), rem)
			if !ok {
				break
			}
			el.cts = append(el.cts, ct)
			prev, rem = rem, r
		}
		if len(el.cts) < int(c.min) {
			return nil, nil, false
		}
		if len(el.cts) > 0 {
			els = append(els, el)
		}
	}
	return els, rem, true
}

func (p *refParser) value(b byte, e rEnv, data []byte) (rCt, []byte, bool) {
	prefix, rem := p.channels(e.chans, e.prev, data)
	if len(rem) == 0 || rem[0] != b {
		return rCt{}, nil, false
	}
	return rCt{prefix: prefix, val: b}, rem[1:], true
}

func (p *refParser) content(c gCont, e rEnv, data []byte) (rCt, []byte, bool) {
	var t *rTree
	ok := false
	switch c.kind {
	case gVal:
		return p.value(c.b, e, data)
	case gToken:
		t, ok = p.token(c.tok, e, false, data)
	case gEvery:
		e.chans, e.escape = nil, c.esc
		t, ok = p.token(c.tok, e, true, data)
	case gExt:
		t, ok = p.grammar(c.ext, e.prev, data)
		if ok {
			t.name = c.name
		}
	case gRec:
		if r := e.stack[c.name]; r != nil {
			t, ok = p.token(r, e, false, data)
		}
	}
	if !ok || t.failed {
		return rCt{}, nil, false
	}
	return rCt{tree: t}, t.rem, true
}

// channels: every channel in turn, again and again while one of them consumes something
func (p *refParser) channels(chans []gChan, prev, data []byte) ([]*rTree, []byte) {
	l := []*rTree{}
	for {
		n := len(l)
		for _, ch := range chans {
			t, ok := p.token(ch.tok, rEnv{stack: map[string]*gTok{}, prev: prev}, false, data)
			if !ok || len(t.rem) == len(data) {
				continue
			}
			cond := func(t *gTok, data []byte) bool {
				if t == nil {
					return true
				}
				_, ok := p.token(t, rEnv{stack: map[string]*gTok{}}, false, data)
				return ok
			}
			if !cond(ch.prev, prev) || !cond(ch.next, t.rem) {
				continue
			}
			l = append(l, t)
			prev, data = data, t.rem
		}
		if n == len(l) {
			return l, data
		}
	}
}

func (t *rTree) text() string {
	if t.failed {
		return t.name + "<failed>" + chanText(t.suffix)
	}
	s := []string{}
	for _, e := range t.els {
		l := []string{}
		for _, c := range e.cts {
			x := chanText(c.prefix)
			if c.tree != nil {
				x += c.tree.text()
			} else {
				x += fmt.Sprintf("%q", string([]byte{c.val}))
			}
			l = append(l, x)
		}
		s = append(s, e.name+"="+strings.Join(l, ","))
	}
	r := ""
	if t.rev {
		r = "~"
	}
	return fmt.Sprintf("%s%s#%d(%s)%s", r, t.name, t.line, strings.Join(s, " "), chanText(t.suffix))
}

func chanText(l []*rTree) string {
	if len(l) == 0 {
		return ""
	}
	s := []string{}
	for _, t := range l {
		s = append(s, t.text())
	}
	return "[" + strings.Join(s, ",") + "]"
}

// size counts the contents of a tree
func (t *rTree) size() int {
	n := 1
	for _, e := range t.els {
		for _, c := range e.cts {
			n++
			if c.tree != nil {
				n += c.tree.size()
			}
		}
	}
	return n
}

func (t *rTree) bytes(ch bool) []byte {
	out := []byte{}
	if t.failed {
		return out
	}
	for _, e := range t.els {
		for _, c := range e.cts {
			if ch {
				for _, x := range c.prefix {
					out = append(out, x.bytes(ch)...)
				}
			}
			if c.tree != nil {
				out = append(out, c.tree.bytes(ch)...)
			} else {
				out = append(out, c.val)
			}
		}
	}
	if ch {
		for _, x := range t.suffix {
			out = append(out, x.bytes(ch)...)
		}
	}
	return out
}

// ---- the real tree, in the same form ----

func realTrees(t trees.Trees) []*rTree {
	l := []*rTree{}
	for _, x := range t.List() {
		l = append(l, realTree(x))
	}
	return l
}

func realTree(t trees.Tree) *rTree {
	out := &rTree{name: t.Grammar().Name(), failed: !t.Block().HasSuccessful()}
	if t.HasSuffix() {
		out.suffix = realTrees(t.Suffix())
	}
	if t.HasRemaining() {
		out.rem = t.Remaining()
	}
	if out.failed {
		return out
	}
	l := t.Block().Successful()
	out.line, out.rev = int(l.Index()), l.IsReverse()
	for _, e := range l.Elements().List() {
		el := rEl{}
		if e.HasGrammar() {
			el.name = e.Grammar().Name()
		}
		for _, c := range e.Contents().List() {
			if c.IsValue() {
				ct := rCt{val: c.Value().Content()}
				if c.Value().HasPrefix() {
					ct.prefix = realTrees(c.Value().Prefix())
				}
				el.cts = append(el.cts, ct)
				continue
			}
			el.cts = append(el.cts, rCt{tree: realTree(c.Tree())})
		}
		out.els = append(out.els, el)
	}
	return out
}
