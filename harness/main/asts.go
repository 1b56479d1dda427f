//go:build go1.18

package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
)

// ---- a small description of grammars, turned into real ones ----

type gTok struct {
	name   string
	lines  [][]gCont
	suites []gSuite
	real   grammars.Token
}

type gSuite struct {
	valid bool
	comp  []gOcc
}

type gOcc struct {
	b byte
	n uint
}

type gKind int

const (
	gVal gKind = iota
	gToken
	gEvery
	gExt
	gRec
	gComp
)

type gCont struct {
	kind gKind
	name string // values, composes, externals, everythings, recursives
	b    byte
	tok  *gTok // token, exception
	esc  *gTok
	ext  *gGram
	comp []gOcc
	min  uint
	max  int // < 0: no maximum
}

type gChan struct {
	tok, prev, next *gTok
}

type gGram struct {
	root  *gTok
	chans []gChan
	real  grammars.Grammar
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func (c gCont) label() string {
	if c.kind == gToken {
		return c.tok.name
	}
	return c.name
}

func realValue(name string, b byte) values.Value {
	return must(values.NewBuilder().Create().WithName(name).WithNumber(b).Now())
}

func realCompose(name string, l []gOcc) grammars.Compose {
	els := []grammars.ComposeElement{}
	for _, o := range l {
		els = append(els, must(grammars.NewComposeElementBuilder().Create().WithValue(realValue("v", o.b)).WithOccurences(o.n).Now()))
	}
	return must(grammars.NewComposeBuilder().Create().WithName(name).WithList(els).Now())
}

func (c gCont) make() grammars.Container {
	if c.kind == gComp {
		return must(grammars.NewContainerBuilder().Create().WithCompose(realCompose(c.name, c.comp)).Now())
	}
	cb := cardinalities.NewBuilder().Create().WithMin(c.min)
	if c.max >= 0 {
		cb = cb.WithMax(uint(c.max))
	}
	b := grammars.NewElementBuilder().Create().WithCardinality(must(cb.Now()))
	switch c.kind {
	case gVal:
		b = b.WithValue(realValue(c.name, c.b))
	case gToken:
		b = b.WithInstance(must(grammars.NewInstanceBuilder().Create().WithToken(c.tok.make()).Now()))
	case gEvery:
		eb := grammars.NewEverythingBuilder().Create().WithName(c.name).WithException(c.tok.make())
		if c.esc != nil {
			eb = eb.WithEscape(c.esc.make())
		}
		b = b.WithInstance(must(grammars.NewInstanceBuilder().Create().WithEverything(must(eb.Now())).Now()))
	case gExt:
		b = b.WithExternal(must(grammars.NewExternalBuilder().Create().WithName(c.name).WithGrammar(c.ext.make()).Now()))
	case gRec:
		b = b.WithRecursive(c.name)
	}
	return must(grammars.NewContainerBuilder().Create().WithElement(must(b.Now())).Now())
}

func (t *gTok) make() grammars.Token {
	if t.real != nil {
		return t.real
	}
	lines := []grammars.Line{}
	for _, l := range t.lines {
		cs := []grammars.Container{}
		for _, c := range l {
			cs = append(cs, c.make())
		}
		lines = append(lines, must(grammars.NewLineBuilder().Create().WithContainers(cs).Now()))
	}
	b := grammars.NewTokenBuilder().Create().WithName(t.name).WithBlock(must(grammars.NewBlockBuilder().Create().WithLines(lines).Now()))
	if len(t.suites) > 0 {
		l := []grammars.Suite{}
		for _, s := range t.suites {
			sb := grammars.NewSuiteBuilder().Create()
			if s.valid {
				sb = sb.WithValid(realCompose("s", s.comp))
			} else {
				sb = sb.WithInvalid(realCompose("s", s.comp))
			}
			l = append(l, must(sb.Now()))
		}
		b = b.WithSuites(must(grammars.NewSuitesBuilder().Create().WithList(l).Now()))
	}
	t.real = must(b.Now())
	return t.real
}

func (g *gGram) make() grammars.Grammar {
	if g.real != nil {
		return g.real
	}
	b := grammars.NewBuilder().Create().WithRoot(g.root.make())
	if len(g.chans) > 0 {
		l := []grammars.Channel{}
		for _, ch := range g.chans {
			cb := grammars.NewChannelBuilder().Create().WithToken(ch.tok.make())
			if ch.prev != nil || ch.next != nil {
				x := grammars.NewChannelConditionBuilder().Create()
				if ch.prev != nil {
					x = x.WithPrevious(ch.prev.make())
				}
				if ch.next != nil {
					x = x.WithNext(ch.next.make())
				}
				cb = cb.WithCondition(must(x.Now()))
			}
			l = append(l, must(cb.Now()))
		}
		b = b.WithChannels(must(grammars.NewChannelsBuilder().Create().WithList(l).Now()))
	}
	g.real = must(b.Now())
	return g.real
}

func (c gCont) text() string {
	card := fmt.Sprintf("{%d,%d}", c.min, c.max)
	switch c.kind {
	case gVal:
		return fmt.Sprintf("%q%s", string([]byte{c.b}), card)
	case gToken:
		return c.tok.text() + card
	case gEvery:
		s := "#" + c.tok.text()
		if c.esc != nil {
			s += "!" + c.esc.text()
		}
		return s + card
	case gExt:
		return "ext:" + c.ext.text() + card
	case gRec:
		return "rec:" + c.name + card
	}
	s := []string{}
	for _, o := range c.comp {
		s = append(s, fmt.Sprintf("%q*%d", string([]byte{o.b}), o.n))
	}
	return "compose[" + strings.Join(s, " ") + "]"
}

func (t *gTok) text() string {
	ls := []string{}
	for _, l := range t.lines {
		cs := []string{}
		for _, c := range l {
			cs = append(cs, c.text())
		}
		ls = append(ls, strings.Join(cs, " "))
	}
	return t.name + "(" + strings.Join(ls, " | ") + ")"
}

func (g *gGram) text() string {
	s := g.root.text()
	for _, ch := range g.chans {
		s += " chan " + ch.tok.text()
		if ch.prev != nil {
			s += " prev " + ch.prev.text()
		}
		if ch.next != nil {
			s += " next " + ch.next.text()
		}
	}
	return s
}

func v1(b byte) gCont                  { return gCont{kind: gVal, name: "v" + string([]byte{b}), b: b, min: 1, max: 1} }
func tok(n string, l ...[]gCont) *gTok { return &gTok{name: n, lines: l} }
func ln(l ...gCont) []gCont            { return l }
func (c gCont) card(min uint, max int) gCont {
	c.min, c.max = min, max
	return c
}
