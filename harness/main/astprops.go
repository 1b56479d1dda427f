//go:build go1.18

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	asts "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

// ---- random grammars ----

type astGen struct {
	c     *vh.Ctx
	n     int
	every int // one in n elements is an everything (0: never)
	esc   bool
	chans bool
	ext   bool
	rec   bool
	comp  bool
	alpha string
}

func (g *astGen) name(p string) string {
	g.n++
	return fmt.Sprintf("%s%d", p, g.n)
}

func alphabet(c *vh.Ctx) string {
	if c.One(3) {
		return string([]byte{byte(c.R.Intn(256)), byte(c.R.Intn(256)), byte(c.R.Intn(256))})
	}
	if c.One(6) {
		b := byte(c.R.Intn(256))
		return string([]byte{b, b ^ 0x20, b ^ 0x80, b + 1})
	}
	return "abc"
}

func (g *astGen) letter() byte { return g.alpha[g.c.R.Intn(len(g.alpha))] }

func (g *astGen) card(c gCont) gCont {
	switch g.c.R.Intn(8) {
	case 0:
		return c.card(0, 1)
	case 1:
		return c.card(0, -1)
	case 2:
		return c.card(1, -1)
	case 3:
		return c.card(uint(g.c.Int(0, 3)), 3)
	case 4:
		return c.card(2, 2)
	case 5:
		if g.c.One(3) {
			m := g.c.Pick(4, 5, 6, 8, 12)
			return c.card(uint(g.c.R.Intn(m+1)), m)
		}
	}
	return c.card(1, 1)
}

func (g *astGen) value() gCont {
	c := v1(g.letter())
	c.name = g.name("v")
	return c
}

// plain is a token made of mandatory values
func (g *astGen) plain(n string) *gTok {
	t := &gTok{name: g.name(n)}
	for i := g.c.Int(1, 2); i > 0; i-- {
		l := []gCont{}
		for j := g.c.Int(1, 2); j > 0; j-- {
			l = append(l, g.value())
		}
		t.lines = append(t.lines, l)
	}
	return t
}

func (g *astGen) token(depth int, up []string) *gTok {
	t := &gTok{name: g.name("t")}
	up = append(up[:len(up):len(up)], t.name)
	for i := g.c.Int(1, 3); i > 0; i-- {
		l := []gCont{}
		fixed := false // a mandatory value comes first: recursion is safe
		for j := g.c.Int(1, 3); j > 0; j-- {
			k := g.c.R.Intn(10)
			switch {
			case k < 2 && depth > 0:
				l = append(l, g.card(gCont{kind: gToken, tok: g.token(depth-1, up)}))
			case k == 2 && depth > 0 && g.ext:
				l = append(l, g.card(gCont{kind: gExt, name: g.name("x"), ext: g.grammar(depth - 1)}))
			case k == 3 && g.rec && fixed:
				l = append(l, gCont{kind: gRec, name: up[g.c.R.Intn(len(up))], min: uint(g.c.R.Intn(2)), max: 1})
			case k == 4 && g.comp:
				x := gCont{kind: gComp, name: g.name("c")}
				x.comp = []gOcc{{g.letter(), uint(g.c.Pick(1, 1, 1, 2, 2, 3, 9))}}
				if g.c.Bool() {
					x.comp = append(x.comp, gOcc{g.letter(), uint(g.c.Int(1, 2))})
				}
				l = append(l, x)
				fixed = true
			case g.every > 0 && g.c.One(g.every):
				x := gCont{kind: gEvery, name: g.name("e"), tok: g.plain("z")}
				if g.esc && g.c.Bool() {
					x.esc = g.plain("esc")
				}
				if g.c.One(4) {
					x.tok = g.token(0, up)
				}
				x = x.card(1, 1)
				if g.c.One(3) {
					x = g.card(x)
				}
				l = append(l, x)
				if g.c.Bool() {
					l = append(l, gCont{kind: gToken, tok: x.tok, min: 1, max: 1})
				}
			default:
				v := g.value()
				if g.c.Bool() {
					v = g.card(v)
				}
				l = append(l, v)
				fixed = fixed || v.min > 0
			}
		}
		// names are unique in a line
		seen := map[string]bool{}
		k := 0
		for _, c := range l {
			if !seen[c.label()] {
				seen[c.label()] = true
				l[k] = c
				k++
			}
		}
		t.lines = append(t.lines, l[:k])
	}
	return t
}

func (g *astGen) grammar(depth int) *gGram {
	out := &gGram{root: g.token(depth, nil)}
	if g.chans && !g.c.One(4) {
		for i := g.c.Int(1, 2); i > 0; i-- {
			ch := gChan{tok: g.plain("ch")}
			if g.c.One(3) {
				ch.next = g.plain("nx")
			}
			if g.c.One(5) {
				ch.prev = g.plain("pv")
			}
			if g.c.One(2) {
				ch.tok = &gTok{name: g.name("sp"), lines: [][]gCont{{v1(' ')}}}
			}
			out.chans = append(out.chans, ch)
		}
	}
	return out
}

// sentence writes something the token may match
func (g *astGen) sentence(t *gTok, stack map[string]*gTok, chans []gChan, fuel int, out *bytes.Buffer) {
	if out.Len() > 30 || fuel <= 0 {
		return
	}
	m := map[string]*gTok{t.name: t}
	for k, v := range stack {
		if k != t.name {
			m[k] = v
		}
	}
	space := func() {
		if len(chans) > 0 && g.c.One(3) {
			g.sentence(chans[g.c.R.Intn(len(chans))].tok, nil, nil, fuel-1, out)
		}
	}
	l := t.lines[g.c.R.Intn(len(t.lines))]
	for _, c := range l {
		n := int(c.min)
		if c.max < 0 {
			n += g.c.R.Intn(3)
			if g.c.One(6) {
				n += g.c.Int(3, 10)
			}
		} else if c.max > n && g.c.Bool() {
			n = c.max + g.c.R.Intn(2)
		} else if c.max > n {
			n += g.c.R.Intn(c.max - n + 1)
		}
		if g.c.One(25) && n > 0 {
			n--
		}
		if c.kind == gComp {
			for _, o := range c.comp {
				for i := uint(0); i < o.n; i++ {
					space()
					out.WriteByte(o.b)
				}
			}
			continue
		}
		for i := 0; i < n; i++ {
			switch c.kind {
			case gVal:
				space()
				out.WriteByte(c.b)
			case gToken:
				g.sentence(c.tok, m, chans, fuel-1, out)
			case gExt:
				g.sentence(c.ext.root, nil, c.ext.chans, fuel-1, out)
			case gRec:
				if r := m[c.name]; r != nil {
					g.sentence(r, m, chans, fuel-1, out)
				}
			case gEvery:
				for i := g.c.Int(0, 4); i > 0; i-- {
					if c.esc != nil && g.c.One(3) {
						g.sentence(c.esc, m, nil, fuel-1, out)
						if !g.c.One(3) {
							g.sentence(c.tok, m, nil, fuel-1, out)
						}
						continue
					}
					out.WriteByte(g.letter())
				}
			}
		}
	}
	space()
}

func (g *astGen) data(gr *gGram) []byte {
	b := &bytes.Buffer{}
	g.sentence(gr.root, nil, gr.chans, 6, b)
	d := b.Bytes()
	for g.c.One(3) && len(d) > 0 {
		i := g.c.R.Intn(len(d))
		switch g.c.R.Intn(4) {
		case 0:
			d = append(d[:i:i], d[i+1:]...)
		case 1:
			d = append(d[:i:i], append([]byte{g.letter()}, d[i:]...)...)
		case 2:
			d[i] = g.letter()
		case 3:
			d = append(d, g.letter())
		}
	}
	if g.c.One(20) {
		d = nil
	}
	return d
}

type parseRun struct {
	gen  *astGen
	gr   *gGram
	data []byte
	real trees.Tree
	err  error
	want *rTree
	ok   bool
}

func runParse(c *vh.Ctx, g *astGen) *parseRun {
	g.c = c
	if g.alpha == "" {
		g.alpha = alphabet(c)
	}
	r := &parseRun{gen: g, gr: g.grammar(c.Int(0, 2))}
	r.data = g.data(r.gr)
	c.Logf("grammar %s", r.gr.text())
	c.Logf("data %q", r.data)
	in := append([]byte{}, r.data...)
	p := &refParser{c: c}
	r.want, r.ok = p.grammar(r.gr, []byte{}, in)
	r.real, r.err = asts.NewApplication().Execute(r.gr.make(), r.data)
	c.Assert(bytes.Equal(in, r.data), "input-changed", "the given data was modified: %q", r.data)
	if r.real != nil {
		c.Logf("parsed %s rest %q", realTree(r.real).text(), rest(r.real))
	} else {
		c.Logf("parsed error %v", r.err)
	}
	if r.ok {
		c.Logf("expect %s rest %q", r.want.text(), r.want.rem)
	} else {
		c.Logf("expect error")
	}
	return r
}

func rest(t trees.Tree) []byte {
	if t.HasRemaining() {
		return t.Remaining()
	}
	return []byte{}
}

// same compares the whole outcome with the reference parser
func (r *parseRun) same(c *vh.Ctx) {
	c.Assert((r.err == nil) == r.ok, "accept", "error %v while the grammar %s", r.err, map[bool]string{true: "matches", false: "does not match"}[r.ok])
	if !r.ok {
		return
	}
	if r.want.size() > 3 {
		c.NonTrivial()
	}
	got := realTree(r.real)
	c.Assert(got.failed == r.want.failed, "success", "successful: %v, expected %v", !got.failed, !r.want.failed)
	c.Assert(got.text() == r.want.text(), "tree", "tree %s, expected %s", got.text(), r.want.text())
	c.Assert(bytes.Equal(rest(r.real), r.want.rem), "remaining", "remaining %q, expected %q", rest(r.real), r.want.rem)
	for _, ch := range []bool{true, false} {
		c.Assert(bytes.Equal(r.real.Bytes(ch), r.want.bytes(ch)), "bytes", "bytes(%v) %q, expected %q", ch, r.real.Bytes(ch), r.want.bytes(ch))
	}
}

func hasEscape(t *gTok, seen map[*gTok]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, l := range t.lines {
		for _, c := range l {
			if c.kind == gEvery && (c.esc != nil || hasEscape(c.tok, seen)) || c.kind == gToken && hasEscape(c.tok, seen) || c.kind == gExt && hasEscape(c.ext.root, seen) {
				return true
			}
		}
	}
	return false
}

func compBytes(l []gOcc) []byte {
	out := []byte{}
	for _, o := range l {
		out = append(out, bytes.Repeat([]byte{o.b}, int(o.n))...)
	}
	return out
}

// validTree checks a tree against the grammar of its token, on its own
func validTree(c *vh.Ctx, t trees.Tree) {
	if t.HasSuffix() {
		for _, x := range t.Suffix().List() {
			validTree(c, x)
		}
	}
	if !t.Block().HasSuccessful() {
		return
	}
	l := t.Block().Successful()
	where := fmt.Sprintf("token %s line %d", t.Grammar().Name(), l.Index())
	if l.IsReverse() {
		return
	}
	lines := t.Grammar().Block().Lines()
	c.Assert(int(l.Index()) < len(lines) && lines[l.Index()] == l.Grammar(), "line", "%s: the line is not the one of the token", where)
	els := l.Elements().List()
	c.Assert(len(els) > 0, "line", "%s: successful without elements", where)
	for _, ct := range l.Grammar().Containers() {
		if len(els) > 0 && els[0].HasGrammar() && els[0].Grammar() == ct {
			e := els[0]
			els = els[1:]
			if ct.IsCompose() {
				b := []byte{}
				for _, x := range e.Contents().List() {
					c.Assert(x.IsValue(), "compose", "%s: tree in a compose", where)
					b = append(b, x.Value().Content())
				}
				w := []byte{}
				for _, x := range ct.Compose().List() {
					w = append(w, bytes.Repeat([]byte{x.Value().Number()}, int(x.Occurences()))...)
				}
				c.Assert(bytes.Equal(b, w), "compose", "%s: the compose matched %q instead of %q", where, b, w)
				continue
			}
			n, card := uint(len(e.Contents().List())), ct.Element().Cardinality()
			c.Assert(n >= card.Min() && (!card.HasMax() || n <= *card.Max()), "cardinality", "%s: %d contents in %s", where, n, ct.Name())
			for _, x := range e.Contents().List() {
				validContent(c, where, ct.Element().Content(), x)
			}
			continue
		}
		c.Assert(ct.IsElement() && ct.Element().Cardinality().Min() == 0, "missing", "%s: the container %s is missing", where, ct.Name())
	}
	c.Assert(len(els) == 0, "order", "%s: %d elements do not follow the containers of the line", where, len(els))
}

func validContent(c *vh.Ctx, where string, g grammars.ElementContent, x trees.Content) {
	if g.IsValue() {
		c.Assert(x.IsValue() && x.Value().Content() == g.Value().Number(), "value", "%s: not the value %d", where, g.Value().Number())
		if x.Value().HasPrefix() {
			for _, p := range x.Value().Prefix().List() {
				validTree(c, p)
			}
		}
		return
	}
	c.Assert(x.IsTree() && x.Tree().Block().HasSuccessful(), "content", "%s: not a successful tree", where)
	t := x.Tree()
	rev := t.Block().Successful().IsReverse()
	switch {
	case g.IsExternal():
		c.Assert(t.Grammar().Name() == g.External().Name() && !rev, "content", "%s: not the external grammar", where)
	case g.IsRecursive():
		c.Assert(t.Grammar().Name() == g.Recursive() && !rev, "content", "%s: %s instead of the recursive token %s", where, t.Grammar().Name(), g.Recursive())
	case g.Instance().IsToken():
		c.Assert(t.Grammar() == g.Instance().Token() && !rev, "content", "%s: not the token", where)
	default:
		c.Assert(t.Grammar() == g.Instance().Everything().Exception() && rev, "content", "%s: not an everything", where)
	}
	validTree(c, t)
}

// ---- coverage ----

// covTokens lists the tokens whose suites are run, in order
func covTokens(t *gTok, chans []gChan, skip map[string]bool, out *[]covOf) {
	if skip[t.name] {
		return
	}
	skip[t.name] = true
	for _, l := range t.lines {
		for _, c := range l {
			switch c.kind {
			case gExt:
				covGrammar(c.ext, out)
			case gToken:
				covTokens(c.tok, chans, skip, out)
			case gEvery:
				covTokens(c.tok, chans, skip, out)
				if c.esc != nil {
					covTokens(c.esc, chans, skip, out)
				}
			}
		}
	}
	if len(t.suites) > 0 {
		*out = append(*out, covOf{t, chans})
	}
}

type covOf struct {
	t     *gTok
	chans []gChan
}

func covGrammar(g *gGram, out *[]covOf) {
	skip := map[string]bool{}
	root := []covOf{}
	covTokens(g.root, g.chans, skip, &root)
	for _, ch := range g.chans {
		covTokens(ch.tok, nil, skip, out)
	}
	*out = append(*out, root...)
}

func (g *astGen) suites(t *gTok, chans []gChan, seen map[*gTok]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if g.c.One(2) {
		for i := g.c.Int(1, 2); i > 0; i-- {
			b := &bytes.Buffer{}
			g.sentence(t, nil, chans, 5, b)
			if b.Len() == 0 {
				b.WriteByte(g.letter())
			}
			l := []gOcc{}
			for _, x := range b.Bytes() {
				l = append(l, gOcc{x, 1})
			}
			t.suites = append(t.suites, gSuite{valid: !g.c.One(4), comp: l})
		}
	}
	for _, l := range t.lines {
		for _, c := range l {
			switch c.kind {
			case gExt:
				g.suites(c.ext.root, c.ext.chans, seen)
			case gToken:
				g.suites(c.tok, chans, seen)
			case gEvery:
				g.suites(c.tok, chans, seen)
				if c.esc != nil {
					g.suites(c.esc, chans, seen)
				}
			}
		}
	}
	for _, ch := range chans {
		g.suites(ch.tok, nil, seen)
	}
}

// covered lists what a tree exercises: token / line / container
func covered(tok string, t *rTree, lines map[string][][]gCont, out map[string]bool) {
	if t.failed {
		return
	}
	ls := lines[tok]
	at := 0
	for _, e := range t.els {
		if e.name == "" {
			continue
		}
		if t.line < len(ls) {
			for at < len(ls[t.line]) && ls[t.line][at].label() != e.name {
				at++
			}
		}
		out[fmt.Sprintf("%s/%d/%d=%s", tok, t.line, at, e.name)] = true
		at++
		for _, c := range e.cts {
			if c.tree != nil {
				covered(c.tree.name, c.tree, lines, out)
			}
		}
	}
}

func allElements(t *gTok, seen map[*gTok]bool, lines map[string][][]gCont, out map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	lines[t.name] = t.lines
	for i, l := range t.lines {
		for j, c := range l {
			if c.kind == gComp {
				continue
			}
			out[fmt.Sprintf("%s/%d/%d=%s", t.name, i, j, c.label())] = true
			switch c.kind {
			case gToken:
				allElements(c.tok, seen, lines, out)
			case gEvery:
				allElements(c.tok, seen, lines, out)
				if c.esc != nil {
					allElements(c.esc, seen, lines, out)
				}
			}
		}
	}
}

func flatCov(m map[string]map[uint]map[uint]string) []string {
	out := []string{}
	for t, ls := range m {
		for l, es := range ls {
			for e, n := range es {
				out = append(out, fmt.Sprintf("%s/%d/%d=%s", t, l, e, n))
			}
		}
	}
	sort.Strings(out)
	return out
}

func sorted(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	props["C17"] = vh.Prop{Rule: "random compose tokens (empty, one and many values, element containers, several lines) against the concatenation of their values", Run: func(c *vh.Ctx) {
		t := &gTok{name: "t"}
		bad := false
		want := []byte{}
		for i := c.Pick(1, 1, 1, 2); i > 0; i-- {
			l := []gCont{}
			for j := c.Int(1, 4); j > 0; j-- {
				if c.One(10) {
					l = append(l, v1('x'))
					bad = true
					continue
				}
				x := gCont{kind: gComp, name: "c"}
				for k := c.Int(1, 4); k > 0; k-- {
					x.comp = append(x.comp, gOcc{byte(c.R.Intn(256)), uint(c.Pick(1, 1, 2, 3, 7, 300))})
				}
				want = append(want, compBytes(x.comp)...)
				l = append(l, x)
			}
			t.lines = append(t.lines, l)
		}
		c.Logf("token %s", t.text())
		bad = bad || len(t.lines) > 1
		got, err := asts.NewApplication().Compose(t.make())
		c.Assert((err != nil) == bad, "error", "error %v, expected one: %v", err, bad)
		if err == nil {
			c.NonTrivial()
			c.Assert(bytes.Equal(got, want), "bytes", "composed %q instead of %q", got, want)
		}
	}}
	props["C18"] = vh.Prop{Rule: "random grammars (values, tokens, externals, recursion, composes, everythings, channels) and data close to their sentences", Run: func(c *vh.Ctx) {
		r := runParse(c, &astGen{every: 8, esc: true, chans: c.Bool(), ext: true, rec: true, comp: true})
		if r.err != nil {
			return
		}
		rem := rest(r.real)
		c.Assert(bytes.HasSuffix(r.data, rem), "suffix", "the remaining data %q is not the end of the input", rem)
		if !r.real.Block().HasSuccessful() {
			return
		}
		c.Assert(len(rem) < len(r.data), "consume", "a successful tree consumed nothing")
		if !hasEscape(r.gr.root, map[*gTok]bool{}) {
			c.NonTrivial()
			got := append(append([]byte{}, r.real.Bytes(true)...), rem...)
			c.Assert(bytes.Equal(got, r.data), "lost", "the bytes of the tree and the remaining data are %q", got)
		}
	}}
	props["C19"] = vh.Prop{Rule: "random grammars and data close to their sentences; every node of the tree is checked against its grammar", Run: func(c *vh.Ctx) {
		r := runParse(c, &astGen{every: 8, esc: true, chans: c.Bool(), ext: true, rec: true, comp: true})
		if r.err == nil {
			if r.real.Block().HasSuccessful() {
				c.NonTrivial()
			}
			c.Assert(r.real.Grammar() == r.gr.root.real, "root", "the tree is not one of the root token")
			validTree(c, r.real)
		}
	}}
	props["C20"] = vh.Prop{Rule: "random grammars without everythings and channels against the reference parser", Run: func(c *vh.Ctx) {
		runParse(c, &astGen{ext: true, rec: true, comp: true}).same(c)
	}}
	props["C21"] = vh.Prop{Rule: "random grammars with everythings and escapes against the reference parser", Run: func(c *vh.Ctx) {
		runParse(c, &astGen{every: 3, esc: true, rec: c.Bool(), comp: c.Bool()}).same(c)
	}}
	props["C22"] = vh.Prop{Rule: "random grammars with channels and conditions against the reference parser", Run: func(c *vh.Ctx) {
		runParse(c, &astGen{every: 12, chans: true, ext: true, rec: c.Bool(), comp: true}).same(c)
	}}
	props["C23"] = vh.Prop{Rule: "random grammars with suites: coverages, covered and uncovered elements against the reference parser", Run: func(c *vh.Ctx) {
		g := &astGen{c: c, alpha: alphabet(c), every: 10, esc: c.Bool(), chans: c.Bool(), rec: true, comp: true, ext: c.One(3)}
		gr := g.grammar(c.Int(0, 2))
		g.suites(gr.root, gr.chans, map[*gTok]bool{})
		c.Logf("grammar %s", gr.text())
		want := []covOf{}
		covGrammar(gr, &want)
		// the reference goes first: it gives up on grammars that backtrack for ages
		type outcome struct {
			t  *rTree
			ok bool
		}
		ref := map[string]outcome{}
		for i, w := range want {
			for j, s := range w.t.suites {
				t, ok := (&refParser{c: c}).token(w.t, rEnv{stack: map[string]*gTok{}, chans: w.chans}, false, compBytes(s.comp))
				ref[fmt.Sprint(i, "/", j)] = outcome{t, ok}
			}
		}
		app := asts.NewApplication()
		real := gr.make()
		cov, err := app.Coverages(real)
		c.Assert(err == nil, "coverages", "Coverages: %v", err)
		list := []coverages.Coverage{}
		if cov != nil {
			list = cov.List()
		}
		c.Assert(len(list) == len(want), "coverages", "%d coverages instead of %d", len(list), len(want))
		done := map[string]bool{}
		all, lines := map[string]bool{}, map[string][][]gCont{}
		seen := map[*gTok]bool{}
		allElements(gr.root, seen, lines, all)
		for _, ch := range gr.chans {
			allElements(ch.tok, seen, lines, all)
		}
		for i, x := range list {
			w := want[i]
			c.Assert(x.Token() == w.t.real, "token", "coverage %d is about %s instead of %s", i, x.Token().Name(), w.t.name)
			ex := x.Executions().List()
			c.Assert(len(ex) == len(w.t.suites), "executions", "%d executions of the %d suites of %s", len(ex), len(w.t.suites), w.t.name)
			for j, e := range ex {
				s := w.t.suites[j]
				c.Assert(e.Expectation().IsValid() == s.valid, "expectation", "suite %d of %s", j, w.t.name)
				in := compBytes(s.comp)
				o := ref[fmt.Sprint(i, "/", j)]
				rt, ok := o.t, o.ok
				c.Logf("suite %q of %s: parsed %v", in, w.t.name, ok)
				c.Assert(e.Result().IsTree() == ok && e.Result().IsError() == !ok, "result", "suite %q of %s: tree %v, error %q; expected a tree: %v", in, w.t.name, e.Result().IsTree(), e.Result().Error(), ok)
				if ok {
					c.NonTrivial()
					got := realTree(e.Result().Tree())
					c.Assert(got.text() == rt.text(), "result-tree", "suite %q of %s: tree %s, expected %s", in, w.t.name, got.text(), rt.text())
					covered(w.t.name, rt, lines, done)
				}
			}
		}
		if g.ext {
			return
		}
		un, err := app.Uncovered(real)
		c.Assert(err == nil, "uncovered", "Uncovered: %v", err)
		for k := range done {
			delete(all, k)
		}
		c.Assert(strings.Join(flatCov(un), " ") == strings.Join(sorted(all), " "), "uncovered", "uncovered %v, expected %v", flatCov(un), sorted(all))
	}}
}
