package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	iapplications "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	iattachments "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	imodules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	iparameters "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	pmodules "github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

// bdef describes a builder: "!X" is mandatory, "|X" one of the alternatives (the first given one wins), "X" optional;
// "X=A.B" names the getter path when it is not X.
type bdef struct {
	mk   interface{}
	spec string
}

var astBuilders = []bdef{
	{values.NewBuilder(), "!Name !Number"},
	{cardinalities.NewBuilder(), "!Min Max"},
	{grammars.NewComposeElementBuilder(), "!Value !Occurences"},
	{grammars.NewComposeBuilder(), "!Name !List"},
	{grammars.NewSuiteBuilder(), "suite"},
	{grammars.NewSuitesBuilder(), "!List"},
	{grammars.NewElementBuilder(), "!Cardinality |Value=Content.Value |External=Content.External |Instance=Content.Instance |Recursive=Content.Recursive"},
	{grammars.NewContainerBuilder(), "|Element |Compose"},
	{grammars.NewLineBuilder(), "!Containers"},
	{grammars.NewBlockBuilder(), "!Lines"},
	{grammars.NewTokenBuilder(), "!Name !Block Suites"},
	{grammars.NewTokensBuilder(), "!List"},
	{grammars.NewEverythingBuilder(), "!Name !Exception Escape"},
	{grammars.NewInstanceBuilder(), "|Token |Everything"},
	{grammars.NewExternalBuilder(), "!Name !Grammar"},
	{grammars.NewChannelConditionBuilder(), "Previous Next"},
	{grammars.NewChannelBuilder(), "!Token Condition"},
	{grammars.NewChannelsBuilder(), "!List"},
	{grammars.NewBuilder(), "!Root Channels"},
	{trees.NewValueBuilder(), "!Content Prefix"},
	{trees.NewContentBuilder(), "|Value |Tree"},
	{trees.NewContentsBuilder(), "!List"},
	{trees.NewElementBuilder(), "!Contents Grammar"},
	{trees.NewElementsBuilder(), "!List"},
	{trees.NewLineBuilder(), "!Index !Grammar Elements IsReverse"},
	{trees.NewBlockBuilder(), "!Lines"},
	{trees.NewTreeBuilder(), "!Grammar !Block Suffix Remaining"},
	{trees.NewBuilder(), "!List"},
	{coverages.NewResultBuilder(), "|Tree |Error"},
	{coverages.NewExecutionBuilder(), "!Expectation !Result"},
	{coverages.NewExecutionsBuilder(), "!List"},
	{coverages.NewCoverageBuilder(), "!Token !Executions"},
	{coverages.NewBuilder(), "!List"},
}

var otherBuilders = []bdef{
	{hashtrees.NewLeafBuilder(), "!Head Parent"},
	{hashtrees.NewParentLeafBuilder(), "!Left !Right"},
	{hashtrees.NewLeavesBuilder(), "!List=Leaves"},
	{hashtrees.NewCompactBuilder(), "!Head !Leaves"},
	{hashtrees.NewBuilder(), "!Head !Parent"},
	{contents.NewContentBuilder(), "!Hash !Data !Kind"},
	{contents.NewBuilder(), "!List"},
	{references.NewPointerBuilder(), "!From !Length"},
	{references.NewContentKeyBuilder(), "!Hash !Kind !Content !Commit"},
	{references.NewContentKeysBuilder(), "!List"},
	{references.NewCommitBuilder(0), "!Values !CreatedOn Parent Proof=Mine.Proof"},
	{references.NewCommitsBuilder(), "!List"},
	{references.NewBuilder(), "!ContentKeys !Commits"},
	{pmodules.NewModuleBuilder(), "!Index !Func"},
	{pmodules.NewBuilder(), "!List"},
	{programs.NewValueBuilder(), "|Input |Constant |Execution |Program"},
	{programs.NewAttachmentBuilder(), "!Value !Local"},
	{programs.NewAttachmentsBuilder(), "!List"},
	{programs.NewApplicationBuilder(), "!Index !Module Attachments"},
	{programs.NewInstructionBuilder(), "|Value |Execution"},
	{programs.NewInstructionsBuilder(), "!List"},
	{programs.NewBuilder(), "!Instructions Outputs"},
	{imodules.NewBuilder(), "!Index !Name"},
	{iapplications.NewBuilder(), "!Module !Name"},
	{iparameters.NewBuilder(), "!Name IsInput"},
	{iattachments.NewVariableBuilder(), "!Current !Target"},
	{iattachments.NewBuilder(), "!Variable !Application"},
	{instructions.NewValueBuilder(), "|Variable |Constant |Instructions |Execution"},
	{instructions.NewAssignmentBuilder(), "!Variable !Value"},
	{instructions.NewInstructionBuilder(), "|Module |Application |Parameter |Assignment |Attachment |Execution"},
	{instructions.NewBuilder(), "!List Remaining"},
	{queries.NewElementBuilder(), "!Name !Index"},
	{queries.NewTokenBuilder(), "!Name !ReverseName !Element Content"},
	{queries.NewContentFnBuilder(), "|Single |Multi"},
	{queries.NewQueryFnBuilder(), "|Single |Multi"},
	{queries.NewFetcherBuilder(), "|Recursive |Query"},
	{queries.NewFetchersBuilder(), "!List"},
	{queries.NewInsideBuilder(), "|Fn |Fetchers"},
	{queries.NewBuilder(), "!Token !Inside !Fn"},
}

type pool map[reflect.Type][]reflect.Value

func (p pool) arg(c *vh.Ctx, t reflect.Type) (v reflect.Value, present, ok bool) {
	switch {
	case t == reflect.TypeOf(time.Time{}):
		return reflect.ValueOf(time.Unix(0, c.R.Int63()).UTC()), true, true
	case t == reflect.TypeOf(&big.Int{}):
		return reflect.ValueOf(new(big.Int).SetBytes(append([]byte{1}, c.Bytes(c.Int(0, 9))...))), true, true
	case t == reflect.TypeOf(hash.Hash{}):
		return reflect.ValueOf(hash.Hash(c.Bytes(64))), true, true
	case t.Kind() == reflect.String:
		s := string(c.Bytes(c.Int(0, 4)))
		return reflect.ValueOf(s).Convert(t), s != "", true
	case t.Kind() == reflect.Uint:
		n := rndUint(c)
		return reflect.ValueOf(n), true, true
	case t.Kind() == reflect.Uint8:
		return reflect.ValueOf(byte(c.R.Intn(256))), true, true
	case t.Kind() == reflect.Func:
		return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { panic("not called") }), true, true
	case t == reflect.TypeOf([]byte{}):
		b := c.Bytes(c.Int(1, 6))
		return reflect.ValueOf(b), true, true
	case t.Kind() == reflect.Slice:
		n := c.Int(0, 4)
		l := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			e, _, ok := p.arg(c, t.Elem())
			if !ok {
				return v, false, false
			}
			l = reflect.Append(l, e)
		}
		return l, n > 0, true
	case t.Kind() == reflect.Interface:
		if l := p[t]; len(l) > 0 {
			return l[c.R.Intn(len(l))], true, true
		}
	}
	return v, false, false
}

func same(got, exp reflect.Value) bool {
	if got.Kind() == reflect.Ptr && exp.Kind() != reflect.Ptr && got.Type().Elem() == exp.Type() {
		if got.IsNil() {
			return false
		}
		got = got.Elem()
	}
	switch exp.Kind() {
	case reflect.Func:
		return !got.IsNil()
	case reflect.Slice:
		if exp.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(got.Convert(reflect.TypeOf([]byte{})).Bytes(), exp.Convert(reflect.TypeOf([]byte{})).Bytes())
		}
		if got.Len() != exp.Len() {
			return false
		}
		for i := 0; i < exp.Len(); i++ {
			if !same(got.Index(i), exp.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(got.Interface(), exp.Interface())
}

func absent(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice:
		return v.Len() == 0
	case reflect.Interface, reflect.Ptr, reflect.Func, reflect.Map:
		return v.IsNil()
	case reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	}
	return false
}

func (p pool) step(c *vh.Ctx, d bdef) bool {
	if d.spec == "suite" {
		return p.suite(c, d)
	}
	bt := reflect.TypeOf(d.mk)
	name := strings.TrimPrefix(bt.String(), "*")
	b := reflect.ValueOf(d.mk).MethodByName("Create").Call(nil)[0]
	type fld struct {
		name, path string
		mand, alt  bool
		v          reflect.Value
		present    bool
	}
	var fs []*fld
	for _, w := range strings.Fields(d.spec) {
		f := &fld{name: strings.TrimLeft(w, "!|"), mand: w[0] == '!', alt: w[0] == '|'}
		f.path = f.name
		if i := strings.Index(f.name, "="); i >= 0 {
			f.name, f.path = f.name[:i], f.name[i+1:]
		}
		fs = append(fs, f)
	}
	full := c.R.Intn(3) > 0
	twice := c.One(6)
	desc := []string{}
	for _, i := range c.R.Perm(len(fs)) {
		f := fs[i]
		m := b.MethodByName("With" + f.name)
		if !m.IsValid() {
			m = b.MethodByName(f.name)
		}
		c.Assert(m.IsValid(), "builder-setter", "%s has no setter %s", name, f.name)
		if f.alt || !full || !f.mand {
			if c.R.Intn(2) == 0 {
				continue
			}
		}
		for n := 0; n < 2; n++ {
			if m.Type().NumIn() == 0 {
				f.v, f.present = reflect.ValueOf(true), true
				b = m.Call(nil)[0]
			} else {
				v, pr, ok := p.arg(c, m.Type().In(0))
				if !ok {
					return false
				}
				if f.name == "Length" || f.name == "Occurences" {
					pr = v.Uint() > 0
				}
				f.v, f.present = v, pr
				b = m.Call([]reflect.Value{v})[0]
			}
			if !twice {
				break
			}
		}
		if f.present {
			desc = append(desc, f.name)
		}
	}
	ok, anyAlt, hasAlt := true, false, false
	for _, f := range fs {
		if f.mand && !f.present {
			ok = false
		}
		if f.alt {
			hasAlt = true
			if f.present && anyAlt {
				f.present = false
			}
			if f.present {
				anyAlt = true
			}
		}
	}
	if hasAlt && !anyAlt {
		ok = false
	}
	r := b.MethodByName("Now").Call(nil)
	c.Logf("%s with %s", name, strings.Join(desc, ", "))
	c.Assert(r[1].IsNil() == ok && r[0].IsNil() != ok, "builder-mandatory", "%s built from (%s): error %v, expected success=%v", name, strings.Join(desc, ", "), r[1], ok)
	if !ok {
		return true
	}
	res := r[0]
	for _, f := range fs {
		cur := res
		parts := strings.Split(f.path, ".")
		for i, g := range parts {
			m := cur.MethodByName(g)
			if !m.IsValid() && g == "Number" {
				m = cur.MethodByName("Value")
			}
			c.Assert(m.IsValid(), "builder-getter", "%s has no getter %s", name, f.path)
			flag := cur.MethodByName("Has" + g)
			if !flag.IsValid() {
				flag = cur.MethodByName("Is" + g)
			}
			if flag.IsValid() && (i == len(parts)-1 || !f.present) && flag.Type().NumIn() == 0 {
				has := flag.Call(nil)[0].Bool()
				c.Assert(has == f.present, "builder-flag", "%s: flag of %s is %v, supplied %v", name, f.path, has, f.present)
			}
			cur = m.Call(nil)[0]
			if i < len(parts)-1 && absent(cur) {
				break
			}
		}
		if f.present {
			c.Assert(same(cur, f.v), "builder-value", "%s: %s is %v, supplied %v", name, f.path, cur, f.v)
		} else {
			c.Assert(absent(cur), "builder-absent", "%s: %s is %v, but was not supplied", name, f.path, cur)
		}
	}
	t := res.Type()
	if l := p[t]; len(l) < 12 {
		p[t] = append(l, res)
	} else {
		l[c.R.Intn(len(l))] = res
	}
	return true
}

func (p pool) suite(c *vh.Ctx, d bdef) bool {
	cv, _, ok := p.arg(c, reflect.TypeOf((*grammars.Compose)(nil)).Elem())
	if !ok {
		return false
	}
	a, b := c.Bool(), c.Bool()
	bl := grammars.NewSuiteBuilder().Create()
	if a {
		bl = bl.WithValid(cv.Interface().(grammars.Compose))
	}
	iv, _, _ := p.arg(c, reflect.TypeOf((*grammars.Compose)(nil)).Elem())
	if b {
		bl = bl.WithInvalid(iv.Interface().(grammars.Compose))
	}
	c.Logf("suite valid=%v invalid=%v", a, b)
	r, err := bl.Now()
	c.Assert((err == nil) == (a || b), "builder-mandatory", "suite valid=%v invalid=%v: error %v", a, b, err)
	if err != nil {
		return true
	}
	e := cv
	if !a {
		e = iv
	}
	c.Assert(r.IsValid() == a && r.Content() == e.Interface(), "builder-value", "suite content or validity differs")
	t := reflect.TypeOf((*grammars.Suite)(nil)).Elem()
	p[t] = append(p[t], reflect.ValueOf(&r).Elem())
	return true
}

func buildersProp(rule string, ds []bdef) vh.Prop {
	return vh.Prop{Rule: rule, Run: func(c *vh.Ctx) {
		p := pool{}
		if len(ds) == len(otherBuilders) {
			t, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{c.Bytes(3), c.Bytes(2)}).Now()
			c.NoErr(err, "hash tree")
			ht, pt := reflect.TypeOf((*hashtrees.HashTree)(nil)).Elem(), reflect.TypeOf((*hashtrees.ParentLeaf)(nil)).Elem()
			pr := t.Parent()
			p[ht], p[pt] = []reflect.Value{reflect.ValueOf(&t).Elem()}, []reflect.Value{reflect.ValueOf(&pr).Elem()}
		}
		built := 0
		for i := 0; i < 3*len(ds); i++ {
			d := ds[i%len(ds)]
			if i >= len(ds) {
				d = ds[c.R.Intn(len(ds))]
			}
			if p.step(c, d) {
				built++
			}
		}
		if built > len(ds) {
			c.NonTrivial()
		}
	}}
}

func init() {
	props["C16"] = buildersProp("random sequences of builder calls with random subsets of the inputs (grammar, tree and coverage builders); non-trivial: more calls than builders", astBuilders)
	props["C27"] = buildersProp("random sequences of builder calls with random subsets of the inputs (storage, interpreter and query builders); non-trivial: more calls than builders", otherBuilders)
	_ = fmt.Sprint
}
