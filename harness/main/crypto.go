package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"reflect"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

func dig(b []byte) []byte {
	if len(b) == 64 {
		return append([]byte{}, b...)
	}
	s := sha512.Sum512(b)
	return s[:]
}

func cat(l ...[]byte) []byte {
	o := []byte{}
	for _, b := range l {
		o = append(o, b...)
	}
	return o
}

func le64(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return b
}

// lengths around the interesting ones
func rndLen(c *vh.Ctx) int {
	switch c.R.Intn(5) {
	case 0:
		return c.Int(0, 3)
	case 1:
		return c.Int(60, 70)
	case 2:
		return c.Int(120, 140)
	case 3:
		return 64
	}
	return c.Int(0, 300)
}

// rndBlocks gives blocks with repetitions, empty blocks and 64-byte blocks
func rndBlocks(c *vh.Ctx, lo, hi int) [][]byte {
	n := c.Int(lo, hi)
	out := [][]byte{}
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && c.One(6):
			out = append(out, append([]byte{}, out[c.R.Intn(i)]...))
		case c.One(10):
			out = append(out, []byte{})
		case c.One(8):
			out = append(out, c.Bytes(64))
		default:
			out = append(out, c.Bytes(c.Int(0, 90)))
		}
	}
	return out
}

func padTo(blocks [][]byte) [][]byte {
	hs := [][]byte{}
	for _, b := range blocks {
		hs = append(hs, dig(b))
	}
	n := 2
	for n < len(hs) {
		n *= 2
	}
	for len(hs) < n {
		hs = append(hs, dig([]byte{}))
	}
	return hs
}

type node struct {
	head        []byte
	left, right *node
}

func refTree(hs [][]byte) *node {
	var l []*node
	for _, h := range hs {
		l = append(l, &node{head: h})
	}
	for len(l) > 1 {
		var m []*node
		for i := 0; i+1 < len(l); i += 2 {
			m = append(m, &node{dig(cat(l[i].head, l[i+1].head)), l[i], l[i+1]})
		}
		l = m
	}
	return l[0]
}

func eqLeaf(n *node, l hashtrees.Leaf) bool {
	if l == nil || !bytes.Equal(n.head, l.Head().Bytes()) || l.HasParent() != (n.left != nil) {
		return false
	}
	return n.left == nil || eqLeaf(n.left, l.Parent().Left()) && eqLeaf(n.right, l.Parent().Right())
}

func eqTree(n *node, t hashtrees.HashTree) bool {
	return t != nil && bytes.Equal(n.head, t.Head().Bytes()) && eqLeaf(n.left, t.Parent().Left()) && eqLeaf(n.right, t.Parent().Right())
}

func logBlocks(c *vh.Ctx, what string, b [][]byte) {
	c.Logf("%s: %d blocks %x", what, len(b), b)
}

func buildTree(c *vh.Ctx, blocks [][]byte) hashtrees.HashTree {
	t, err := hashtrees.NewBuilder().Create().WithBlocks(append([][]byte{}, blocks...)).Now()
	c.NoErr(err, "hashtree builder")
	c.Assert(t != nil, "nil-tree", "nil tree without error")
	return t
}

// any binary tree with 64-byte heads
func rndLeaf(c *vh.Ctx, depth int) hashtrees.Leaf {
	b := hashtrees.NewLeafBuilder().Create().WithHead(hash.Hash(c.Bytes(64)))
	if depth > 0 && !c.One(3) {
		b = b.WithParent(rndParent(c, depth))
	}
	l, err := b.Now()
	c.NoErr(err, "leaf builder")
	return l
}

func rndParent(c *vh.Ctx, depth int) hashtrees.ParentLeaf {
	p, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(rndLeaf(c, depth-1)).WithRight(rndLeaf(c, depth-1)).Now()
	c.NoErr(err, "parent leaf builder")
	return p
}

func encLeaf(l hashtrees.Leaf) []byte {
	if !l.HasParent() {
		return cat(l.Head())
	}
	return cat(l.Head(), encParent(l.Parent()))
}

func encParent(p hashtrees.ParentLeaf) []byte {
	l := encLeaf(p.Left())
	return cat(le64(uint64(len(l))), l, encLeaf(p.Right()))
}

func flat(l hashtrees.Leaf) []hashtrees.Leaf {
	if !l.HasParent() {
		return []hashtrees.Leaf{l}
	}
	return append(flat(l.Parent().Left()), flat(l.Parent().Right())...)
}

// spine is a chain of given depth with small random subtrees on the other side
func spine(c *vh.Ctx, depth int) hashtrees.ParentLeaf {
	mode := c.R.Intn(3) // leftmost, rightmost, zigzag
	p := rndParent(c, c.Int(1, 2))
	for i := 0; i < depth; i++ {
		l, err := hashtrees.NewLeafBuilder().Create().WithHead(hash.Hash(c.Bytes(64))).WithParent(p).Now()
		c.NoErr(err, "leaf builder")
		o := rndLeaf(c, c.Pick(0, 0, 1, 3))
		b := hashtrees.NewParentLeafBuilder().Create()
		if mode == 0 || mode == 2 && c.Bool() {
			b = b.WithLeft(l).WithRight(o)
		} else {
			b = b.WithLeft(o).WithRight(l)
		}
		p, err = b.Now()
		c.NoErr(err, "parent leaf builder")
	}
	return p
}

func rndTree(c *vh.Ctx) hashtrees.HashTree {
	if c.One(6) {
		d := c.Int(1, 40)
		h := c.Bytes(64)
		p := spine(c, d)
		c.Logf("free-form tree with a spine of depth %d, head=%x parent=%x", d, h, encParent(p))
		t, err := hashtrees.NewBuilder().Create().WithHead(h).WithParent(p).Now()
		c.NoErr(err, "hashtree builder")
		return t
	}
	if c.One(25) {
		b := rndBlocks(c, 500, c.Pick(600, 1100, 2100, 4100))
		logBlocks(c, "big tree of", b)
		return buildTree(c, b)
	}
	if c.Bool() {
		b := rndBlocks(c, 0, 20)
		logBlocks(c, "tree of", b)
		return buildTree(c, b)
	}
	p := rndParent(c, c.Int(1, 5))
	h := c.Bytes(64)
	c.Logf("free-form tree head=%x parent=%x", h, encParent(p))
	t, err := hashtrees.NewBuilder().Create().WithHead(h).WithParent(p).Now()
	c.NoErr(err, "hashtree builder")
	return t
}

func init() {
	props["C01"] = vh.Prop{Rule: "random byte strings with lengths around 0, 64 and 128; non-trivial: all", Run: func(c *vh.Ctx) {
		a := hash.NewAdapter()
		in := c.Bytes(rndLen(c))
		keep := append([]byte{}, in...)
		c.Logf("input %x", in)
		c.NonTrivial()
		h, err := a.FromBytes(in)
		c.NoErr(err, "FromBytes")
		c.Assert(bytes.Equal(*h, dig(in)), "digest", "digest is %x, expected %x", []byte(*h), dig(in))
		c.Assert(bytes.Equal(in, keep), "input-modified", "the input was modified")
		if len(in) > 0 {
			in[0] ^= 1
			c.Assert(bytes.Equal(*h, dig(keep)), "aliased", "the digest changes with the input")
			in[0] ^= 1
		}
		// several pieces
		var rows [][]byte
		rest := keep
		for len(rest) > 0 && !c.One(6) {
			n := c.Int(0, len(rest))
			rows = append(rows, rest[:n])
			rest = rest[n:]
		}
		rows = append(rows, rest)
		m, err := a.FromMultiBytes(rows)
		c.NoErr(err, "FromMultiBytes")
		c.Assert(bytes.Equal(*m, dig(keep)), "multi", "digest of the pieces %x is %x, expected %x", rows, []byte(*m), dig(keep))
		// text
		txt := h.String()
		c.Assert(txt == hex.EncodeToString(*h), "text", "text is %q for %x", txt, []byte(*h))
		b, err := a.FromString(txt)
		c.NoErr(err, "FromString")
		c.Assert(bytes.Equal(*b, *h) && b.Compare(*h), "text-roundtrip", "text %q gives %x", txt, []byte(*b))
		r := hex.EncodeToString(keep)
		if c.One(2) {
			bs := []byte(r)
			if len(bs) > 0 {
				bs[c.R.Intn(len(bs))] = byte(c.R.Intn(256))
			}
			if c.One(3) {
				bs = append(bs, "0123456789abcdefABCDEFg"[c.R.Intn(23)])
			}
			r = string(bs)
		}
		c.Logf("text %q", r)
		dec, e1 := hex.DecodeString(r)
		g, e2 := a.FromString(r)
		c.Assert((e1 == nil) == (e2 == nil), "text-accept", "hex error %v but adapter error %v", e1, e2)
		if e2 == nil {
			c.Assert(bytes.Equal(*g, dig(dec)), "text-digest", "text %q gives %x expected %x", r, []byte(*g), dig(dec))
		}
		// comparison
		o := append([]byte{}, *h...)
		c.Assert(h.Compare(o) && hash.Hash(o).Compare(*h), "compare", "equal hashes are reported different")
		i := c.Pick(0, 63, c.R.Intn(64))
		o[i] ^= byte(1 << uint(c.R.Intn(8)))
		c.Assert(!h.Compare(o) && !hash.Hash(o).Compare(*h), "compare", "hashes that differ in byte %d are reported equal", i)
		n := c.Int(0, 63)
		c.Assert(!h.Compare((*h)[:n]) && !hash.Hash((*h)[:n]).Compare(*h), "compare-prefix", "a strict prefix is reported equal")
		c.Assert(bytes.Equal(h.Bytes(), *h), "bytes", "Bytes() differs from the hash")
	}}
	props["C02"] = vh.Prop{Rule: "random block lists of 0..40 (sometimes 130) blocks with repeats; non-trivial: all", Run: func(c *vh.Ctx) {
		b := rndBlocks(c, 0, c.Pick(5, 10, 20, 40, 130))
		if c.One(30) {
			b = rndBlocks(c, 200, 2100)
		}
		logBlocks(c, "blocks", b)
		c.NonTrivial()
		bl := hashtrees.NewBuilder().Create().WithBlocks(b)
		t, err := bl.Now()
		c.NoErr(err, "hashtree builder")
		ref := refTree(padTo(b))
		c.Assert(eqTree(ref, t), "tree", "the tree is not the pairwise digest tree of the padded blocks (head %x, expected %x)", []byte(t.Head()), ref.head)
	}}
	props["C03"] = vh.Prop{Rule: "trees of random blocks and free-form trees; non-trivial: more than two leaves", Run: func(c *vh.Ctx) {
		t := rndTree(c)
		a := hashtrees.NewAdapter()
		fl := append(flat(t.Parent().Left()), flat(t.Parent().Right())...)
		if len(fl) > 2 {
			c.NonTrivial()
		}
		n, err := a.ToLength(t)
		c.NoErr(err, "ToLength")
		c.Assert(int(*n) == len(fl), "length", "length %d, expected %d", *n, len(fl))
		h := uint(2)
		for l := t.Parent().Left(); l.HasParent(); l = l.Parent().Left() {
			h++
		}
		c.Assert(t.Height() == h, "height", "height %d, expected %d", t.Height(), h)
		cp, err := a.ToCompact(t)
		c.NoErr(err, "ToCompact")
		c.Assert(bytes.Equal(cp.Head(), t.Head()), "compact-head", "compact head differs")
		c.Assert(int(cp.Length()) == len(fl), "compact-length", "compact length %d, expected %d", cp.Length(), len(fl))
		for i, l := range cp.Leaves().Leaves() {
			c.Assert(bytes.Equal(l.Head(), fl[i].Head()) && !l.HasParent(), "compact-leaf", "compact leaf %d differs", i)
		}
		if len(fl)&(len(fl)-1) == 0 {
			r, err := hashtrees.NewLeavesAdapter().ToHashTree(cp.Leaves())
			c.NoErr(err, "leaves to hashtree")
			var hs [][]byte
			for _, l := range fl {
				hs = append(hs, l.Head())
			}
			c.Assert(eqTree(refTree(hs), r), "rebuilt", "the tree rebuilt from the leaves differs")
		}
	}}
	props["C04"] = vh.Prop{Rule: "trees of random blocks and free-form trees; non-trivial: all", Run: func(c *vh.Ctx) {
		t := rndTree(c)
		c.NonTrivial()
		a, la, lsa, ca := hashtrees.NewAdapter(), hashtrees.NewLeafAdapter(), hashtrees.NewLeavesAdapter(), hashtrees.NewCompactAdapter()
		b, err := a.ToContent(t)
		c.NoErr(err, "ToContent")
		c.Assert(bytes.Equal(b, cat(t.Head(), encParent(t.Parent()))), "encoding", "the tree encoding is %x", b)
		r, err := a.ToHashTree(b)
		c.NoErr(err, "ToHashTree")
		c.Assert(reflect.DeepEqual(t, r), "tree-roundtrip", "the decoded tree differs")
		lf := t.Parent().Right()
		lb, err := la.LeafToContent(lf)
		c.NoErr(err, "LeafToContent")
		rl, err := la.ContentToLeaf(lb)
		c.NoErr(err, "ContentToLeaf")
		c.Assert(reflect.DeepEqual(lf, rl), "leaf-roundtrip", "the decoded leaf differs")
		pb, err := la.ParentLeafToContent(t.Parent())
		c.NoErr(err, "ParentLeafToContent")
		rp, err := la.ContentToParentLeaf(pb)
		c.NoErr(err, "ContentToParentLeaf")
		c.Assert(reflect.DeepEqual(t.Parent(), rp), "parent-roundtrip", "the decoded parent leaf differs")
		cp, err := a.ToCompact(t)
		c.NoErr(err, "ToCompact")
		cb, err := ca.ToContent(cp)
		c.NoErr(err, "compact ToContent")
		rc, err := ca.ToCompact(cb)
		c.NoErr(err, "compact ToCompact")
		c.Assert(reflect.DeepEqual(cp.Head(), rc.Head()) && reflect.DeepEqual(cp.Leaves().Leaves(), rc.Leaves().Leaves()), "compact-roundtrip", "the decoded compact differs")
		var ls []hashtrees.Leaf
		for i := c.Int(1, 6); i > 0; i-- {
			ls = append(ls, rndLeaf(c, c.Int(0, 3)))
		}
		for _, l := range ls {
			c.Logf("leaf %x", encLeaf(l))
		}
		lvs, err := hashtrees.NewLeavesBuilder().Create().WithList(ls).Now()
		c.NoErr(err, "leaves builder")
		lsb, err := lsa.ToContent(lvs)
		c.NoErr(err, "leaves ToContent")
		rls, err := lsa.ToLeaves(lsb)
		c.NoErr(err, "ToLeaves")
		c.Assert(reflect.DeepEqual(lvs.Leaves(), rls.Leaves()), "leaves-roundtrip", "the decoded leaves differ")
	}}
	props["C05"] = vh.Prop{Rule: "blocks with repeats, permuted, sometimes with a foreign or missing block; non-trivial: a repeat or a permutation", Run: func(c *vh.Ctx) {
		b := rndBlocks(c, 0, c.Pick(3, 6, 12, 33, 33, 140))
		logBlocks(c, "blocks", b)
		t := buildTree(c, b)
		mixed := append([][]byte{}, b...)
		c.R.Shuffle(len(mixed), func(i, j int) { mixed[i], mixed[j] = mixed[j], mixed[i] })
		if len(b) > 1 {
			c.NonTrivial()
		}
		a := hashtrees.NewAdapter()
		out, err := a.ToOrder(t, mixed)
		c.NoErr(err, "ToOrder")
		c.Assert(len(out) == len(b), "order-length", "%d blocks, expected %d", len(out), len(b))
		for i := range out {
			c.Assert(bytes.Equal(dig(out[i]), dig(b[i])), "order", "block %d is %x, expected %x", i, out[i], b[i])
		}
		// data that the tree does not commit to
		bad := append([][]byte{}, mixed...)
		x := append([]byte("foreign"), c.Bytes(20)...)
		if len(bad) > 0 && c.Bool() {
			bad[c.R.Intn(len(bad))] = x
		} else {
			bad = append(bad, x)
		}
		c.Logf("with foreign block %x (of %d)", x, len(bad))
		out, err = a.ToOrder(t, bad)
		c.Assert(err != nil, "foreign", "data with a foreign block is accepted: %x", out)
		if len(b) > 0 {
			sub := mixed[:c.R.Intn(len(mixed))]
			c.Logf("subset of %d", len(sub))
			out, err = a.ToOrder(t, sub)
			c.NoErr(err, "ToOrder(subset)")
			c.Assert(len(out) == len(sub), "subset-length", "%d blocks, expected %d", len(out), len(sub))
			// the output is a permutation of the subset, in leaf order
			j := 0
			hs := padTo(b)
			for _, o := range out {
				for j < len(hs) && !bytes.Equal(hs[j], dig(o)) {
					j++
				}
				c.Assert(j < len(hs), "subset-order", "the output is not in leaf order")
				j++
			}
		}
	}}
}
