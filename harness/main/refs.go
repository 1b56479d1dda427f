package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

func rndUint(c *vh.Ctx) uint {
	switch c.R.Intn(6) {
	case 0:
		return uint(c.R.Intn(3))
	case 1:
		return uint(1)<<uint(c.R.Intn(64)) - uint(c.R.Intn(2))
	case 2:
		return ^uint(0) - uint(c.R.Intn(2))
	case 3:
		return uint(c.R.Uint64())
	}
	return uint(c.R.Intn(300))
}

func rndContent(c *vh.Ctx) contents.Content {
	n := c.Int(1, 5)
	switch c.R.Intn(6) {
	case 0:
		n = c.Int(1, 2000)
	case 1:
		n = c.Int(240, 270)
	case 2:
		if c.One(20) {
			n = c.Int(65000, 70000)
		}
	}
	h, k, d := c.Bytes(64), rndUint(c), c.Bytes(n)
	c.Logf("content hash=%x kind=%d data=%x", h, k, d)
	ins, err := contents.NewContentBuilder().Create().WithHash(h).WithKind(k).WithData(d).Now()
	c.NoErr(err, "content builder")
	c.Assert(bytes.Equal(ins.Hash(), h) && ins.Kind() == k && bytes.Equal(ins.Data(), d), "content-built", "the built content differs")
	return ins
}

func encContent(x contents.Content) []byte {
	return cat(x.Hash(), le64(uint64(x.Kind())), x.Data())
}

func eqContent(a, b contents.Content) bool {
	return a != nil && b != nil && bytes.Equal(a.Hash(), b.Hash()) && a.Kind() == b.Kind() && bytes.Equal(a.Data(), b.Data())
}

func rndPointer(c *vh.Ctx) references.Pointer {
	f, l := rndUint(c), rndUint(c)
	if l == 0 {
		l = 1
	}
	c.Logf("pointer from=%d length=%d", f, l)
	p, err := references.NewPointerBuilder().Create().From(f).WithLength(l).Now()
	c.NoErr(err, "pointer builder")
	c.Assert(p.From() == f && p.Length() == l, "pointer-built", "the built pointer differs")
	return p
}

func rndKeyWith(c *vh.Ctx, h []byte, kind uint, p references.Pointer) references.ContentKey {
	cm := c.Bytes(64)
	c.Logf("key hash=%x kind=%d commit=%x", h, kind, cm)
	k, err := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(kind).WithContent(p).WithCommit(cm).Now()
	c.NoErr(err, "content key builder")
	c.Assert(bytes.Equal(k.Hash(), h) && k.Kind() == kind && bytes.Equal(k.Commit(), cm) && k.Content() == p, "key-built", "the built content key differs")
	return k
}

func encPointer(p references.Pointer) []byte { return cat(le64(uint64(p.From())), le64(uint64(p.Length()))) }
func encKey(k references.ContentKey) []byte {
	return cat(k.Hash(), le64(uint64(k.Kind())), encPointer(k.Content()), k.Commit())
}
func eqKey(a, b references.ContentKey) bool { return a != nil && b != nil && bytes.Equal(encKey(a), encKey(b)) }

type commitIn struct {
	t      time.Time
	v      hashtrees.HashTree
	parent []byte
	proof  *big.Int
	mv     byte
}

func refHash(x commitIn) []byte {
	b := cat(x.v.Head(), []byte(fmt.Sprintf("%d", x.t.UnixNano())))
	if x.parent != nil {
		b = cat(b, x.parent)
	}
	if x.proof != nil {
		b = cat(b, x.proof.Bytes())
	}
	return dig(b)
}

func rndCommit(c *vh.Ctx, mv byte) (references.Commit, commitIn) {
	x := commitIn{mv: mv}
	var ns int64
	switch c.R.Intn(4) {
	case 0:
		ns = c.R.Int63()
	case 1:
		ns = -c.R.Int63()
	case 2:
		ns = int64(c.R.Intn(5) - 2)
	case 3:
		ns = 1600000000000000000 + c.R.Int63n(1e18)
	}
	x.t = time.Unix(0, ns).UTC()
	if c.One(3) {
		x.t = x.t.In(time.FixedZone("z", c.Int(-40000, 40000)))
	}
	if c.One(4) {
		x.v = rndTree(c)
	} else {
		x.v = buildTree(c, rndBlocks(c, 0, 6))
	}
	b := references.NewCommitBuilder(mv).Create().WithValues(x.v).CreatedOn(x.t)
	if c.Bool() {
		x.parent = c.Bytes(64)
		b = b.WithParent(x.parent)
	}
	if c.Bool() {
		switch c.R.Intn(4) {
		case 0:
			x.proof = big.NewInt(int64(c.R.Intn(3)))
		case 1:
			x.proof = new(big.Int).SetBytes(c.Bytes(c.Int(0, 300)))
		default:
			x.proof = big.NewInt(c.R.Int63())
		}
		if c.One(2) {
			// search a proof with a positive score
			for i := 0; i < 600; i++ {
				p := new(big.Int).Add(x.proof, big.NewInt(int64(i)))
				y := x
				y.proof = p
				if dig(cat(refHash(y), p.Bytes()))[0] == mv {
					x.proof = p
					break
				}
			}
		}
		b = b.WithProof(new(big.Int).Set(x.proof))
	}
	c.Logf("commit time=%d tree=%x parent=%x proof=%v mining=%d", ns, cat(x.v.Head(), encParent(x.v.Parent())), x.parent, x.proof, mv)
	ins, err := b.Now()
	c.NoErr(err, "commit builder")
	checkCommit(c, ins, x)
	return ins, x
}

func checkCommit(c *vh.Ctx, m references.Commit, x commitIn) {
	c.Assert(m != nil, "commit-nil", "nil commit")
	c.Assert(m.CreatedOn().Equal(x.t), "commit-time", "the commit time is %v, expected %v", m.CreatedOn(), x.t)
	c.Assert(reflect.DeepEqual(m.Values(), x.v), "commit-values", "the values differ")
	c.Assert(m.HasParent() == (x.parent != nil), "commit-parent", "has parent: %v", m.HasParent())
	if x.parent != nil {
		c.Assert(bytes.Equal(*m.Parent(), x.parent), "commit-parent", "the parent differs")
	}
	h := refHash(x)
	c.Assert(bytes.Equal(m.Hash(), h), "commit-hash", "the commit hash is %x, expected %x", []byte(m.Hash()), h)
	c.Assert(m.HasMine() == (x.proof != nil), "commit-mine", "has mine: %v", m.HasMine())
	if x.proof != nil {
		r := dig(cat(h, x.proof.Bytes()))
		n := 0
		for n < len(r) && r[n] == x.mv {
			n++
		}
		mi := m.Mine()
		c.Assert(mi.Proof().Cmp(x.proof) == 0, "commit-proof", "the proof is %v, expected %v", mi.Proof(), x.proof)
		c.Assert(bytes.Equal(mi.Result(), r), "commit-result", "the result is %x, expected %x", []byte(mi.Result()), r)
		c.Assert(int(mi.Score()) == n, "commit-score", "the score is %d, expected %d", mi.Score(), n)
	}
}

func encCommit(x commitIn) []byte {
	t := cat(x.v.Head(), encParent(x.v.Parent()))
	b := cat(le64(uint64(x.t.UnixNano())), le64(uint64(len(t))), t)
	if x.proof != nil {
		b = cat(b, []byte{0}, le64(uint64(len(x.proof.Bytes()))), x.proof.Bytes())
	}
	if x.parent != nil {
		b = cat(b, []byte{1}, x.parent)
	}
	return b
}

func mutate(c *vh.Ctx, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := c.Int(1, 3); n > 0; n-- {
		switch c.R.Intn(7) {
		case 0, 1:
			b = b[:c.R.Intn(len(b)+1)]
		case 2:
			b = append(b, c.Bytes(c.Int(1, 200))...)
		case 3, 4:
			if len(b) > 0 {
				b[c.R.Intn(len(b))] = byte(c.Pick(0, 1, 255, 128, c.R.Intn(256)))
			}
		case 5:
			// a length field
			if len(b) >= 8 {
				i := c.R.Intn(len(b) - 7)
				if c.Bool() {
					i = i / 8 * 8
				}
				copy(b[i:], le64(uint64(c.Pick(0, 1, 7, 8, 63, 64, 71, 72, len(b)-i-8, len(b)-i-7, len(b)-i, len(b), 1<<62, -1, -8, -9, -64, -1<<63))))
			}
		case 6:
			if len(b) > 0 {
				b[len(b)-1-c.R.Intn(len(b))%16] ^= byte(1 << uint(c.R.Intn(8)))
			}
		}
	}
	return b
}

func init() {
	props["C06"] = vh.Prop{Rule: "lists of 1..6 (sometimes 40) contents with data of 1..70000 bytes and any kind; non-trivial: all", Run: func(c *vh.Ctx) {
		var l []contents.Content
		for i := c.Int(1, c.Pick(1, 2, 6, 6, 40)); i > 0; i-- {
			l = append(l, rndContent(c))
		}
		c.NonTrivial()
		ca := contents.NewContentAdapter()
		b, err := ca.ToContent(l[0])
		c.NoErr(err, "content ToContent")
		c.Assert(bytes.Equal(b, encContent(l[0])), "content-encoding", "the content encoding is %x", b)
		r, err := ca.ToInstance(b)
		c.NoErr(err, "content ToInstance")
		c.Assert(eqContent(r, l[0]), "content-roundtrip", "the decoded content differs")
		all, err := contents.NewBuilder().Create().WithList(l).Now()
		c.NoErr(err, "contents builder")
		a := contents.NewAdapter()
		b, err = a.ToContent(all)
		c.NoErr(err, "contents ToContent")
		var exp []byte
		for _, x := range l {
			exp = cat(exp, le64(uint64(len(encContent(x)))), encContent(x))
		}
		c.Assert(bytes.Equal(b, exp), "contents-encoding", "the contents encoding is %x, expected %x", b, exp)
		rs, err := a.ToInstance(b)
		c.NoErr(err, "contents ToInstance")
		c.Assert(len(rs.List()) == len(l), "contents-length", "%d contents, expected %d", len(rs.List()), len(l))
		for i, x := range rs.List() {
			c.Assert(eqContent(x, l[i]), "contents-roundtrip", "content %d differs", i)
		}
	}}
	props["C07"] = vh.Prop{Rule: "random pointers, keys, commits (with and without parent and proof) and references; non-trivial: all", Run: func(c *vh.Ctx) {
		c.NonTrivial()
		mv := byte(c.Pick(0, 48, 255, c.R.Intn(256)))
		p := rndPointer(c)
		pa := references.NewPointerAdapter()
		b, err := pa.ToContent(p)
		c.NoErr(err, "pointer ToContent")
		c.Assert(bytes.Equal(b, encPointer(p)), "pointer-encoding", "the pointer encoding is %x", b)
		rp, err := pa.ToPointer(b)
		c.NoErr(err, "ToPointer")
		c.Assert(rp.From() == p.From() && rp.Length() == p.Length(), "pointer-roundtrip", "the decoded pointer differs")
		var keys []references.ContentKey
		var kb []byte
		for i := c.Int(1, c.Pick(1, 3, 3, 30)); i > 0; i-- {
			k := rndKeyWith(c, c.Bytes(64), rndUint(c), rndPointer(c))
			keys = append(keys, k)
			kb = cat(kb, encKey(k))
		}
		kb = cat(le64(uint64(len(keys))), kb)
		ka := references.NewContentKeyAdapter()
		b, err = ka.ToContent(keys[0])
		c.NoErr(err, "key ToContent")
		c.Assert(bytes.Equal(b, encKey(keys[0])), "key-encoding", "the key encoding is %x", b)
		rk, err := ka.ToContentKey(b)
		c.NoErr(err, "ToContentKey")
		c.Assert(eqKey(rk, keys[0]), "key-roundtrip", "the decoded key differs")
		ks, err := references.NewContentKeysBuilder().Create().WithList(keys).Now()
		c.NoErr(err, "content keys builder")
		ksa := references.NewContentKeysAdapter()
		b, err = ksa.ToContent(ks)
		c.NoErr(err, "keys ToContent")
		c.Assert(bytes.Equal(b, kb), "keys-encoding", "the keys encoding is %x", b)
		eqKeys := func(rks references.ContentKeys) {
			c.Assert(rks != nil && len(rks.List()) == len(keys), "keys-length", "the number of decoded keys differs")
			for i, k := range rks.List() {
				c.Assert(eqKey(k, keys[i]), "keys-roundtrip", "decoded key %d differs", i)
			}
		}
		rks, err := ksa.ToContentKeys(b)
		c.NoErr(err, "ToContentKeys")
		eqKeys(rks)
		var cms []references.Commit
		var ins []commitIn
		var cb []byte
		for i := c.Int(1, c.Pick(1, 2, 3, 8)); i > 0; i-- {
			m, x := rndCommit(c, mv)
			cms, ins = append(cms, m), append(ins, x)
			e := encCommit(x)
			cb = cat(cb, le64(uint64(len(e))), e)
		}
		cma := references.NewCommitAdapter(mv)
		b, err = cma.ToContent(cms[0])
		c.NoErr(err, "commit ToContent")
		c.Assert(bytes.Equal(b, encCommit(ins[0])), "commit-encoding", "the commit encoding is %x", b)
		rm, err := cma.ToCommit(b)
		c.NoErr(err, "ToCommit")
		checkCommit(c, rm, ins[0])
		cs, err := references.NewCommitsBuilder().Create().WithList(cms).Now()
		c.NoErr(err, "commits builder")
		csa := references.NewCommitsAdapter(mv)
		b, err = csa.ToContent(cs)
		c.NoErr(err, "commits ToContent")
		c.Assert(bytes.Equal(b, cb), "commits-encoding", "the commits encoding is %x", b)
		eqCms := func(rcs references.Commits) {
			c.Assert(rcs != nil && len(rcs.List()) == len(cms), "commits-length", "the number of decoded commits differs")
			for i, m := range rcs.List() {
				checkCommit(c, m, ins[i])
			}
		}
		rcs, err := csa.ToCommits(b)
		c.NoErr(err, "ToCommits")
		eqCms(rcs)
		ref, err := references.NewBuilder().Create().WithContentKeys(ks).WithCommits(cs).Now()
		c.NoErr(err, "reference builder")
		ra := references.NewAdapter(mv)
		b, err = ra.ToContent(ref)
		c.NoErr(err, "reference ToContent")
		c.Assert(bytes.Equal(b, cat(le64(uint64(len(kb))), kb, le64(uint64(len(cb))), cb)), "reference-encoding", "the reference encoding is %x", b)
		rr, err := ra.ToReference(b)
		c.NoErr(err, "ToReference")
		eqKeys(rr.ContentKeys())
		eqCms(rr.Commits())
	}}
	props["C08"] = vh.Prop{Rule: "random bytes and mutated or truncated valid encodings given to every decoder; non-trivial: some decoder accepts or more than 8 bytes", Run: func(c *vh.Ctx) {
		mv := byte(c.R.Intn(256))
		kind := c.R.Intn(9)
		var b []byte
		switch {
		case c.One(6):
			b = c.Bytes(c.Int(0, 400))
		case kind == 0:
			t := rndTree(c)
			b = cat(t.Head(), encParent(t.Parent()))
		case kind == 1:
			t := rndTree(c)
			cp, err := hashtrees.NewAdapter().ToCompact(t)
			c.NoErr(err, "ToCompact")
			b, err = hashtrees.NewCompactAdapter().ToContent(cp)
			c.NoErr(err, "compact ToContent")
		case kind == 2:
			for i := c.Int(1, 3); i > 0; i-- {
				e := encContent(rndContent(c))
				b = cat(b, le64(uint64(len(e))), e)
			}
		case kind == 3:
			b = encPointer(rndPointer(c))
		case kind == 4:
			b = encKey(rndKeyWith(c, c.Bytes(64), rndUint(c), rndPointer(c)))
			b = cat(le64(1), b)
		case kind == 5:
			_, x := rndCommit(c, mv)
			b = encCommit(x)
		case kind == 6:
			for i := c.Int(1, 3); i > 0; i-- {
				_, x := rndCommit(c, mv)
				e := encCommit(x)
				b = cat(b, le64(uint64(len(e))), e)
			}
		default:
			k := cat(le64(1), encKey(rndKeyWith(c, c.Bytes(64), rndUint(c), rndPointer(c))))
			_, x := rndCommit(c, mv)
			e := encCommit(x)
			e = cat(le64(uint64(len(e))), e)
			b = cat(le64(uint64(len(k))), k, le64(uint64(len(e))), e)
		}
		b = mutate(c, b)
		c.Logf("bytes %x mining %d", b, mv)
		if len(b) > 8 {
			c.NonTrivial()
		}
		keep := append([]byte{}, b...)
		chk := func(what string, isNil bool, err error) {
			c.Assert((err == nil) == !isNil, "nil:"+what, "%s returns value nil=%v with error %v", what, isNil, err)
			c.Assert(bytes.Equal(b, keep), "modified:"+what, "%s modifies its input", what)
		}
		v1, err := hashtrees.NewAdapter().ToHashTree(b)
		chk("ToHashTree", v1 == nil, err)
		v2, err := hashtrees.NewLeafAdapter().ContentToLeaf(b)
		chk("ContentToLeaf", v2 == nil, err)
		v3, err := hashtrees.NewLeafAdapter().ContentToParentLeaf(b)
		chk("ContentToParentLeaf", v3 == nil, err)
		v4, err := hashtrees.NewLeavesAdapter().ToLeaves(b)
		chk("ToLeaves", v4 == nil, err)
		v5, err := hashtrees.NewCompactAdapter().ToCompact(b)
		chk("ToCompact", v5 == nil, err)
		v6, err := contents.NewContentAdapter().ToInstance(b)
		chk("content.ToInstance", v6 == nil, err)
		v7, err := contents.NewAdapter().ToInstance(b)
		chk("contents.ToInstance", v7 == nil, err)
		v8, err := references.NewPointerAdapter().ToPointer(b)
		chk("ToPointer", v8 == nil, err)
		v9, err := references.NewContentKeyAdapter().ToContentKey(b)
		chk("ToContentKey", v9 == nil, err)
		v10, err := references.NewContentKeysAdapter().ToContentKeys(b)
		chk("ToContentKeys", v10 == nil, err)
		v11, err := references.NewCommitAdapter(mv).ToCommit(b)
		chk("ToCommit", v11 == nil, err)
		v12, err := references.NewCommitsAdapter(mv).ToCommits(b)
		chk("ToCommits", v12 == nil, err)
		v13, err := references.NewAdapter(mv).ToReference(b)
		chk("ToReference", v13 == nil, err)
		v14, err := hash.NewAdapter().FromString(string(b))
		chk("FromString", v14 == nil, err)
		v15, err := hash.NewAdapter().FromString(hex.EncodeToString(b))
		chk("FromString(hex)", v15 == nil, err)
	}}
	props["C09"] = vh.Prop{Rule: "random commits with and without parent and proof, some searched for a positive score; non-trivial: all", Run: func(c *vh.Ctx) {
		c.NonTrivial()
		mv := byte(c.Pick(0, 48, 255, c.R.Intn(256)))
		m, x := rndCommit(c, mv)
		checkCommit(c, m, x)
		b := references.NewCommitBuilder(mv).Create()
		hv, ht := c.Bool(), c.Bool()
		if hv {
			b = b.WithValues(x.v)
		}
		if ht {
			b = b.CreatedOn(x.t)
		}
		if c.Bool() {
			b = b.WithParent(c.Bytes(64))
		}
		if c.Bool() {
			b = b.WithProof(big.NewInt(int64(c.R.Intn(5))))
		}
		c.Logf("without values=%v time=%v", !hv, !ht)
		r, err := b.Now()
		c.Assert((err == nil) == (hv && ht) && (r != nil) == (err == nil), "commit-mandatory", "values given: %v, time given: %v, error: %v", hv, ht, err)
	}}
	props["C10"] = vh.Prop{Rule: "lists of 1..12 keys with repeated hashes and kinds; non-trivial: at least two keys", Run: func(c *vh.Ctx) {
		var l []references.ContentKey
		var hs [][]byte
		end := int64(0)
		for i := c.Int(1, c.Pick(1, 3, 12, 40)); i > 0; i-- {
			h := c.Bytes(64)
			if len(hs) > 0 && c.One(3) {
				h = append([]byte{}, hs[c.R.Intn(len(hs))]...)
				if c.One(3) {
					h[c.Pick(0, 63, c.R.Intn(64))] ^= 1
				}
			}
			hs = append(hs, h)
			f, n := uint(c.R.Int63n(1<<uint(c.Int(1, 62)))), uint(1+c.R.Int63n(1<<uint(c.Int(1, 61))))
			p, err := references.NewPointerBuilder().Create().From(f).WithLength(n).Now()
			c.NoErr(err, "pointer builder")
			c.Logf("pointer %d+%d", f, n)
			if int64(f+n) > end {
				end = int64(f + n)
			}
			l = append(l, rndKeyWith(c, h, uint(c.Pick(0, 1, 2, 300)), p))
		}
		if len(l) > 1 {
			c.NonTrivial()
		}
		ks, err := references.NewContentKeysBuilder().Create().WithList(l).Now()
		c.NoErr(err, "content keys builder")
		c.Assert(len(ks.List()) == len(l), "keys-list", "%d keys, expected %d", len(ks.List()), len(l))
		for i, k := range ks.List() {
			c.Assert(eqKey(k, l[i]), "keys-list", "key %d differs", i)
		}
		c.Assert(ks.Next() == end, "keys-next", "the next position is %d, expected %d", ks.Next(), end)
		for _, kd := range []uint{0, 1, 2, 3, 300} {
			var exp []references.ContentKey
			for _, k := range l {
				if k.Kind() == kd {
					exp = append(exp, k)
				}
			}
			got := ks.ListByKind(kd)
			c.Assert(len(got) == len(exp), "keys-kind", "%d keys of kind %d, expected %d", len(got), kd, len(exp))
			for i := range got {
				c.Assert(eqKey(got[i], exp[i]), "keys-kind", "key %d of kind %d differs", i, kd)
			}
		}
		look := append([][]byte{c.Bytes(64), c.Bytes(3), {}}, hs...)
		for _, h := range append([][]byte{}, hs...) {
			o := append([]byte{}, h...)
			o[c.Pick(0, 63, c.R.Intn(64))] ^= byte(1 << uint(c.R.Intn(8)))
			look = append(look, o)
		}
		for _, h := range look {
			var exp references.ContentKey
			for _, k := range l {
				if bytes.Equal(k.Hash(), h) {
					exp = k
				}
			}
			got, err := ks.Fetch(h)
			c.Logf("fetch %x", h)
			c.Assert((err == nil) == (exp != nil), "keys-fetch", "fetch error %v, expected found=%v", err, exp != nil)
			if exp != nil {
				c.Assert(eqKey(got, exp), "keys-fetch", "the fetched key differs")
			}
		}
		_, err = references.NewContentKeysBuilder().Create().WithList([]references.ContentKey{}).Now()
		c.Assert(err != nil, "keys-empty", "an empty list of keys is accepted")
		_, err = references.NewContentKeysBuilder().Create().Now()
		c.Assert(err != nil, "keys-empty", "a missing list of keys is accepted")
	}}
	props["C11"] = vh.Prop{Rule: "lists of 1..8 commits; non-trivial: at least two commits", Run: func(c *vh.Ctx) {
		var l []references.Commit
		mv := byte(c.R.Intn(256))
		for i := c.Int(1, c.Pick(2, 4, 8)); i > 0; i-- {
			if len(l) > 0 && c.One(5) {
				l = append(l, l[c.R.Intn(len(l))])
				c.Logf("repeated commit")
				continue
			}
			m, _ := rndCommit(c, mv)
			l = append(l, m)
		}
		if len(l) > 1 {
			c.NonTrivial()
		}
		cs, err := references.NewCommitsBuilder().Create().WithList(l).Now()
		c.NoErr(err, "commits builder")
		c.Assert(len(cs.List()) == len(l), "commits-list", "%d commits, expected %d", len(cs.List()), len(l))
		for i, m := range cs.List() {
			c.Assert(m == l[i], "commits-list", "commit %d differs", i)
		}
		c.Assert(cs.Latest() == l[len(l)-1], "commits-latest", "the latest commit is not the last one")
		for _, m := range l {
			g, err := cs.Fetch(m.Hash())
			c.NoErr(err, "commits fetch")
			c.Assert(bytes.Equal(g.Hash(), m.Hash()) && g.CreatedOn().Equal(m.CreatedOn()), "commits-fetch", "the fetched commit differs")
			o := append(hash.Hash{}, m.Hash()...)
			o[c.Pick(0, 63, c.R.Intn(64))] ^= byte(1 << uint(c.R.Intn(8)))
			_, err = cs.Fetch(o)
			c.Assert(err != nil, "commits-fetch", "a commit with another hash is found")
		}
		_, err = references.NewCommitsBuilder().Create().WithList(nil).Now()
		c.Assert(err != nil, "commits-empty", "an empty list of commits is accepted")
	}}
}
