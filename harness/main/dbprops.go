//go:build go1.18

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"syscall"

	"github.com/juju/fslock"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

// ---- what a database must hold ----

type dbRec struct {
	hash []byte
	kind uint
	data []byte
}

type dbCommit struct {
	recs []dbRec
	hash []byte
}

type dbModel struct {
	name    string
	exists  bool
	commits []dbCommit
	pending []dbRec
	ctx     *uint
}

func (m *dbModel) recs() []dbRec {
	out := []dbRec{}
	for _, c := range m.commits {
		out = append(out, c.recs...)
	}
	return out
}

type dbRun struct {
	c     *vh.Ctx
	dir   string
	chunk uint
	app   applications.Application
	dbs   []*dbModel
	pool  [][]byte
}

const dbDst, dbBck = "destination", "backup"

func newDBRun(c *vh.Ctx, n int) *dbRun {
	r := &dbRun{c: c, dir: filepath.Join(c.Tmp, fmt.Sprintf("db%d", c.N))}
	r.chunk = uint(c.Pick(1, 2, 3, 5, 7, 8, 16, 31, 64, 100, 1000, 100000))
	r.reset()
	names := []string{"n0", "n1", "n2", "n3"}
	if n > 1 && c.Bool() {
		// names that are easily confused
		names = []string{"n", "N", "n0", "x/n", "y/n", "n.n", " n", "nn", "n." + dbDst + "x"}
		c.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for _, d := range []string{"x", "y"} {
			os.MkdirAll(filepath.Join(r.dir, d), 0777)
		}
	}
	for i := 0; i < n; i++ {
		r.dbs = append(r.dbs, &dbModel{name: names[i]})
	}
	for i := c.Int(2, 6); i > 0; i-- {
		r.pool = append(r.pool, c.Bytes(64))
	}
	c.Logf("chunk size %d, %d databases", r.chunk, n)
	return r
}

func (r *dbRun) reset() { r.app = files.NewApplication(0, r.dir, dbDst, dbBck, r.chunk) }
func (r *dbRun) done() {
	for _, m := range r.dbs {
		if m.ctx != nil {
			r.app.Close(*m.ctx)
		}
	}
	os.RemoveAll(r.dir)
}
func (r *dbRun) path(m *dbModel) string { return filepath.Join(r.dir, m.name) }

func (r *dbRun) disk(m *dbModel) []byte {
	b, err := os.ReadFile(r.path(m))
	if err != nil {
		return nil
	}
	return b
}

func (r *dbRun) pick() *dbModel { return r.dbs[r.c.R.Intn(len(r.dbs))] }

func (r *dbRun) create(m *dbModel) {
	err := r.app.New(m.name)
	r.c.Logf("new %s: %v", m.name, err)
	r.c.Assert((err == nil) == !m.exists, "new", "New(%s): %v while it exists: %v", m.name, err, m.exists)
	m.exists = true
}

func (r *dbRun) open(m *dbModel) {
	id, err := r.app.Open(m.name)
	if err != nil {
		r.c.Logf("open %s: %v", m.name, err)
	} else {
		r.c.Logf("open %s: context %d", m.name, *id)
	}
	want := m.exists && m.ctx == nil
	r.c.Assert((err == nil) == want, "open", "Open(%s): %v; exists: %v, already open: %v", m.name, err, m.exists, m.ctx != nil)
	if err == nil {
		v := *id
		for _, o := range r.dbs {
			r.c.Assert(o.ctx == nil || *o.ctx != v, "context-id", "%s and %s share the context %d", m.name, o.name, v)
		}
		m.ctx = &v
		m.pending = nil
	}
}

func (r *dbRun) close(m *dbModel) {
	if m.ctx == nil {
		return
	}
	r.c.Logf("close %s", m.name)
	r.c.NoErr(r.app.Close(*m.ctx), "close")
	id := *m.ctx
	m.ctx, m.pending = nil, nil
	if r.c.One(4) {
		r.c.Assert(r.app.Close(id) != nil, "closed-context", "a closed context was closed again")
	}
}

func (r *dbRun) write(m *dbModel) {
	if m.ctx == nil {
		return
	}
	n := r.c.Pick(0, 1, 1, 2, 3, 5, 8, 16, 30, 64, 100, 300)
	x := dbRec{r.pool[r.c.R.Intn(len(r.pool))], uint(r.c.R.Intn(3)), r.c.Bytes(n)}
	if r.c.Bool() {
		x.hash = r.c.Bytes(64)
		r.pool = append(r.pool, x.hash)
	}
	err := r.app.Write(*m.ctx, x.hash, append([]byte{}, x.data...), x.kind)
	r.c.Logf("write %s hash=%x.. kind=%d %d bytes: %v", m.name, x.hash[:4], x.kind, n, err)
	r.c.Assert((err == nil) == (n > 0), "write", "Write of %d bytes: %v", n, err)
	if err == nil {
		m.pending = append(m.pending, x)
	}
}

func (r *dbRun) cancel(m *dbModel) {
	if m.ctx == nil {
		return
	}
	r.c.Logf("cancel %s", m.name)
	r.c.NoErr(r.app.Cancel(*m.ctx), "cancel")
	m.pending = nil
}

// committed updates the model after a successful commit
func (r *dbRun) committed(m *dbModel) {
	c := r.c
	cs, err := r.app.Commits(*m.ctx)
	c.NoErr(err, "commits")
	c.Assert(len(cs.List()) == len(m.commits)+1, "commits", "%d commits after the commit number %d", len(cs.List()), len(m.commits)+1)
	x := cs.Latest()
	if n := len(m.commits); n > 0 {
		c.Assert(x.HasParent() && bytes.Equal(*x.Parent(), m.commits[n-1].hash), "parent", "the parent of the commit is not the previous commit")
	} else {
		c.Assert(!x.HasParent(), "parent", "the first commit has a parent")
	}
	blocks := [][]byte{}
	for _, p := range m.pending {
		blocks = append(blocks, p.hash)
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	c.NoErr(err, "tree")
	c.Assert(bytes.Equal(x.Values().Head(), t.Head()), "values", "the values of the commit are not those of the written hashes")
	m.commits = append(m.commits, dbCommit{m.pending, append([]byte{}, x.Hash()...)})
	m.pending = nil
}

func (r *dbRun) commit(m *dbModel) {
	if m.ctx == nil {
		return
	}
	err := r.app.Commit(*m.ctx)
	r.c.Logf("commit %s (%d pending): %v", m.name, len(m.pending), err)
	if len(m.pending) == 0 && len(m.commits) == 0 {
		r.c.Assert(err != nil, "empty-commit", "a database without any content was committed")
		return
	}
	r.c.NoErr(err, "commit")
	r.committed(m)
	l, _ := os.ReadDir(r.dir)
	for _, e := range l {
		ok := e.IsDir()
		for _, o := range r.dbs {
			ok = ok || e.Name() == o.name
		}
		r.c.Assert(ok, "left-over", "the commit left the file %s behind", e.Name())
	}
}

// check compares everything the open context of a database returns with the model
func (r *dbRun) check(m *dbModel) {
	c := r.c
	ex, err := r.app.Exists(m.name)
	c.Assert(err == nil && ex == m.exists, "exists", "Exists(%s) = %v, %v", m.name, ex, err)
	if m.ctx == nil {
		return
	}
	id := *m.ctx
	recs := m.recs()
	last := map[string]dbRec{}
	for _, x := range recs {
		last[string(x.hash)] = x
	}
	for _, h := range r.pool {
		got, err := r.app.ReadByHash(id, h)
		want, ok := last[string(h)]
		c.Assert((err == nil) == ok, "read", "%s: ReadByHash(%x..): %v, committed: %v", m.name, h[:4], err, ok)
		if ok {
			c.Assert(bytes.Equal(got, want.data), "read-data", "%s: ReadByHash(%x..) = %x, committed %x", m.name, h[:4], got, want.data)
		}
	}
	cs, err := r.app.Commits(id)
	c.Assert((err == nil) == (len(m.commits) > 0), "commits", "%s: Commits: %v", m.name, err)
	if err == nil {
		c.Assert(len(cs.List()) == len(m.commits), "commits", "%s: %d commits instead of %d", m.name, len(cs.List()), len(m.commits))
		for i, x := range cs.List() {
			c.Assert(bytes.Equal(x.Hash(), m.commits[i].hash), "commit-hash", "%s: another commit at %d", m.name, i)
			y, err := r.app.CommitByHash(id, m.commits[i].hash)
			c.Assert(err == nil && y == x, "commit-by-hash", "%s: CommitByHash of commit %d: %v", m.name, i, err)
		}
	}
	at := uint(0)
	byKind := map[uint][]references.ContentKey{}
	hs, ds := []hash.Hash{}, [][]byte{}
	for k := uint(0); k < 4; k++ {
		keys, err := r.app.ContentKeysByKind(id, k)
		if err == nil {
			byKind[k] = keys.List()
		}
	}
	for i, cm := range m.commits {
		for _, x := range cm.recs {
			l := byKind[x.kind]
			c.Assert(len(l) > 0, "keys", "%s: a content key of kind %d is missing", m.name, x.kind)
			k := l[0]
			byKind[x.kind] = l[1:]
			c.Assert(bytes.Equal(k.Hash(), x.hash) && k.Kind() == x.kind && bytes.Equal(k.Commit(), m.commits[i].hash), "key", "%s: a content key of commit %d differs", m.name, i)
			c.Assert(k.Content().From() == at && int(k.Content().Length()) == len(x.data), "pointer", "%s: pointer %d+%d instead of %d+%d", m.name, k.Content().From(), k.Content().Length(), at, len(x.data))
			got, err := r.app.Read(id, k.Content())
			c.Assert(err == nil && bytes.Equal(got, x.data), "read-pointer", "%s: Read(%d+%d) = %x, %v; committed %x", m.name, at, len(x.data), got, err, x.data)
			at += uint(len(x.data))
			hs, ds = append(hs, x.hash), append(ds, last[string(x.hash)].data)
		}
	}
	for k, l := range byKind {
		c.Assert(len(l) == 0, "keys", "%s: %d additional content keys of kind %d", m.name, len(l), k)
	}
	if len(hs) > 0 {
		got, err := r.app.ReadAllByHashes(id, hs)
		c.Assert(err == nil && len(got) == len(ds), "read-all", "%s: ReadAllByHashes: %d of %d, %v", m.name, len(got), len(ds), err)
		for i := range got {
			c.Assert(bytes.Equal(got[i], ds[i]), "read-all", "%s: ReadAllByHashes: content %d differs", m.name, i)
		}
	}
}

// reopen reads everything through another application
func (r *dbRun) reopen(m *dbModel) {
	o := *r
	o.reset()
	o.dbs = nil
	n := *m
	n.ctx, n.pending = nil, nil
	r.c.Logf("open %s in another application", m.name)
	o.open(&n)
	o.check(&n)
	if n.ctx != nil {
		r.c.NoErr(o.app.Close(*n.ctx), "close")
	}
}

// fresh starts with an open database
func (r *dbRun) fresh() *dbModel {
	m := r.dbs[0]
	r.create(m)
	r.open(m)
	return m
}

func init() {
	signal.Ignore(syscall.SIGXFSZ)
	props["C12"] = vh.Prop{Rule: "random histories of one database (writes, commits, re-openings, read chunk sizes from one byte) against a model", Run: func(c *vh.Ctx) {
		r := newDBRun(c, 1)
		defer r.done()
		m := r.fresh()
		for i := c.Int(1, 5); i > 0; i-- {
			for j := c.Pick(0, 1, 1, 2, 3, 6); j > 0; j-- {
				r.write(m)
			}
			r.commit(m)
			r.check(m)
			if c.One(3) {
				r.close(m)
				r.open(m)
				r.check(m)
			}
			r.reopen(m)
		}
		if len(m.commits) > 1 {
			c.NonTrivial()
		}
	}}
	props["C13"] = vh.Prop{Rule: "random histories with pending writes, cancels and commits; reads and the file on disk are compared in between", Run: func(c *vh.Ctx) {
		r := newDBRun(c, 1)
		defer r.done()
		m := r.fresh()
		before := r.disk(m)
		for i := c.Int(2, 14); i > 0; i-- {
			commits := len(m.commits)
			switch c.R.Intn(8) {
			case 0, 1, 2, 3:
				r.write(m)
			case 4:
				r.cancel(m)
			case 5, 6:
				if c.Bool() {
					r.cancel(m)
				}
				r.commit(m)
			case 7:
				r.close(m)
				r.open(m)
			}
			r.check(m)
			if len(m.commits) > commits {
				c.NonTrivial()
				before = r.disk(m)
			}
			c.Assert(bytes.Equal(r.disk(m), before), "disk", "the file changed without a commit")
		}
		r.reopen(m)
	}}
	props["C14"] = vh.Prop{Rule: "random histories of several databases in one application; every database is checked after every step", Run: func(c *vh.Ctx) {
		r := newDBRun(c, c.Int(2, 4))
		defer r.done()
		commits := 0
		for i := c.Int(5, 25); i > 0; i-- {
			m := r.pick()
			k := c.R.Intn(12)
			if !m.exists {
				k = c.Pick(0, 0, 1, 9)
			} else if m.ctx == nil {
				k = c.Pick(1, 1, 1, 1, 0, 9)
			}
			switch k {
			case 0:
				r.create(m)
			case 1:
				r.open(m)
			case 2:
				r.close(m)
			case 3, 4, 5, 6:
				r.write(m)
			case 7, 8:
				r.commit(m)
				commits++
			case 9:
				if m.ctx != nil || !c.One(3) {
					break
				}
				err := r.app.Delete(m.name)
				c.Logf("delete %s: %v", m.name, err)
				c.Assert((err == nil) == m.exists, "delete", "Delete(%s): %v", m.name, err)
				*m = dbModel{name: m.name}
			case 10:
				r.cancel(m)
			case 11:
				id := uint(c.Int(0, 6))
				for _, o := range r.dbs {
					if o.ctx != nil && *o.ctx == id {
						id = uint(1000 + c.R.Intn(10))
					}
				}
				c.Logf("unknown context %d", id)
				h := r.pool[0]
				_, e1 := r.app.ReadByHash(id, h)
				_, e2 := r.app.Commits(id)
				_, e3 := r.app.ContentKeysByKind(id, 0)
				_, e4 := r.app.CommitByHash(id, h)
				p, _ := references.NewPointerBuilder().Create().From(0).WithLength(1).Now()
				_, e5 := r.app.Read(id, p)
				for j, e := range []error{e1, e2, e3, e4, e5, r.app.Write(id, h, []byte{1}, 0), r.app.Cancel(id), r.app.Commit(id), r.app.Close(id)} {
					c.Assert(e != nil, "unknown-context", "operation %d on the unknown context %d succeeded", j, id)
				}
			}
			for _, o := range r.dbs {
				r.check(o)
			}
		}
		if commits > 1 {
			c.NonTrivial()
		}
		for _, o := range r.dbs {
			r.reopen(o)
		}
	}}
	props["C15"] = vh.Prop{Rule: "commits that fail (file size limit, lock held, obstructed paths, read-only directory), corrupted files, arbitrary pointers", Run: dbFaults}
}

func dbFaults(c *vh.Ctx) {
	r := newDBRun(c, 1)
	defer r.done()
	m := r.fresh()
	for i := c.Int(0, 2); i > 0; i-- {
		for j := c.Int(1, 3); j > 0; j-- {
			r.write(m)
		}
		r.commit(m)
	}
	if c.One(3) {
		dbCorrupt(c, r, m)
		return
	}
	for j := c.Int(1, 4); j > 0; j-- {
		r.write(m)
	}
	if len(m.pending) == 0 {
		return
	}
	c.NonTrivial()
	before := r.disk(m)
	dst, bck := r.path(m)+"."+dbDst, r.path(m)+"."+dbBck
	undo := func() {}
	switch k := c.R.Intn(6); k {
	case 0:
		var old syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
			c.Skip()
		}
		n := c.R.Intn(len(before) + 800)
		if c.Bool() {
			n = len(before) + c.R.Intn(400)
		}
		c.Logf("files are limited to %d bytes", n)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max})
		undo = func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
	case 1:
		l := fslock.New(r.path(m))
		c.NoErr(l.TryLock(), "lock")
		c.Logf("the database is locked")
		undo = func() { l.Unlock() }
	case 2:
		os.MkdirAll(dst+"/x", 0777)
		c.Logf("a directory is in the way of the destination")
		undo = func() { os.RemoveAll(dst) }
	case 3:
		os.MkdirAll(bck+"/x", 0777)
		c.Logf("a directory is in the way of the backup")
		undo = func() { os.RemoveAll(bck) }
	case 4:
		os.Chmod(r.dir, 0555)
		c.Logf("the directory is read-only")
		undo = func() { os.Chmod(r.dir, 0777) }
	case 5:
		// the temporary files can be written but not renamed
		c.NoErr(os.WriteFile(dst, nil, 0666), "temporary")
		c.NoErr(os.WriteFile(bck, nil, 0666), "temporary")
		os.Chmod(r.dir, 0555)
		c.Logf("the directory is read-only, with left-over temporary files")
		undo = func() { os.Chmod(r.dir, 0777) }
	}
	err := func() error {
		defer undo()
		return r.app.Commit(*m.ctx)
	}()
	c.Logf("commit %s (%d pending): %v", m.name, len(m.pending), err)
	if err == nil {
		r.committed(m)
	} else {
		c.Assert(bytes.Equal(r.disk(m), before), "disk", "the commit failed (%v) and changed the file", err)
		r.check(m)
		r.reopen(m)
		err := r.app.Commit(*m.ctx)
		c.Logf("commit %s (%d pending): %v", m.name, len(m.pending), err)
		c.NoErr(err, "commit")
		r.committed(m)
	}
	r.check(m)
	r.reopen(m)
}

func dbCorrupt(c *vh.Ctx, r *dbRun, m *dbModel) {
	if m.ctx != nil && len(m.commits) > 0 && c.Bool() {
		f, l := rndUint(c), rndUint(c)
		if l == 0 {
			l = 1
		}
		p, err := references.NewPointerBuilder().Create().From(f).WithLength(l).Now()
		c.NoErr(err, "pointer")
		all := []byte{}
		for _, x := range m.recs() {
			all = append(all, x.data...)
		}
		got, err := r.app.Read(*m.ctx, p)
		c.Logf("read %d+%d of %d: %v", f, l, len(all), err)
		ok := f <= uint(len(all)) && l <= uint(len(all))-f
		c.Assert((err == nil) == ok, "pointer", "Read(%d+%d) of %d bytes: %v", f, l, len(all), err)
		if ok {
			c.NonTrivial()
			c.Assert(bytes.Equal(got, all[f:f+l]), "pointer", "Read(%d+%d) returned other bytes", f, l)
		}
		return
	}
	r.close(m)
	b := r.disk(m)
	if c.One(4) {
		b = append(le64(uint64(rndUint(c))), c.Bytes(c.Int(0, 40))...)
	}
	n := len(b)
	for i := c.Int(1, 3); i > 0 && len(b) > 0; i-- {
		switch c.R.Intn(4) {
		case 0:
			b = b[:c.R.Intn(len(b))]
		case 1:
			b[c.R.Intn(len(b))] = byte(c.Pick(0, 1, 255, c.R.Intn(256)))
		case 2:
			b = b[:c.R.Intn(len(b)+1)]
			if len(b) > 12 {
				b = b[:c.Int(0, 12)]
			}
		case 3:
			if len(b) >= 8 {
				copy(b, le64(uint64(rndUint(c))))
			}
		}
	}
	c.Logf("corrupted file, %d of %d bytes: %x", len(b), n, b)
	c.NoErr(os.WriteFile(r.path(m), b, 0666), "corrupt")
	c.NonTrivial()
	id, err := r.app.Open(m.name)
	c.Logf("open: %v", err)
	if len(b) == 0 {
		c.Assert(err == nil, "open-empty", "an empty file is not an empty database: %v", err)
	} else if len(b) < 8 {
		c.Assert(err != nil, "open-truncated", "a database of %d bytes was opened as an empty one", len(b))
	}
	if err != nil {
		return
	}
	cs, err := r.app.Commits(*id)
	c.Assert(len(b) == 0 || err == nil, "open-empty", "a database of %d bytes was opened as an empty one", len(b))
	if err == nil {
		hs := []string{}
		for k := uint(0); k < 4; k++ {
			if keys, err := r.app.ContentKeysByKind(*id, k); err == nil {
				for _, x := range keys.List() {
					r.app.Read(*id, x.Content())
					r.app.ReadByHash(*id, x.Hash())
				}
			}
		}
		for _, x := range cs.List() {
			hs = append(hs, x.Hash().String())
		}
		sort.Strings(hs)
	}
	r.app.Close(*id)
}
