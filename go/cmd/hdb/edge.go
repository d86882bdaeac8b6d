package main

import (
	"fmt"

	"verif.local/v/dbx"
	"verif.local/v/hx"
)

// Edge blocks: blocks that end around a twig boundary, and blocks with any
// number of deactivations.

const edgeGap = 8

type edgeBase struct {
	name string
	twig int64 // the log ends edgeGap records before the end of this twig
	keys []string
	cold int // the first keys are written by the first block only
	r    *filled
}

func edgeKey(i int) string {
	if i%2 == 0 { // neighbouring slots of two buckets
		return kk(0x44, 0, byte(i>>8), byte(i), 0, 0, byte(i), byte(3*32+i%32))
	}
	return kk(0x43, 0xff, byte(i>>8), byte(i), 0, 0, byte(i), byte(3*32+i%32))
}

var edgeCache = map[string]*edgeBase{}

// mkEdge fills shard 3 until its log ends edgeGap records before the end of the
// given twig.
func mkEdge(twig int64, nkeys int, hist bool) *edgeBase { return mkEdgeCold(twig, nkeys, 0, hist) }

func mkEdgeCold(twig int64, nkeys, cold int, hist bool) *edgeBase {
	name := fmt.Sprint("edge-", twig, "-", nkeys, "-", cold, "-", hist)
	if e := edgeCache[name]; e != nil {
		return e
	}
	e := &edgeBase{name: name, twig: twig, cold: cold}
	for i := 0; i < nkeys; i++ {
		if cold > 0 {
			e.keys = append(e.keys, kk(0x44, 0, byte(i>>8), byte(i), 0, 0, byte(i), byte(3*32+i%32)))
		} else {
			e.keys = append(e.keys, edgeKey(i))
		}
	}
	db := dbx.Fresh(hist)
	m := dbx.NewModel()
	au := dbx.NewAudit()
	sh := dbx.ShardOf(e.keys[0])
	r := &filled{}
	want := (twig+1)*2048 - edgeGap
	for h := int64(1); ; h++ {
		if err := au.Feed(db.W); err != nil {
			panic(err)
		}
		left := want - au.Shards[sh].NextSN()
		if left == 0 {
			break
		}
		if left < 0 { // compaction appended too: aim at the next twig
			want += 2048
			e.twig++
			left += 2048
		}
		from, to := 0, nkeys
		if h > 1 {
			from = cold
			if left < int64(nkeys-cold) {
				to = cold + int(left)
			}
		}
		b := dbx.Block{H: h}
		for _, k := range e.keys[from:to] {
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: fmt.Sprint("e", h)})
		}
		db.Run(b)
		m.Apply(b)
		r.hist = append(r.hist, b)
		if h > 20000 {
			panic("edge image cannot be built")
		}
	}
	r.w, r.m = db.W.Clone(), m
	db.Done()
	e.r = r
	edgeCache[name] = e
	return e
}

func (e *edgeBase) blk(h int64, sets, dels int, tag string) dbx.Block {
	b := dbx.Block{H: h}
	for i := 0; i < sets; i++ {
		b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: e.keys[e.cold+i], Val: fmt.Sprint(tag, i)})
	}
	for i := 0; i < dels; i++ {
		if e.cold > 0 { // one run at the end
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: e.keys[len(e.keys)-dels+i]})
			continue
		}
		b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: e.keys[len(e.keys)-2-2*i]})
	}
	return b
}

var edgeSecond = []int{0, 1, 7, 8, 9}

func edgeItems(th bool, mk func() *cmpr) []hx.Item {
	var its []hx.Item
	twigs := []int64{1, 4}
	if th {
		twigs = []int64{1, 2, 3, 4, 5, 6}
	}
	for _, tw := range twigs {
		for d := 0; d <= 3; d++ {
			tw, d := tw, d
			its = append(its, hx.Item{Name: fmt.Sprintf("edge-%d-%d", tw, d), Run: func(c *hx.Ctx) {
				e := mkEdge(tw, 40, d%2 == 1)
				base := mk()
				db, m := e.r.open(d%2 == 1)
				if s := base.diff(db, m, dbx.Block{}); s != "" {
					c.Fail("", "image %s: %s", e.name, s)
				}
				db.Done()
				for n := 0; n <= 12; n++ {
					for _, n2 := range edgeSecond {
						for re := 0; re < 2; re++ {
							if c.TimeUp() {
								return
							}
							e.run(c, base.clone(), d%2 == 1, n, d, n2, re == 1)
						}
					}
				}
			}})
		}
	}
	maxD, parts := 260, 4
	if th {
		maxD, parts = 520, 16
	}
	for p := 0; p < parts; p++ {
		p := p
		its = append(its, hx.Item{Name: fmt.Sprintf("deletions-%d", p), Run: func(c *hx.Ctx) {
			for d := 1 + p; d <= maxD; d += parts {
				if c.TimeUp() {
					return
				}
				bulkDel(c, mk(), maxD+2, d)
			}
		}})
	}
	its = append(its, compactDelItems(th, mk)...)
	for _, h := range histories(th)[len(keySets):] {
		h := h
		its = append(its, hx.Item{Name: "history-" + h.name, Run: func(c *hx.Ctx) {
			f := mk()
			db := dbx.Fresh(h.hist)
			defer db.Done()
			m := dbx.NewModel()
			if s := f.diff(db, m, dbx.Block{}); s != "" {
				c.Fail("", "%s", s)
			}
			for i, s := range h.steps {
				if c.TimeUp() {
					return
				}
				s.do(db, m)
				c.Add("transitions", 1)
				c.Eval(h.name, i)
				if x := f.diff(db, m, s.blk); x != "" {
					c.Fail(h.trace(i), "%s", x)
				}
			}
			c.Add("states", int64(len(h.steps)))
		}})
	}
	return its
}

func (e *edgeBase) run(c *hx.Ctx, f *cmpr, hist bool, n, d, n2 int, re bool) {
	db, m := e.r.open(hist)
	h := m.H
	b1, b2 := e.blk(h+1, n, d, "x"), e.blk(h+2, n2, 0, "y")
	tr := fmt.Sprintf("shard 3 filled to %d records before the end of twig %d (rewriting %d keys per block); then %s; restart between: %v; %s", edgeGap, e.twig, len(e.keys), b1, re, b2)
	db.Run(b1)
	m.Apply(b1)
	if s := f.diff(db, m, b1); s != "" {
		c.Fail(tr, "after the first block: %s", s)
	}
	if re {
		db.ReopenNoClose()
		if s := f.diff(db, m, b1); s != "" {
			c.Fail(tr, "after the restart: %s", s)
		}
		c.Add("reopens", 1)
	}
	db.Run(b2)
	m.Apply(b2)
	if s := f.diff(db, m, b2); s != "" {
		c.Fail(tr, "after the second block: %s", s)
	}
	db.Done()
	c.Add("transitions", 2)
	c.Add("states", 2)
	c.Eval("edge", e.name, n, d, n2, re)
}

// compactDelItems: blocks that cross a twig border and so compact, with every
// number of deletions pending when the compaction starts.
func compactDelItems(th bool, mk func() *cmpr) []hx.Item {
	var its []hx.Item
	twigs, maxD := []int64{4}, 72
	if th {
		twigs, maxD = []int64{3, 4, 5, 7}, 140
	}
	const parts = 4
	for _, tw := range twigs {
		for p := 0; p < parts; p++ {
			tw, p := tw, p
			its = append(its, hx.Item{Name: fmt.Sprintf("compact-del-%d-%d", tw, p), Run: func(c *hx.Ctx) {
				e := mkEdgeCold(tw, 240, 50, p%2 == 1)
				base := mk()
				db, m := e.r.open(p%2 == 1)
				if s := base.diff(db, m, dbx.Block{}); s != "" {
					c.Fail("", "image %s: %s", e.name, s)
				}
				au := dbx.NewAudit()
				if err := au.Feed(db.W); err != nil {
					c.Fail("", "%v", err)
				}
				was := au.Clone()
				b := e.blk(m.H+1, 9, 0, "x")
				db.Run(b)
				if err := au.Feed(db.W); err != nil {
					c.Fail("", "%v", err)
				}
				if len(movedKeys(was, au)) == 0 {
					c.Note("image " + e.name + ": no entry is moved by the crossing block")
				}
				db.Done()
				for d := p; d <= maxD; d += parts {
					if c.TimeUp() {
						return
					}
					e.run(c, base.clone(), p%2 == 1, 9, d, 7, d&4 != 0)
				}
			}})
		}
	}
	return its
}

// bulkDel deletes d of n keys of one shard in one block, then re-creates half.
func bulkDel(c *hx.Ctx, f *cmpr, n, d int) {
	name := fmt.Sprint("bulk", n)
	r := fillCache[name]
	var keys []string
	for i := 0; i < n; i++ {
		keys = append(keys, kk(0x44, 0, byte(i>>8), byte(i), 0, 0, byte(i), byte(3*32+i%32)))
	}
	if r == nil {
		db := dbx.Fresh(false)
		r = &filled{m: dbx.NewModel()}
		b := dbx.Block{H: 1}
		for _, k := range keys {
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: "1"})
		}
		db.Run(b)
		r.m.Apply(b)
		r.w = db.W.Clone()
		db.Done()
		fillCache[name] = r
	}
	db, m := r.open(false)
	b := dbx.Block{H: 2}
	for _, k := range keys[n-d:] {
		b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
	}
	tr := fmt.Sprintf("block 1 sets %d keys of shard 3; block 2 deletes %d of them; block 3 sets every second one again", n, d)
	db.Run(b)
	m.Apply(b)
	if s := f.diff(db, m, b); s != "" {
		c.Fail(tr, "after the deletions: %s", s)
	}
	db.ReopenNoClose()
	if s := f.diff(db, m, b); s != "" {
		c.Fail(tr, "after the deletions and a restart: %s", s)
	}
	b = dbx.Block{H: 3}
	for i := n - d; i < n; i += 2 {
		b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: keys[i], Val: "3"})
	}
	db.Run(b)
	m.Apply(b)
	if s := f.diff(db, m, b); s != "" {
		c.Fail(tr, "after setting keys again: %s", s)
	}
	db.Done()
	c.Add("transitions", 2)
	c.Add("reopens", 1)
	c.Add("states", 2)
	c.Eval("bulk", n, d)
}

// twigBorder: C07 at every block end around a twig border.
func twigBorder(c *hx.Ctx, tw int64, d int) {
	hist := d%2 == 1
	e := mkEdge(tw, 40, hist)
	for n := 0; n <= 12; n++ {
		if c.TimeUp() {
			return
		}
		a, m := e.r.open(hist)
		h := m.H
		b := e.blk(h+1, n, d, "x")
		a.Run(b)
		m.Apply(b)
		tr := fmt.Sprintf("shard 3 filled to %d records before the end of twig %d; then %s", edgeGap, e.twig, b)
		f := a.Fork()
		g := a.Fork()
		g.Reopen()
		c.Add("reopens", 3)
		cmp := func(when string) {
			st, pr := a.State(e.keys), a.Proofs(liveOf(m, e.keys))
			for _, x := range []*dbx.DB{f, g} {
				if s := dbx.FirstDiff(st, x.State(e.keys)); s != "" {
					c.Fail(tr, "not restarted vs restarted, %s: %s", when, s)
				}
				if s := dbx.FirstDiff(pr, x.Proofs(liveOf(m, e.keys))); s != "" {
					c.Fail(tr, "proofs, not restarted vs restarted, %s: %s", when, s)
				}
			}
		}
		cmp("after it")
		for k, n2 := range []int{1, 8, 2 * (n % 5), 39} {
			b = e.blk(h+2+int64(k), n2, k%2, fmt.Sprint("y", k))
			a.Run(b)
			f.Run(b)
			g.Run(b)
			m.Apply(b)
			tr += "; " + b.String()
			cmp("after the last block")
			g.ReopenNoClose()
			c.Add("reopens", 1)
			c.Add("transitions", 3)
		}
		cmp("restarted after each block")
		a.Done()
		f.Done()
		g.Done()
		c.Add("states", 5)
		c.Eval("twig-border", tw, d, n)
	}
}
