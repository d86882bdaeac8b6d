package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

// A history is a finite list of steps with everything they touch.
type step struct {
	blk   dbx.Block
	prune int64 // prune below this height instead of running a block
}

func (s step) String() string {
	if s.prune > 0 {
		return fmt.Sprintf("prune below %d", s.prune)
	}
	t := s.blk.String()
	if len(t) > 300 {
		t = t[:300] + "..."
	}
	return t
}

type history struct {
	name  string
	hist  bool // database with history enabled
	steps []step
	uni   []string // keys to look at
	base  int64    // heights start above it
}

// up shifts all heights.
func (h history) up(base int64) history {
	h.base += base
	h.name += fmt.Sprintf("-from%d", base)
	st := append([]step{}, h.steps...)
	for i := range st {
		if st[i].prune > 0 {
			st[i].prune += base
		} else {
			st[i].blk.H += base
		}
	}
	h.steps = st
	return h
}

// wideHist: heights, gaps between heights and value lengths of every size.
func wideHist(hist bool) history {
	h := history{name: "wide", hist: hist}
	var keys []string
	for _, ks := range keySets {
		keys = append(keys, ks.keys[:2]...)
	}
	lens := []int{0, 1, 2, 7, 8, 9, 31, 32, 33, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 2047, 4095, 4096, 4097, 8192, 12000}
	n := 0
	for e := 3; e < 63; e++ {
		for _, ht := range []int64{1<<e - 1, 1 << e, 1<<e + 1} {
			b := dbx.Block{H: ht}
			for i, k := range keys {
				switch (n*5 + i*3) % 7 {
				case 0, 1, 3:
					v := []byte(fmt.Sprintf("%d/%d:", n, i))
					l := lens[(n+7*i)%len(lens)]
					for len(v) < l {
						v = append(v, byte(len(v)*37+n))
					}
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: string(v[:l])})
				case 5:
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
				}
			}
			h.steps = append(h.steps, step{blk: b})
			n++
		}
	}
	h.uni = keys
	return h
}

// bitHist: two keys and all those that differ from them in one bit, in every
// mixture of new, present and absent neighbours.
func bitHist(hist bool) history {
	h := history{name: "bits", hist: hist}
	n := 0
	for _, base := range []string{kk(0x41, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55), kk(0xa2, 0x80, 0, 0xff, 0, 0xff, 0x7f, 0xa0)} {
		keys := []string{base}
		for i := 0; i < 64; i++ {
			b := []byte(base)
			b[i/8] ^= 1 << uint(i%8)
			keys = append(keys, string(b))
		}
		put := func(del bool, sel func(i int) bool) dbx.Block {
			n++
			b := dbx.Block{H: int64(n)}
			for i, k := range keys {
				if !sel(i) {
					continue
				}
				if del {
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
				} else {
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: fmt.Sprintf("%d-%d", n, i)})
				}
			}
			return b
		}
		mix := func(b, o dbx.Block) dbx.Block {
			b.H = o.H
			b.Ops = append(b.Ops, o.Ops...)
			return b
		}
		all := func(i int) bool { return true }
		bs := func(i int) bool { return i == 0 }
		fl := func(i int) bool { return i > 0 }
		od := func(i int) bool { return i%2 == 1 }
		ev := func(i int) bool { return i%2 == 0 }
		steps := []dbx.Block{put(false, all), put(false, all), put(true, bs), put(false, bs), put(true, fl), put(false, fl), put(true, all),
			put(false, od), put(false, ev), mix(put(true, od), put(false, ev)), mix(put(true, ev), put(false, od)), put(true, all), put(false, bs)}
		for j := 0; j < 8; j++ {
			in := func(i int) bool { return i > 0 && (i-1)/8 == j }
			with := func(i int) bool { return i == 0 || in(i) }
			steps = append(steps, put(false, with), mix(put(true, in), put(j%2 == 0, bs)))
		}
		steps = append(steps, put(false, all))
		for _, b := range steps {
			h.steps = append(h.steps, step{blk: b})
		}
		h.uni = append(h.uni, keys...)
	}
	return h
}

// markHist: values that hold the record marker at every offset, moved by compaction.
func markHist() history {
	h := history{name: "markers"}
	f := fill{name: "markers", perSh: 700, shards: []int{4}, every: 1, keep: 300}
	const mark = "\xff\xfe\xfd\xfc\xfc\xfd\xfe\xff"
	for n := 1; n <= 40; n++ {
		b := f.block(int64(n), n)
		if g := (n - 1) / 10; n%10 == 1 {
			var ops []dbx.Op
			for i := 0; i < 300; i++ {
				v := strings.Repeat("x", g*300+i) + mark
				if i%3 == 1 {
					v += strings.Repeat("y", i%11) + mark + "z"
				}
				ops = append(ops, dbx.Op{Kind: dbx.Set, Key: f.key(4, i), Val: v})
			}
			if n == 1 {
				b.Ops = b.Ops[300:]
			}
			b.Ops = append(ops, b.Ops...)
		}
		h.steps = append(h.steps, step{blk: b})
	}
	h.uni = universe(h.steps)
	return h
}

// heights worth a lookup up to step n.
func (h history) heights(n int) []int64 {
	set := map[int64]bool{0: true, math.MaxInt32: true, math.MaxInt64 - 1: true, math.MaxInt64: true}
	for i := 0; i <= n && i < len(h.steps); i++ {
		if x := h.steps[i].blk.H; x > 0 {
			set[x-1], set[x], set[x+1] = true, true, true
			set[x+2] = true
		}
	}
	var hs []int64
	for x := range set {
		hs = append(hs, x)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	return hs
}

func (h history) trace(n int) string {
	lo := n - 4
	if lo < 0 {
		lo = 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "history %s (history queries enabled: %v), steps %d..%d:\n", h.name, h.hist, lo, n)
	for i := lo; i <= n && i < len(h.steps); i++ {
		fmt.Fprintf(&sb, "%d: %s\n", i, h.steps[i])
	}
	return sb.String()
}

func (s step) do(db *dbx.DB, m *dbx.Model) {
	if s.prune > 0 {
		db.A.PruneBeforeHeight(s.prune)
		return
	}
	db.Run(s.blk)
	if m != nil {
		m.Apply(s.blk)
	}
}

func universe(steps []step) []string {
	set := map[string]bool{}
	for _, s := range steps {
		for _, o := range s.blk.Ops {
			set[o.Key] = true
		}
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// transHist visits every transition (live subset of 3 keys, per key choice
// untouched/set/deleted) of a key set.
func transHist(ks keySet, hist bool) history {
	keys := ks.keys[:3]
	m := dbx.NewModel()
	h := history{name: "trans-" + ks.name, hist: hist}
	nb := pow(3, 3)
	todo := make([][]int, 8)
	for s := range todo {
		for c := 0; c < nb; c++ {
			todo[s] = append(todo[s], c)
		}
	}
	n := 0
	ht := int64(0)
	for {
		s := maskOf(m, keys)
		var b dbx.Block
		ht += int64(1 + n%2)
		if len(todo[s]) > 0 {
			code := todo[s][0]
			todo[s] = todo[s][1:]
			b = dbx.Block{H: ht}
			for i, k := range keys {
				switch code % 3 {
				case 1:
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: val(n*3 + i)})
				case 2:
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
				}
				code /= 3
			}
		} else {
			t := -1
			for i := range todo {
				if len(todo[i]) > 0 {
					t = i
					break
				}
			}
			if t < 0 {
				break
			}
			b = moveTo(ht, m, keys, t, n)
		}
		m.Apply(b)
		h.steps = append(h.steps, step{blk: b})
		n++
	}
	h.uni = append([]string{}, ks.keys...)
	return h
}

// fillHist: n blocks of a fill; churn mixes in deletions and re-creations;
// every prEvery blocks it prunes everything but the last keep heights.
func fillHist(f fill, n int, hist, churn bool, prEvery, keep int) history {
	h := history{name: fmt.Sprintf("fill-%s-%d", f.name, n), hist: hist}
	if churn {
		h.name += "-churn"
	}
	if prEvery > 0 {
		h.name += fmt.Sprintf("-prune%d", prEvery)
	}
	for i := 1; i <= n; i++ {
		b := f.block(int64(i), i)
		if churn && i > 2 {
			for _, s := range f.shards {
				for j := 0; j < f.perSh; j++ {
					if (j*7+i)%9 == 0 {
						b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: f.key(s, j)})
					}
				}
			}
		}
		h.steps = append(h.steps, step{blk: b})
		if prEvery > 0 && i%prEvery == 0 && i > keep {
			h.steps = append(h.steps, step{prune: int64(i - keep)})
		}
	}
	h.uni = universe(h.steps)
	return h
}

func histories(th bool) []history {
	n := 36
	if th {
		n = 90
	}
	var hs []history
	for i, ks := range keySets {
		hs = append(hs, transHist(ks, i%2 == 1))
	}
	hs = append(hs,
		fillHist(fillHot, n, false, false, 0, 0),
		fillHist(fillHot, n, true, true, 0, 0).up(256-int64(n)/2),
		fillHist(fillTwo, n, true, false, 0, 0).up(1<<16-int64(n)/2),
		fillHist(fillTwo, n, false, true, 0, 0),
		fillHist(fillAll, n, false, true, 0, 0).up(1<<31-int64(n)/2),
		fillHist(fillSlow, n, true, true, 0, 0),
		fillHist(fillHot, n, false, true, 5, 4).up(1<<32-int64(n)/2),
		fillHist(fillTwo, n, true, true, 7, 3).up(1<<31-int64(n)/2),
		wideHist(false),
		wideHist(true),
		bitHist(true),
		markHist(),
	)
	hs[len(hs)-3].name += "-hist"
	return hs
}

func (h history) proofKeys() []string {
	if len(h.uni) <= 60 {
		return h.uni
	}
	var ks []string
	for i := 0; i < len(h.uni); i += len(h.uni) / 60 {
		ks = append(ks, h.uni[i])
	}
	return ks
}

func liveOf(m *dbx.Model, ks []string) []string {
	r := []string{dbx.StartKey, dbx.EndKey}
	for _, k := range ks {
		if _, ok := m.M[k]; ok {
			r = append(r, k)
		}
	}
	return r
}

// ---- C07 ----

func init() {
	hx.Register(&hx.Check{
		ID: "C07", Level: "model_checking",
		Rule:        "for every step of every history (all 216 transitions of 3 keys x 5 key placements, with and without history queries; fills that roll over twigs and segment files with compaction, deletions and prunes; block ends at every offset around a segment border and around a twig border, with 0..3 deletions; heights that cross 2^8, 2^16, 2^31, 2^32; a wide history with heights around every power of two up to 2^62 and value lengths 0..12000; keys that differ in one bit): the database is restarted after it (closed / not closed / twice) and compared with one that was not, in full (root, height, scan, every field of every entry, proofs), and both continue in lockstep; a case is one restart",
		Assumptions: dbAssumptions,
		Items:       c07Items,
		Finish:      validated,
	})
}

func c07Items(th bool) []hx.Item {
	var its []hx.Item
	for _, h := range histories(th) {
		for mode := 0; mode < 3; mode++ {
			h, mode := h, mode
			its = append(its, hx.Item{Name: fmt.Sprintf("%s-every-%d", h.name, mode), Run: func(c *hx.Ctx) { restartEvery(c, h, mode) }})
		}
		cont := 3
		if th {
			cont = 8
		}
		for part := 0; part < 4; part++ {
			h, part := h, part
			its = append(its, hx.Item{Name: fmt.Sprintf("%s-once-%d", h.name, part), Run: func(c *hx.Ctx) { restartOnce(c, h, part, 4, cont) }})
		}
	}
	span := 96
	if th {
		span = 700
	}
	for lo := -span; lo < span; lo += 24 {
		lo := lo
		its = append(its, hx.Item{Name: fmt.Sprintf("segment-border%+d", lo), Run: func(c *hx.Ctx) { segBorder(c, lo, lo+24) }})
	}
	for _, tw := range []int64{1, 4} {
		for d := 0; d <= 3; d++ {
			tw, d := tw, d
			its = append(its, hx.Item{Name: fmt.Sprintf("twig-border-%d-%d", tw, d), Run: func(c *hx.Ctx) { twigBorder(c, tw, d) }})
		}
	}
	return its
}

func restartEvery(c *hx.Ctx, h history, mode int) {
	a, b := dbx.Fresh(h.hist), dbx.Fresh(h.hist)
	defer func() { a.Done(); b.Done() }()
	m := dbx.NewModel()
	pk := h.proofKeys()
	for i, s := range h.steps {
		if c.TimeUp() {
			return
		}
		s.do(a, m)
		s.do(b, nil)
		c.Add("transitions", 2)
		cmp := func(when string) {
			if x := dbx.FirstDiff(a.State(h.uni), b.State(h.uni)); x != "" {
				c.Fail(h.trace(i), "%s: never restarted vs restarted after every step (mode %d): %s", when, mode, x)
			}
		}
		cmp("before the restart")
		switch mode {
		case 0:
			b.Reopen()
		case 1:
			b.ReopenNoClose()
		case 2:
			b.Reopen()
			b.Reopen()
			b.ReopenNoClose()
		}
		c.Add("reopens", 1)
		cmp("after the restart")
		if s.prune == 0 || mode == 0 {
			lk := liveOf(m, pk)
			if x := dbx.FirstDiff(a.Proofs(lk), b.Proofs(lk)); x != "" {
				c.Fail(h.trace(i), "proofs, never restarted vs restarted after every step (mode %d): %s", mode, x)
			}
		}
		c.Eval(b.Root(), mode)
		if i == 5 {
			c.Sample(h.trace(i))
		}
	}
	c.Add("states", int64(len(h.steps)))
}

func restartOnce(c *hx.Ctx, h history, part, parts, cont int) {
	a := dbx.Fresh(h.hist)
	defer a.Done()
	m := dbx.NewModel()
	pk := h.proofKeys()
	type run struct {
		at int
		db *dbx.DB
	}
	var open []run
	defer func() {
		for _, r := range open {
			r.db.Done()
		}
	}()
	for i, s := range h.steps {
		if c.TimeUp() {
			return
		}
		s.do(a, m)
		c.Add("transitions", 1)
		st := ""
		if len(open) > 0 {
			st = a.State(h.uni)
		}
		keep := open[:0]
		for _, r := range open {
			s.do(r.db, nil)
			c.Add("transitions", 1)
			if x := dbx.FirstDiff(st, r.db.State(h.uni)); x != "" {
				c.Fail(h.trace(i), "restarted once after step %d, then continued to step %d: %s", r.at, i, x)
			}
			if i-r.at >= cont {
				r.db.Done()
			} else {
				keep = append(keep, r)
			}
		}
		open = keep
		if i%parts == part {
			f := a.Fork()
			open = append(open, run{i, f})
			c.Add("reopens", 1)
			if x := dbx.FirstDiff(a.State(h.uni), f.State(h.uni)); x != "" {
				c.Fail(h.trace(i), "right after a restart after step %d: %s", i, x)
			}
			lk := liveOf(m, pk)
			if x := dbx.FirstDiff(a.Proofs(lk), f.Proofs(lk)); x != "" {
				c.Fail(h.trace(i), "proofs right after a restart after step %d: %s", i, x)
			}
			c.Eval(f.Root(), i)
		}
	}
	c.Add("states", int64(len(h.steps)))
}

func borderKey(i int) string { return kk(0x60, byte(i), 1, 1, 1, 1, 1, 0x61) }

const segSize = 65536

// entrySize is the logical size of shard 3's entry file.
func entrySize(c *hx.Ctx, db *dbx.DB) int {
	a := dbx.NewAudit()
	if err := a.Feed(db.W); err != nil {
		c.Fail("", "%v", err)
	}
	return int(a.Shards[3].Size())
}

// borderBlocks makes a base machine and three blocks, the first of which ends
// the entry file of shard 3 d bytes after the end of a segment.
func borderBlocks(c *hx.Ctx, d int) (*vw.World, []dbx.Block, []string) {
	k := borderKey
	// first bring the entry file of shard 3 into the neighbourhood of the border
	base := dbx.Image("segborder", func() *vw.World {
		db := dbx.Fresh(false)
		b := dbx.Block{H: 1}
		for i := 0; i < 5; i++ {
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k(i), Val: strings.Repeat("v", 100)})
		}
		db.Run(b)
		h := int64(2)
		for {
			sz := entrySize(c, db) % segSize
			left := segSize - sz
			if left < 5000 {
				break
			}
			l := left - 3000
			if l > 12000 {
				l = 12000
			}
			db.Run(dbx.Block{H: h, Ops: []dbx.Op{{Kind: dbx.Set, Key: k(int(h) % 5), Val: strings.Repeat("w", l)}}})
			h++
		}
		w := db.W.Clone()
		db.Done()
		return w
	})
	a := dbx.Open(base.Clone(), false)
	sz := entrySize(c, a) % segSize
	// a probing block on a clone tells the overhead of the block
	a.Run(dbx.Block{H: 1000, Ops: []dbx.Op{{Kind: dbx.Set, Key: k(1), Val: ""}}})
	over := entrySize(c, a)%segSize - sz
	a.Done()
	l := segSize - sz - over + d
	blocks := []dbx.Block{
		{H: 1000, Ops: []dbx.Op{{Kind: dbx.Set, Key: k(1), Val: strings.Repeat("x", l)}}},
		{H: 1001, Ops: []dbx.Op{{Kind: dbx.Set, Key: k(2), Val: "after"}}},
		{H: 1002, Ops: []dbx.Op{{Kind: dbx.Set, Key: k(1), Val: "again"}, {Kind: dbx.Del, Key: k(3)}, {Kind: dbx.Set, Key: k(6), Val: strings.Repeat("z", 500)}}},
	}
	uni := []string{}
	for i := 0; i < 7; i++ {
		uni = append(uni, k(i))
	}
	return base, blocks, uni
}

// segBorder ends blocks at every offset relative to the end of the first
// segment file, restarts and goes on.
func segBorder(c *hx.Ctx, lo, hi int) {
	k := borderKey
	for d := lo; d < hi; d++ {
		if c.TimeUp() {
			return
		}
		base, blocks, uni := borderBlocks(c, d)
		a := dbx.Open(base.Clone(), false)
		b := dbx.Open(base.Clone(), false)
		for i, bl := range blocks {
			a.Run(bl)
			b.Run(bl)
			if i%2 == 0 {
				b.Reopen()
			} else {
				b.ReopenNoClose()
			}
			c.Add("transitions", 2)
			c.Add("reopens", 1)
			tr := fmt.Sprintf("entry file of one shard ends %+d bytes from the end of its first segment; block %d after that, restarted after every block", d, i)
			if x := dbx.FirstDiff(a.State(uni), b.State(uni)); x != "" {
				c.Fail(tr, "%s", x)
			}
			lk := []string{k(0), k(1), k(2), k(4)}
			if x := dbx.FirstDiff(a.Proofs(lk), b.Proofs(lk)); x != "" {
				c.Fail(tr, "proofs: %s", x)
			}
			c.Eval(entrySize(c, b)%segSize, i)
		}
		c.Add("states", 3)
		a.Done()
		b.Done()
	}
}
