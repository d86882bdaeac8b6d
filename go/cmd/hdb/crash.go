package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C08", Level: "fault_enumeration",
		Rule:        "for every selected block (key transitions; twig roll-over, segment roll-over at many offsets, several segments in one block, ends around a twig border, compaction, deletions, after prunes, after restarts) every crash point of its file and key-value events from BeginWrite to the return of EndWrite: per-file prefixes of the unsynced events differing in at most one (thorough two) files from all-kept and from none-kept (quick: thinned to about 40 per block where there are more), the next write torn after 1 byte / half / all but one byte, with a normal and with slowed disks; every image is opened and must equal the state before or the state after the block in full (after, if the commit had returned), is crashed again at the events of the recovery (quick: about 8 of them, for the undeviated images), continues (re-applying the block if it was lost) to the same roots as the run without crash and is reopened; a case is one image",
		Assumptions: append([]string{"the first creation of a database directory is not interrupted by a crash"}, dbAssumptions...),
		Items:       c08Items,
	})
}

// slowFor makes the writes and syncs of the files selected slow, so that work
// which is not waited for ends up after the commit.
func slowFor(w *vw.World, sel string, d time.Duration) *int64 {
	var n int64
	w.Hook = func(kind vw.EvKind, path string) {
		if kind == vw.EvWrite || kind == vw.EvSync {
			if sel == "*" || strings.Contains(path, sel) {
				atomic.AddInt64(&n, 1)
				time.Sleep(d)
			}
		}
	}
	return &n
}

// signature tells what kinds of events a block caused on which files.
func signature(log []vw.Event) string {
	per := map[string]string{}
	for _, e := range log {
		n := e.Path
		if i := strings.LastIndex(n, "/"); i >= 0 && e.Kind != vw.EvKV {
			n = n[:i] // the directory: which segment does not matter
		}
		per[n] += fmt.Sprintf("%d", e.Kind)
	}
	return fmt.Sprint(per)
}

func writtenDirs(log []vw.Event) []string {
	set := map[string]bool{}
	var r []string
	for _, e := range log {
		if e.Kind == vw.EvWrite {
			d := e.Path[:strings.LastIndex(e.Path, "/")+1]
			if !set[d] {
				set[d] = true
				r = append(r, d)
			}
		}
	}
	sort.Strings(r)
	return r
}

type crashCfg struct {
	h      history
	stride int // steps with a known signature are taken every stride
	dev    int
	slow   int // 0: slow everything only; 1: also each written directory alone
	cont   int // blocks run after the recovery
}

func c08Items(th bool) []hx.Item {
	var its []hx.Item
	n, stride, dev, slow, parts := 44, 9, 1, 0, 5
	if th {
		n, stride, dev, slow, parts = 120, 1, 2, 1, 16
	}
	for _, tw := range []int64{1, 4} {
		for n := 0; n <= 12; n++ {
			tw, n := tw, n
			if !th && (n < 6 || n > 10) {
				continue
			}
			its = append(its, hx.Item{Name: fmt.Sprintf("twig-border-%d-%d", tw, n), Run: func(c *hx.Ctx) { c08Twig(c, tw, n, th) }})
		}
	}
	for segs := 1; segs <= 4; segs++ {
		segs := segs
		its = append(its, hx.Item{Name: fmt.Sprintf("big-block-%d", segs), Run: func(c *hx.Ctx) { c08Big(c, segs, th) }})
	}
	add := func(h history, stride, slow int) {
		for part := 0; part < parts; part++ {
			cf := crashCfg{h: h, stride: stride, dev: dev, slow: slow, cont: 2}
			part := part
			its = append(its, hx.Item{Name: fmt.Sprintf("%s-%d", h.name, part), Run: func(c *hx.Ctx) { c08Run(c, cf, part, parts) }})
		}
	}
	if !th {
		parts = 8
	}
	add(fillHist(fillAll, n, false, true, 0, 0), stride, slow)
	if !th {
		parts = 5
	}
	add(fillHist(fillHot, n, false, false, 0, 0), stride, 1)
	add(fillHist(fillTwo, n, true, true, 0, 0), stride, slow)
	add(fillHist(fillSlow, n, true, true, 0, 0), stride, slow)
	add(fillHist(fillHot, n+20, false, true, 5, 4), stride, slow)
	add(fillHist(fillTwo, n+20, true, true, 7, 3), stride, slow)
	for i, ks := range keySets {
		h := transHist(ks, i%2 == 0)
		if th {
			add(h, 5, 1)
		} else {
			add(h, 53+i, 0)
		}
	}
	span, step := 24, 12
	if th {
		span, step = 300, 12
	}
	for lo := -span; lo < span; lo += step {
		lo := lo
		its = append(its, hx.Item{Name: fmt.Sprintf("segment-border%+d", lo), Run: func(c *hx.Ctx) { c08Border(c, lo, lo+step, th) }})
	}
	return its
}

func c08Run(c *hx.Ctx, cf crashCfg, part, parts int) {
	h := cf.h
	a := dbx.Fresh(h.hist)
	defer a.Done()
	m := dbx.NewModel()
	var roots []string
	ref := dbx.Fresh(h.hist)
	for _, s := range h.steps {
		s.do(ref, nil)
		roots = append(roots, ref.Root())
	}
	ref.Done()
	sigs := map[string]bool{}
	pk := h.proofKeys()
	if len(pk) > 12 {
		pk = pk[:12]
	}
	taken := 0
	for i, s := range h.steps {
		if c.TimeUp() {
			return
		}
		if s.prune > 0 {
			s.do(a, m)
			continue
		}
		pre := a.W.Clone()
		a.W.StartLog()
		a.Prepare(s.blk.Ops)
		a.Write(s.blk)
		log := a.W.StopLog()
		m.Apply(s.blk)
		sig := signature(log)
		take := !sigs[sig] || i%cf.stride == cf.stride-1
		sigs[sig] = true
		if take {
			taken++
		}
		if !take || taken%parts != part {
			pre.Drop()
			continue
		}
		g := dbx.Open(pre.Clone(), h.hist)
		before := g.State(h.uni)
		g.Done()
		after := a.State(h.uni)
		lkAfter := liveOf(m, pk)
		j := &crashed{c: c, h: h, i: i, before: before, after: after, lk: lkAfter, proofs: a.Proofs(lkAfter), roots: roots, cont: cf.cont, seen: map[string]bool{}}
		j.explore(pre, log, cf.dev, normalDisk)
		dirs := []string{"*"}
		if cf.slow == 1 {
			dirs = append(dirs, writtenDirs(log)...)
		}
		for _, d := range dirs {
			w := pre.Clone()
			f := dbx.Open(w, h.hist)
			f.Prepare(s.blk.Ops)
			slowFor(w, d, 2*time.Millisecond)
			w.StartLog()
			f.Write(s.blk)
			// what still happens after the return is not durable at the return
			n := w.LogLen()
			time.Sleep(25 * time.Millisecond)
			l := w.StopLog()
			w.Hook = nil
			f.Done()
			j.explore(pre, l[:n], cf.dev, "slow disk under "+d)
		}
		pre.Drop()
		c.Add("states", 1)
	}
}

const normalDisk = "normal disk"

// crashed checks the images of one block.
type crashed struct {
	c             *hx.Ctx
	h             history
	i             int
	before, after string
	lk            []string
	proofs        string
	roots         []string
	cont          int
	seen          map[string]bool
	rec           int
}

func (j *crashed) explore(pre *vw.World, log []vw.Event, dev int, disk string) {
	plan := dbx.NewCrashPlan(pre, log)
	ims := plan.Images(dev, 2*dev-1)
	thin := 1
	if dev == 1 && len(ims) > 40 {
		thin = len(ims)/40 + 1
	}
	for n, im := range ims {
		if im.Dev > 0 && n%thin != 0 {
			continue
		}
		w := plan.Build(im)
		key := fmt.Sprintf("%s %v", w.Digest(), im.Final)
		if j.seen[key] {
			w.Drop()
			continue
		}
		j.seen[key] = true
		tr := fmt.Sprintf("%sblock at step %d, %s; %s", j.h.trace(j.i), j.i, disk, plan.Describe(im))
		deep := 0
		switch {
		case dev > 1:
			deep = 1
		case disk == normalDisk && im.Dev == 0 && (im.Torn < 0 || j.i%3 == im.Torn%3):
			deep = 2
		}
		j.image(w, im.Final, tr, deep)
		j.c.Add("crash_points", 1)
		j.c.Eval(j.h.name, j.i, disk, plan.Describe(im))
		if j.i == 5 {
			j.c.Sample(tr)
		}
	}
}

// image opens w and checks it; deep: crash the recovery as well (1: with
// deviations, 2: without).
func (j *crashed) image(w *vw.World, final bool, tr string, deep int) {
	c := j.c
	c.Trace(tr)
	start := w.Clone()
	w.StartLog()
	g, e := tryOpen(w, j.h.hist)
	log := w.StopLog()
	if e != "" {
		c.Fail(tr, "the database cannot be opened: %s", e)
	}
	c.Add("reopens", 1)
	st := g.State(j.h.uni)
	isAfter := st == j.after
	if !isAfter && st != j.before {
		c.Fail(tr, "neither the state before the block (%s) nor the state after it (%s)", dbx.FirstDiff(j.before, st), dbx.FirstDiff(j.after, st))
	}
	if final && !isAfter {
		c.Fail(tr, "EndWrite had returned, but the block is lost after reopening")
	}
	if deep > 0 {
		plan := dbx.NewCrashPlan(start, log)
		ims := plan.Images(2-deep, 1)
		thin := 1
		if deep == 2 && len(ims) > 8 {
			thin = len(ims)/8 + 1
		}
		for n, im := range ims {
			if n%thin != 0 {
				continue
			}
			if im.Final && im.At == len(log) && im.Torn < 0 && len(log) == 0 {
				continue
			}
			w2 := plan.Build(im)
			key := "rec" + w2.Digest()
			if j.seen[key] {
				w2.Drop()
				continue
			}
			j.seen[key] = true
			tr2 := tr + "\nand in the recovery: " + plan.Describe(im)
			c.Trace(tr2)
			r, e := tryOpen(w2, j.h.hist)
			if e != "" {
				c.Fail(tr2, "the database cannot be opened: %s", e)
			}
			s2 := r.State(j.h.uni)
			if s2 != st {
				c.Fail(tr2, "the second recovery differs from the first: %s", dbx.FirstDiff(st, s2))
			}
			if r.Root() != "" {
				j.goOn(r, isAfter, tr2, 1)
			}
			r.Done()
			c.Add("recovery_crash_points", 1)
			c.Add("reopens", 1)
		}
		c.Trace(tr)
	}
	start.Drop()
	j.goOn(g, isAfter, tr, j.cont)
	g.ReopenNoClose()
	if k := j.i + j.cont; k < len(j.roots) && g.Root() != j.roots[k] {
		c.Fail(tr, "root after step %d and another restart differs from the run without crash", k)
	}
	g.Done()
}

// goOn re-applies the block if it was lost and runs the next n steps.
func (j *crashed) goOn(g *dbx.DB, isAfter bool, tr string, n int) {
	c := j.c
	if !isAfter {
		j.h.steps[j.i].do(g, nil)
		if x := dbx.FirstDiff(j.after, g.State(j.h.uni)); x != "" {
			c.Fail(tr, "state after re-applying the block: %s", x)
		}
	}
	if x := dbx.FirstDiff(j.proofs, g.Proofs(j.lk)); x != "" {
		c.Fail(tr, "proofs after the recovery: %s", x)
	}
	for k := j.i + 1; k <= j.i+n && k < len(j.h.steps); k++ {
		j.h.steps[k].do(g, nil)
		c.Add("transitions", 1)
		if g.Root() != j.roots[k] {
			c.Fail(tr, "root after step %d differs from the run without crash", k)
		}
	}
}

// c08Border: blocks that end d bytes from the end of a segment file.
func c08Border(c *hx.Ctx, lo, hi int, th bool) {
	for d := lo; d < hi; d++ {
		if !th && d%3 != 0 {
			continue
		}
		if c.TimeUp() {
			return
		}
		base, blocks, uni := borderBlocks(c, d)
		crashOn(c, fmt.Sprintf("segment-border%+d", d), base, false, blocks, 2, uni, []string{uni[0], uni[1], uni[2], uni[4]}, th)
	}
}

// crashOn explores the crashes of the first n blocks run on a machine image.
func crashOn(c *hx.Ctx, name string, base *vw.World, hist bool, blocks []dbx.Block, n int, uni, lk []string, th bool) {
	h := history{name: name, hist: hist, uni: uni}
	for _, b := range blocks {
		h.steps = append(h.steps, step{blk: b})
	}
	var roots []string
	ref := dbx.Open(base.Clone(), hist)
	for _, s := range h.steps {
		s.do(ref, nil)
		roots = append(roots, ref.Root())
	}
	ref.Done()
	a := dbx.Open(base.Clone(), hist)
	for i, s := range h.steps[:n] {
		pre := a.W.Clone()
		before := a.State(uni)
		a.Prepare(s.blk.Ops)
		a.W.StartLog()
		a.Write(s.blk)
		log := a.W.StopLog()
		j := &crashed{c: c, h: h, i: i, before: before, after: a.State(uni), lk: lk, proofs: a.Proofs(lk), roots: roots, cont: 1, seen: map[string]bool{}}
		dev := 1
		if th {
			dev = 2
		}
		j.explore(pre, log, dev, normalDisk)
		pre.Drop()
		c.Add("states", 1)
	}
	a.Done()
}

// c08Twig: blocks that end around a twig border.
func c08Twig(c *hx.Ctx, tw int64, n int, th bool) {
	for _, d := range []int{0, 2} {
		if c.TimeUp() {
			return
		}
		e := mkEdge(tw, 40, d == 2)
		h := e.r.m.H
		blocks := []dbx.Block{e.blk(h+1, n, d, "x"), e.blk(h+2, 9, 1, "y"), e.blk(h+3, 3, 0, "z")}
		crashOn(c, fmt.Sprintf("twig-border-%d-%d-%d", tw, n, d), e.r.w, d == 2, blocks, 2, e.keys, e.keys[:12], th)
	}
}

// c08Big: blocks that write several segments of one shard.
func c08Big(c *hx.Ctx, segs int, th bool) {
	db := dbx.Fresh(false)
	var keys []string
	for i := 0; i < 30; i++ {
		keys = append(keys, edgeKey(i))
	}
	mk := func(h int64, n int, size int) dbx.Block {
		b := dbx.Block{H: h}
		for i, k := range keys[:n] {
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: strings.Repeat(string(rune('a'+i)), size) + fmt.Sprint(h)})
		}
		return b
	}
	db.Run(mk(1, 30, 10))
	base := db.W.Clone()
	db.Done()
	blocks := []dbx.Block{mk(2, 6*segs, 12000), mk(3, 3, 20), mk(4, 6*segs+1, 9000), mk(5, 2, 5)}
	crashOn(c, fmt.Sprintf("big-block-%d", segs), base, false, blocks, 3, keys, keys[:5], th)
}
