package main

import (
	"fmt"
	"strings"

	"github.com/smartbch/moeingads/datatree"
	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C10", Level: "model_checking",
		Rule:        "tree level: every (youngest twig <= 9 (thorough 14), oldest active twig, end of a first prune, end of a second prune or none) with three segment sizes; the pruned tree, and trees recovered from the files after each prune, grow on in lockstep and are compared block by block with the root recomputed from the unpruned record and with every reachable proof. Database level: for every block of filling histories and every prune height, prune / restart / continue / prune again on a fork, compared with the never-pruned run; and whole histories with regular prunes against the same history without; a case is one prune",
		Assumptions: dbAssumptions,
		Items:       c10Items,
		Finish:      validated,
	})
	hx.Register(&hx.Check{
		ID: "C11", Level: "fault_enumeration",
		Rule:        "for every block of filling histories and every prune height whose prune does something: all crash images of the prune (each subset of the file removals issued so far, key-value batches written so far are atomic and durable once synced) and of a restart, a further prune, or the next block after it; each image is opened, compared in full with the state before the prune, pruned again, continued for two blocks and restarted; a case is one image",
		Assumptions: append([]string{"a removed file may or may not still exist after a crash, independently per file, until a later synced operation"}, dbAssumptions...),
		Items:       c11Items,
	})
}

// ---- tree level ----

type ptree struct {
	r      *dbx.TreeRig
	edge   []byte
	pruned int64 // last pruned twig
	name   string
}

func (p *ptree) prune(start, end int64) {
	p.edge = p.r.T.PruneTwigs(start, end)
	p.pruned = end - 1
}

// recoverOn opens a copy of the machine as a restart would.
func (p *ptree) recoverOn(oldest int64, name string) (*ptree, [32]byte) {
	w := p.r.W.Clone()
	n := &dbx.TreeRig{W: w, Buf: p.r.Buf, Blk: p.r.Blk, Suffix: p.r.Suffix, SN: p.r.SN, H: p.r.H, Pos: map[int64]int64{}, A: p.r.A, Root: p.r.Root}
	for k, v := range p.r.Pos {
		n.Pos[k] = v
	}
	var root [32]byte
	n.T, root = datatree.RecoverTree(p.r.Buf, p.r.Blk, w.Root, p.r.Suffix, datatree.BytesToEdgeNodes(append([]byte{}, p.edge...)), p.pruned, oldest, p.r.SN>>11, p.r.Sizes())
	return &ptree{r: n, edge: p.edge, pruned: p.pruned, name: name}, root
}

// growTwig appends entries up to the next twig border plus extra, one block.
func growTwig(t *dbx.TreeRig, extra int) {
	for i := int(2048-t.SN%2048) + extra; i > 0; i-- {
		if t.SN%512 == 3 || t.SN%2048 == 2047 || t.SN%2048 == 0 {
			t.Append(fmt.Sprintf("k%d", t.SN), fmt.Sprintf("value-%d", t.SN))
		} else {
			t.Dummy()
		}
	}
	t.EndBlock()
}

func c10Items(th bool) []hx.Item {
	var its []hx.Item
	maxY := 9
	if th {
		maxY = 14
	}
	for y := maxY; y >= 4; y-- {
		for o := y; o >= 3; o-- {
			for _, blk := range []int{73728, 65536, 1 << 20} {
				y, o, blk := int64(y), int64(o), blk
				its = append(its, hx.Item{Name: fmt.Sprintf("tree-youngest%d-oldest%d-seg%d", y, o, blk), Run: func(c *hx.Ctx) { c10Tree(c, y, o, blk) }})
			}
		}
	}
	n := 60
	if th {
		n = 110
	}
	for _, f := range []fill{fillHot, fillTwo} {
		for _, churn := range []bool{false, true} {
			for part := 0; part < 8; part++ {
				h := fillHist(f, n, churn, churn, 0, 0)
				if churn {
					h = h.up(1<<32 - 40)
				} else {
					h = h.up(1<<16 - 40)
				}
				part := part
				its = append(its, hx.Item{Name: fmt.Sprintf("db-%s-%d", h.name, part), Run: func(c *hx.Ctx) { c10DB(c, h, part, 8) }})
			}
		}
	}
	for _, f := range []fill{fillHot, fillTwo, fillAll, fillSlow} {
		for _, every := range []int{1, 4} {
			for _, keep := range []int{1, 5} {
				for mode := 0; mode < 2; mode++ {
					h := fillHist(f, n+10, false, true, every, keep).up(int64(every) << 31)
					h.name += fmt.Sprintf("-keep%d", keep)
					mode := mode
					its = append(its, hx.Item{Name: fmt.Sprintf("lockstep-%s-%d", h.name, mode), Run: func(c *hx.Ctx) { c10Lock(c, h, mode) }})
				}
			}
		}
	}
	return its
}

func c10Tree(c *hx.Ctx, y, o int64, blk int) {
	for e1 := int64(2); e1 < o; e1++ {
		for e2 := int64(0); e2 < o; e2++ {
			if e2 != 0 && e2 < e1+2 {
				continue
			}
			if c.TimeUp() {
				return
			}
			c10Case(c, y, o, e1, e2, blk)
		}
	}
}

func c10Case(c *hx.Ctx, y, o, e1, e2 int64, blk int) {
	name := fmt.Sprintf("youngest twig %d, oldest active %d, prune [0,%d)", y, o, e1)
	if e2 > 0 {
		name += fmt.Sprintf(" then [%d,%d)", e1, e2)
	}
	name += fmt.Sprintf(", segment %d", blk)
	t := &ptree{r: dbx.NewTreeRig(4096, blk, ""), pruned: -1, name: "the pruned tree"}
	for t.r.SN>>11 < y {
		growTwig(t.r, 2)
	}
	oldest := int64(0)
	for oldest < o-1 || (oldest < o && o < t.r.SN>>11) {
		t.r.Compact(oldest)
		oldest++
	}
	t.r.EndBlock()
	if err := t.r.A.Feed(t.r.W); err != nil {
		c.Fail(name, "%v", err)
	}
	rigs := []*ptree{t}
	defer func() {
		for _, p := range rigs {
			p.r.Done()
		}
	}()
	check := func(when string, proofs bool) {
		if err := t.r.A.Feed(t.r.W); err != nil {
			c.Fail(name, "%v", err)
		}
		all := t.r.A.ActiveSNs()
		var sns []int64
		for i, sn := range all {
			if i < 3 || i >= len(all)-3 || sn%2048 == 2047 || sn%2048 == 0 {
				sns = append(sns, sn)
			}
		}
		for _, p := range rigs {
			if s := p.r.DiffTree(sns, proofs); s != "" {
				c.Fail(name, "%s, %s: %s", p.name, when, s)
			}
		}
	}
	rec := func(p *ptree, n string) {
		var q *ptree
		var root [32]byte
		if e := guard(func() { q, root = p.recoverOn(oldest, n) }); e != "" {
			c.Fail(name, "recovery of %s fails: %s", n, e)
		}
		if root != p.r.Root {
			c.Fail(name, "%s has root %x, before %x", n, root, p.r.Root)
		}
		rigs = append(rigs, q)
	}
	if e2 >= o || e1 >= o || oldest < e1 || (e2 > 0 && oldest < e2) {
		return
	}
	// only evicted twigs may be pruned
	last := e1
	if e2 > 0 {
		last = e2
	}
	if !t.r.T.TwigCanBePruned(last) {
		return
	}
	t.prune(0, e1)
	rec(t, "the tree recovered after the first prune")
	check("after the first prune", true)
	if e2 > 0 {
		for _, p := range rigs {
			growTwig(p.r, 1)
		}
		check("grown after the first prune", false)
		for _, p := range append([]*ptree{}, rigs...) {
			if e := guard(func() { p.prune(e1, e2) }); e != "" {
				c.Fail(name, "second prune of %s fails: %s", p.name, e)
			}
		}
		rec(rigs[1], "the tree recovered after both prunes")
		check("after the second prune", true)
	}
	for g := 0; g < 3; g++ {
		for _, p := range rigs {
			if g == 1 {
				p.r.Compact(oldest)
			}
			growTwig(p.r, g)
		}
		if g == 1 {
			oldest++
		}
		check(fmt.Sprintf("%d blocks later", g+1), g == 2)
		c.Add("transitions", int64(len(rigs)))
	}
	rec(t, "the pruned tree recovered at the end")
	check("at the end", true)
	c.Eval(y, o, e1, e2, blk)
	c.Add("states", int64(len(rigs)))
	if y == 7 && o == 6 && e1 == 3 {
		c.Sample(name)
	}
}

// ---- database level ----

func names(w *vw.World) string {
	var l []string
	for _, n := range w.SortedFiles() {
		l = append(l, n)
	}
	return strings.Join(l, " ")
}

func c10DB(c *hx.Ctx, h history, part, parts int) {
	a := dbx.Fresh(h.hist)
	defer a.Done()
	m := dbx.NewModel()
	pk := h.proofKeys()
	var roots []string
	ref := dbx.Fresh(h.hist)
	for _, s := range h.steps {
		s.do(ref, nil)
		roots = append(roots, ref.Root())
	}
	ref.Done()
	au := dbx.NewAudit()
	for i, s := range h.steps {
		s.do(a, m)
		c.Add("transitions", 1)
		if err := au.Feed(a.W); err != nil {
			c.Fail(h.trace(i), "%v", err)
		}
		if i%parts != part {
			continue
		}
		base := a.W.Clone()
		st := a.State(h.uni)
		lk := liveOf(m, pk)
		pf := a.Proofs(lk)
		seen := map[string]bool{}
		for p := h.base; p <= s.blk.H; p++ {
			if c.TimeUp() {
				base.Drop()
				return
			}
			f := dbx.Open(base.Clone(), h.hist)
			tr := fmt.Sprintf("%sprune below %d on a fork after step %d", h.trace(i), p, i)
			cmp := func(when string, ff *dbx.DB) {
				if x := dbx.FirstDiff(st, ff.State(h.uni)); x != "" {
					c.Fail(tr, "%s: %s", when, x)
				}
				if x := dbx.FirstDiff(pf, ff.Proofs(lk)); x != "" {
					c.Fail(tr, "%s, proofs: %s", when, x)
				}
			}
			f.A.PruneBeforeHeight(p)
			if x := au.PrunedTooMuch(f.W, p); x != "" {
				c.Fail(tr, "%s", x)
			}
			key := names(f.W)
			cmp("after the prune", f)
			if seen[key] && p != s.blk.H {
				f.Done()
				continue
			}
			seen[key] = true
			g := f.Fork()
			cmp("after the prune and a restart", g)
			for j := i + 1; j < len(h.steps) && j <= i+4; j++ {
				h.steps[j].do(f, nil)
				h.steps[j].do(g, nil)
				c.Add("transitions", 2)
				if f.Root() != roots[j] {
					c.Fail(tr, "root after step %d differs from the unpruned database", j)
				}
				if g.Root() != roots[j] {
					c.Fail(tr, "root after a restart and step %d differs from the unpruned database", j)
				}
				if j == i+2 {
					f.A.PruneBeforeHeight(h.steps[j].blk.H - 1)
					g.A.PruneBeforeHeight(p)
					g.A.PruneBeforeHeight(h.steps[j].blk.H - 1)
					if x := dbx.FirstDiff(f.State(h.uni), g.State(h.uni)); x != "" {
						c.Fail(tr, "after a second prune: %s", x)
					}
				}
			}
			q := f.Fork()
			if x := dbx.FirstDiff(f.State(h.uni), q.State(h.uni)); x != "" {
				c.Fail(tr, "restart after the second prune: %s", x)
			}
			q.Done()
			g.Done()
			f.Done()
			c.Add("reopens", 3)
			c.Eval(i, key)
		}
		base.Drop()
		c.Add("states", 1)
	}
}

// c10Lock: the history with its prunes against the history without.
func c10Lock(c *hx.Ctx, h history, mode int) {
	a, b := dbx.Fresh(h.hist), dbx.Fresh(h.hist)
	defer func() { a.Done(); b.Done() }()
	m := dbx.NewModel()
	pk := h.proofKeys()
	files := ""
	au := dbx.NewAudit()
	for i, s := range h.steps {
		if c.TimeUp() {
			return
		}
		if s.prune == 0 {
			s.do(a, m)
		}
		s.do(b, nil)
		c.Add("transitions", 2)
		if x := dbx.FirstDiff(a.State(h.uni), b.State(h.uni)); x != "" {
			c.Fail(h.trace(i), "never pruned vs pruned: %s", x)
		}
		lk := liveOf(m, pk)
		if s.prune > 0 {
			if x := dbx.FirstDiff(a.Proofs(lk), b.Proofs(lk)); x != "" {
				c.Fail(h.trace(i), "proofs, never pruned vs pruned: %s", x)
			}
			if err := au.Feed(a.W); err != nil {
				c.Fail(h.trace(i), "%v", err)
			}
			if x := au.PrunedTooMuch(b.W, s.prune); x != "" {
				c.Fail(h.trace(i), "%s", x)
			}
			if n := names(b.W); n != files {
				files = n
				c.Eval(i, n)
			}
		}
		if mode == 1 && i%3 == 0 {
			b.Reopen()
			if x := dbx.FirstDiff(a.State(h.uni), b.State(h.uni)); x != "" {
				c.Fail(h.trace(i), "never pruned vs pruned and restarted: %s", x)
			}
		}
	}
	c.Add("states", int64(len(h.steps)))
}

// ---- C11 ----

func c11Items(th bool) []hx.Item {
	var its []hx.Item
	n, every := 60, 12
	if th {
		n, every = 90, 2
	}
	for _, f := range []fill{fillHot, fillTwo} {
		for _, churn := range []bool{false, true} {
			for at := n - 1; at >= 20; at -= every {
				for part := 0; part < 3; part++ {
					h := fillHist(f, n+2, churn, churn, 0, 0)
					if churn {
						h = h.up(1<<32 - 40)
					}
					at, part := at, part
					its = append(its, hx.Item{Name: fmt.Sprintf("%s-at%d-%d", h.name, at, part), Run: func(c *hx.Ctx) { c11Run(c, h, at, part, 3, every, th) }})
				}
			}
		}
	}
	return its
}

// tryOpen opens a database on an image and reports a failure instead of dying
// (only panics of the opening goroutine can be caught; others end the process,
// which the supervisor reports with the last trace).
func tryOpen(w *vw.World, hist bool) (db *dbx.DB, err string) {
	err = guard(func() { db = dbx.Open(w, hist) })
	return
}

func c11Run(c *hx.Ctx, h history, at, part, parts, every int, th bool) {
	a := dbx.Fresh(h.hist)
	defer a.Done()
	m := dbx.NewModel()
	var roots []string
	ref := dbx.Fresh(h.hist)
	for i, s := range h.steps {
		if i > at+2 {
			break
		}
		s.do(ref, nil)
		roots = append(roots, ref.Root())
	}
	ref.Done()
	pk := h.proofKeys()
	for i, s := range h.steps {
		s.do(a, m)
		if i != at {
			continue
		}
		base := a.W.Clone()
		st := a.State(h.uni)
		lk := liveOf(m, pk)
		pf := a.Proofs(lk)
		seen := map[string]bool{}
		for p := s.blk.H; p > h.base; p-- {
			if c.TimeUp() {
				base.Drop()
				return
			}
			f := dbx.Open(base.Clone(), h.hist)
			pre := f.W.Clone()
			f.W.StartLog()
			f.A.PruneBeforeHeight(p)
			log := f.W.StopLog()
			key := names(f.W)
			f.Done()
			if seen[key] {
				pre.Drop()
				continue
			}
			seen[key] = true
			plan := dbx.NewCrashPlan(pre, log)
			dev := 1
			if th {
				dev = 2
			}
			for n, im := range plan.Images(dev, 0) {
				if n%parts != part {
					continue
				}
				tr := fmt.Sprintf("%sprune below %d after step %d; %s", h.trace(i), p, i, plan.Describe(im))
				c.Trace(tr)
				w := plan.Build(im)
				g, e := tryOpen(w, h.hist)
				if e != "" {
					c.Fail(tr, "the database cannot be opened: %s", e)
				}
				if x := dbx.FirstDiff(st, g.State(h.uni)); x != "" {
					c.Fail(tr, "state after reopening: %s", x)
				}
				if x := dbx.FirstDiff(pf, g.Proofs(lk)); x != "" {
					c.Fail(tr, "proofs after reopening: %s", x)
				}
				g.A.PruneBeforeHeight(p)
				if x := dbx.FirstDiff(st, g.State(h.uni)); x != "" {
					c.Fail(tr, "state after pruning again: %s", x)
				}
				g.Reopen()
				for j := i + 1; j < len(h.steps) && j <= i+2; j++ {
					h.steps[j].do(g, nil)
					c.Add("transitions", 1)
					if g.Root() != roots[j] {
						c.Fail(tr, "root after step %d differs from the run without prune and crash", j)
					}
				}
				g.ReopenNoClose()
				if j := i + 2; j < len(h.steps) && g.Root() != roots[j] {
					c.Fail(tr, "root after step %d and a restart differs", j)
				}
				g.Done()
				c.Add("reopens", 3)
				c.Add("crash_points", 1)
				c.Eval(i, p, plan.Describe(im))
			}
			pre.Drop()
			c.Add("states", 1)
		}
		base.Drop()
		return
	}
}
