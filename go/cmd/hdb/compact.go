package main

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C09", Level: "model_checking",
		Rule:        "for every block of filling histories in which compaction moves entries: the first, middle and last moved entry of a shard x (untouched, overwritten, deleted, deleted and re-created, a key inserted right after it, a key inserted right before it, deleted together with such an insertion) each, in the same block, in all combinations; the result is compared with the model (values, next keys, heights), with the tree recomputed from the files (every live key exactly one active entry, root), after a restart, and after a next block that also rewrites or deletes moved entries; plus blocks that cross a twig border and compact with every number (0..72, thorough 0..140) of deletions pending; plus whole histories with the same comparison after every block and the bound on the oldest active twig; a case is one compacting block",
		Assumptions: dbAssumptions,
		Items:       c09Items,
		Finish:      validated,
	})
}

func c09Items(th bool) []hx.Item {
	var its []hx.Item
	n, parts := 44, 14
	if th {
		n, parts = 70, 24
	}
	type fc struct {
		f     fill
		churn bool
	}
	fs := []fc{{fillHot, false}, {fillAll, true}, {fillTwo, false}}
	if th {
		fs = append(fs, fc{fillHot, true}, fc{fillTwo, true}, fc{fillSlow, true})
	}
	for _, x := range fs {
		for part := 0; part < parts; part++ {
			h := fillHist(x.f, n, false, x.churn, 0, 0)
			if x.f.name == "all" && !th {
				h = fillHist(x.f, 125, false, x.churn, 0, 0)
			}
			part := part
			its = append(its, hx.Item{Name: fmt.Sprintf("moved-%s-%d", h.name, part), Run: func(c *hx.Ctx) { c09Moved(c, h, part, parts, th) }})
		}
	}
	its = append(its, compactDelItems(th, func() *cmpr {
		return &cmpr{a: dbx.NewAudit(), f: func(a *dbx.Audit, db *dbx.DB, m *dbx.Model, b dbx.Block) string {
			var u []string
			for _, o := range b.Ops {
				u = append(u, o.Key)
			}
			return fullDiff(a, db, m, u)
		}}
	})...)
	hs := histories(th)
	for _, h := range hs {
		h := h
		if strings.HasPrefix(h.name, "trans") && !th {
			continue
		}
		its = append(its, hx.Item{Name: "history-" + h.name, Run: func(c *hx.Ctx) { c09Hist(c, h) }})
	}
	return its
}

// movedKeys gives per shard the keys whose records were moved by the block that
// took audit a to b: same entry, new place.
func movedKeys(a, b *dbx.Audit) [][]string {
	var r [][]string
	for i := range a.Shards {
		was := map[string]*dbx.Rec{}
		for _, x := range a.Shards[i].Active {
			was[x.Key] = x
		}
		var ks []string
		sn := map[string]int64{}
		for _, x := range b.Shards[i].Active {
			if y := was[x.Key]; y != nil && y.SN != x.SN && y.H == x.H && y.Val == x.Val && x.Key != dbx.StartKey && x.Key != dbx.EndKey {
				ks = append(ks, x.Key)
				sn[x.Key] = x.SN
			}
		}
		sort.Slice(ks, func(i, j int) bool { return sn[ks[i]] < sn[ks[j]] })
		if len(ks) > 0 {
			r = append(r, ks)
		}
	}
	return r
}

func neighbour(k string, d int) string {
	b := []byte(k)
	v := int(b[5]) + d
	if v < 0 || v > 255 {
		return ""
	}
	b[5] = byte(v)
	return string(b)
}

const nMoveOps = 7

func moveOps(k string, choice int, tag string) []dbx.Op {
	set := func(k string) dbx.Op { return dbx.Op{Kind: dbx.Set, Key: k, Val: tag} }
	del := dbx.Op{Kind: dbx.Del, Key: k}
	up, down := neighbour(k, 1), neighbour(k, -1)
	switch choice {
	case 1:
		return []dbx.Op{set(k)}
	case 2:
		return []dbx.Op{del}
	case 3:
		return []dbx.Op{del, set(k)}
	case 4:
		if up != "" {
			return []dbx.Op{set(up)}
		}
	case 5:
		if down != "" {
			return []dbx.Op{set(down)}
		}
	case 6:
		if up != "" {
			return []dbx.Op{set(up), del}
		}
	}
	return nil
}

func fullDiff(a *dbx.Audit, db *dbx.DB, m *dbx.Model, uni []string) string {
	if s := db.DiffMap(m, uni); s != "" {
		return s
	}
	if s := db.DiffChain(m); s != "" {
		return s
	}
	if a != nil {
		if s := auditDiff(a, db, m); s != "" {
			return s
		}
		return a.DiffRead(db)
	}
	return ""
}

func c09Moved(c *hx.Ctx, h history, part, parts int, th bool) {
	a := dbx.Fresh(h.hist)
	m := dbx.NewModel()
	au := dbx.NewAudit()
	done := 0
	for i, s := range h.steps {
		if c.TimeUp() {
			break
		}
		base := a.W.Clone()
		baseM := m.Clone()
		if err := au.Feed(a.W); err != nil {
			c.Fail(h.trace(i), "%v", err)
		}
		baseA := au.Clone()
		s.do(a, m)
		c.Add("transitions", 1)
		if err := au.Feed(a.W); err != nil {
			c.Fail(h.trace(i), "%v", err)
		}
		mv := movedKeys(baseA, au)
		if len(mv) == 0 {
			base.Drop()
			continue
		}
		done++
		if !th && done > 3 {
			base.Drop()
			break
		}
		ks := mv[0]
		t3 := []string{ks[0], ks[len(ks)/2], ks[len(ks)-1]}
		if len(mv) > 1 {
			t3[1] = mv[1][0]
		}
		n := 1
		for range t3 {
			n *= nMoveOps
		}
		for code := 0; code < n; code++ {
			if code%parts != part {
				continue
			}
			if c.TimeUp() {
				break
			}
			c09Case(c, h, i, base, baseM, baseA, t3, mv, code)
		}
		base.Drop()
		c.Add("states", 1)
	}
	a.Done()
}

func c09Case(c *hx.Ctx, h history, i int, base *vw.World, baseM *dbx.Model, baseA *dbx.Audit, t3 []string, mv [][]string, code int) {
	b := dbx.Block{H: h.steps[i].blk.H}
	special := map[string]bool{}
	var extra []dbx.Op
	x := code
	for n, k := range t3 {
		if n > 0 && k == t3[n-1] {
			continue
		}
		extra = append(extra, moveOps(k, x%nMoveOps, fmt.Sprintf("m%d-%d", code, n))...)
		x /= nMoveOps
		special[k] = true
	}
	for _, o := range extra {
		special[o.Key] = true
	}
	for _, o := range h.steps[i].blk.Ops {
		if !special[o.Key] {
			b.Ops = append(b.Ops, o)
		}
	}
	if code%2 == 0 {
		b.Ops = append(extra, b.Ops...)
	} else {
		b.Ops = append(b.Ops, extra...)
	}
	f := dbx.Open(base.Clone(), h.hist)
	m := baseM.Clone()
	au := baseA.Clone()
	uni := append([]string{}, h.uni...)
	for k := range special {
		uni = append(uni, k)
	}
	tr := fmt.Sprintf("%sinstead of step %d: the same block with %v", h.trace(i-1), i, extra)
	f.Run(b)
	m.Apply(b)
	if s := fullDiff(au, f, m, uni); s != "" {
		c.Fail(tr, "%s", s)
	}
	f.ReopenNoClose()
	if s := fullDiff(nil, f, m, uni); s != "" {
		c.Fail(tr, "after a restart: %s", s)
	}
	if i+1 < len(h.steps) {
		// the next block also touches what was moved
		b := dbx.Block{H: h.steps[i+1].blk.H}
		in := map[string]bool{}
		for _, o := range h.steps[i+1].blk.Ops {
			in[o.Key] = true
		}
		b.Ops = append(b.Ops, h.steps[i+1].blk.Ops...)
		for _, ks := range mv {
			for n, k := range ks {
				if in[k] {
					continue
				}
				switch (n + code) % 3 {
				case 0:
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: fmt.Sprint("again", code)})
				case 1:
					b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
				}
			}
		}
		f.Run(b)
		m.Apply(b)
		if s := fullDiff(au, f, m, uni); s != "" {
			c.Fail(tr, "one block later: %s", s)
		}
	}
	f.Done()
	c.Add("transitions", 2)
	c.Add("reopens", 1)
	c.Eval(h.name, i, code)
	if code == 100 {
		c.Sample(fmt.Sprint(extra))
	}
}

// c09Hist compares after every block and follows the oldest active twig.
func c09Hist(c *hx.Ctx, h history) {
	db := dbx.Fresh(h.hist)
	defer db.Done()
	m := dbx.NewModel()
	au := dbx.NewAudit()
	if err := au.Feed(db.W); err != nil {
		c.Fail("", "%v", err)
	}
	var low [8]int64 // every active entry must be in this twig or a younger one
	for i, s := range h.steps {
		if c.TimeUp() {
			return
		}
		// the condition for compaction, well away from the borderline
		kept := int64(0)
		for j, sh := range au.Shards {
			kept += sh.NextSN() - low[j]*2048
		}
		live := int64(len(m.M))
		var young [8]int64
		for j, sh := range au.Shards {
			young[j] = sh.Youngest()
		}
		s.do(db, m)
		c.Add("transitions", 1)
		if x := fullDiff(au, db, m, h.uni); x != "" {
			c.Fail(h.trace(i), "%s", x)
		}
		if n := int64(len(m.M)); n > live {
			live = n
		}
		if s.prune == 0 && len(m.M) >= 16 && kept > 8*live {
			for j, sh := range au.Shards {
				if low[j]+2 <= young[j] {
					low[j]++
				}
				if o := sh.OldestActive(); o < low[j] && len(sh.Active) > 0 {
					c.Fail(h.trace(i), "shard %d: compaction is due but twig %d still holds live entries (oldest expected %d, youngest %d)", j, o, low[j], sh.Youngest())
				}
			}
		}
		c.Eval(h.name, i)
	}
	c.Add("states", int64(len(h.steps)))
}
