package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C12", Level: "model_checking",
		Rule:        "index level: every sequence of 4 (thorough 5) blocks over 2 keys (untouched, set, deleted each) for every neighbouring-key pair and height pattern, then every lookup height in range, every prune height and every compaction of a record subset (a prefix of levels), before and after a restart. Database level: after every block (and inside every block) of the transition, fill and wide (heights around every power of two up to 2^62, value lengths 0..12000) histories each key at the last dozen heights, future heights, 0 and the largest; at the end all heights, after restart; prunes at every height, followed by restart, blocks and a compaction of the key-value store; a case is one lookup",
		Assumptions: append([]string{"heights are int64 (0..2^63-1); guard keys are not looked up in history", "the key-value compaction applies the filter to every record (or, at index level, to any record subset)"}, dbAssumptions...),
		Items:       c12Items,
		Finish:      validated,
	})
}

// ---- database level ----

type ver12 struct {
	from int64
	e    *dbx.MEnt // nil: absent
}

type pos12 struct {
	from int64
	pos  int64
}

// tracker keeps what every lookup has to return, and where each version lies.
type tracker struct {
	vers map[string][]ver12
	recs map[string][]pos12
	last map[string]int64 // serial number of the active record
	a    *dbx.Audit
}

func newTracker() *tracker {
	return &tracker{vers: map[string][]ver12{}, recs: map[string][]pos12{}, last: map[string]int64{}, a: dbx.NewAudit()}
}

func (t *tracker) clone() *tracker {
	n := &tracker{vers: map[string][]ver12{}, recs: map[string][]pos12{}, last: map[string]int64{}, a: t.a.Clone()}
	for k, v := range t.vers {
		n.vers[k] = append([]ver12{}, v...)
	}
	for k, v := range t.recs {
		n.recs[k] = append([]pos12{}, v...)
	}
	for k, v := range t.last {
		n.last[k] = v
	}
	return n
}

func (t *tracker) block(w *vw.World, m *dbx.Model, uni []string) error {
	if err := t.a.Feed(w); err != nil {
		return err
	}
	for _, k := range uni {
		vs := t.vers[k]
		e, ok := m.M[k]
		var old *dbx.MEnt
		if len(vs) > 0 {
			old = vs[len(vs)-1].e
		}
		if !ok && old != nil {
			t.vers[k] = append(vs, ver12{m.H, nil})
			t.recs[k] = append(t.recs[k], pos12{m.H, -1})
			delete(t.last, k)
		} else if ok && (old == nil || *old != e) {
			x := e
			t.vers[k] = append(vs, ver12{m.H, &x})
		}
	}
	for _, s := range t.a.Shards {
		for sn, r := range s.Active {
			if _, ok := m.M[r.Key]; !ok {
				continue
			}
			if l, ok := t.last[r.Key]; !ok || l != sn {
				t.last[r.Key] = sn
				t.recs[r.Key] = append(t.recs[r.Key], pos12{m.H, r.Pos})
			}
		}
	}
	return nil
}

func (t *tracker) want(k string, h int64) *dbx.MEnt {
	vs := t.vers[k]
	i := sort.Search(len(vs), func(i int) bool { return vs[i].from > h })
	if i == 0 {
		return nil
	}
	return vs[i-1].e
}

func (t *tracker) rec(k string, h int64) (pos12, bool) {
	vs := t.recs[k]
	i := sort.Search(len(vs), func(i int) bool { return vs[i].from > h })
	if i == 0 {
		return pos12{}, false
	}
	return vs[i-1], true
}

type hq struct {
	c      *hx.Ctx
	t      *tracker
	pruned int64 // highest prune height, -1: none
	compl  bool  // a compaction ran under it
	n      int64
}

// look checks one lookup; low is the first byte position left per shard.
func (q *hq) look(db *dbx.DB, k string, h int64, low []int64, trace func() string) {
	q.n++
	var e *types.Entry
	// only the call itself may panic
	p := guard(func() { e = db.A.GetEntryAtHeight([]byte(k), uint64(h)) })
	want := q.t.want(k, h)
	if q.pruned >= 0 && h <= q.pruned {
		want = nil
	}
	if p == "" {
		if want == nil && e == nil {
			return
		}
		if want != nil && e != nil && string(e.Key) == k && string(e.Value) == want.Val && string(e.NextKey) == want.Next && e.Height == want.H && e.LastHeight == want.LH {
			return
		}
	}
	got := p
	if p == "" {
		got = "nothing"
		if e != nil {
			got = fmt.Sprintf("value %x next %x heights %d/%d", e.Value, e.NextKey, e.Height, e.LastHeight)
		}
	}
	exp := "nothing"
	if want != nil {
		exp = fmt.Sprintf("value %x next %x heights %d/%d", want.Val, want.Next, want.H, want.LH)
	}
	msg := fmt.Sprintf("GetEntryAtHeight(%x, %d) gives %s, expected %s", k, h, got, exp)
	r, ok := q.t.rec(k, h)
	if want != nil && ok && q.pruned >= 0 && h > q.pruned && r.from < q.pruned {
		if p != "" && r.pos >= 0 && r.pos < low[dbx.ShardOf(k)] {
			q.c.Known("D7", trace(), msg)
			return
		}
		if p == "" && e == nil && q.compl {
			q.c.Known("D8", trace(), msg)
			return
		}
	}
	q.c.Fail(trace(), "%s (prune height %d)", msg, q.pruned)
}

func lows(w *vw.World) []int64 {
	r := make([]int64, 8)
	for i := range r {
		r[i] = dbx.FirstPos(w, fmt.Sprintf("entries.%d", i))
	}
	return r
}

func (q *hq) all(db *dbx.DB, keys []string, hs []int64, trace func() string) {
	low := lows(db.W)
	for _, k := range keys {
		for _, h := range hs {
			q.look(db, k, h, low, trace)
		}
	}
	q.c.Add("lookups", int64(len(keys)*len(hs)))
}

func compactKV(w *vw.World) {
	for in, kv := range w.KVs {
		w.KVCompact(in, kv, kv.Filter)
	}
}

func recent(n int64) []int64 {
	var hs []int64
	for h := n - 11; h <= n+2; h++ {
		if h > 0 {
			hs = append(hs, h)
		}
	}
	return append(hs, 0, math.MaxInt64)
}

func c12Hists(th bool) []history {
	n := 36
	if th {
		n = 90
	}
	var hs []history
	for _, ks := range keySets {
		hs = append(hs, transHist(ks, true))
	}
	return append(hs,
		fillHist(fillHot, n, true, true, 0, 0),
		fillHist(fillTwo, n, true, false, 0, 0).up(1<<16-int64(n)/2),
		fillHist(fillAll, n, true, true, 0, 0).up(1<<32-int64(n)/2),
		fillHist(fillSlow, n, true, true, 0, 0).up(1<<31-int64(n)/2),
		wideHist(true),
		bitHist(true),
	)
}

func c12Items(th bool) []hx.Item {
	var its []hx.Item
	for _, h := range c12Hists(th) {
		h := h
		its = append(its, hx.Item{Name: "lookups-" + h.name, Run: func(c *hx.Ctx) { c12Hist(c, h) }})
	}
	n := 60
	every := []int{59, 40}
	if th {
		n = 110
		every = []int{109, 80, 59, 40, 30, 20}
	}
	for _, f := range []fill{fillHot, fillTwo, fillSlow} {
		for _, churn := range []bool{true, false} {
			for _, at := range every {
				for part := 0; part < 2; part++ {
					h := fillHist(f, n+3, true, churn, 0, 0)
					if churn {
						h = h.up(1<<32 - 30)
					} else if f.name == fillTwo.name {
						h = h.up(1<<31 - 30)
					}
					at, part := at, part
					its = append(its, hx.Item{Name: fmt.Sprintf("prune-%s-at%d-%d", h.name, at, part), Run: func(c *hx.Ctx) { c12Prune(c, h, at, part, 2) }})
				}
			}
		}
	}
	for _, ks := range keySets {
		h := transHist(ks, true)
		for part := 0; part < 3; part++ {
			at := len(h.steps) - 5 - part*70
			h := h
			its = append(its, hx.Item{Name: fmt.Sprintf("prune-%s-at%d", h.name, at), Run: func(c *hx.Ctx) { c12Prune(c, h, at, 0, 11) }})
		}
	}
	for i := range pairs12 {
		for j := range heights12 {
			for part := 0; part < 3; part++ {
				i, j, part := i, j, part
				its = append(its, hx.Item{Name: fmt.Sprintf("index-pair%d-heights%d-%d", i, j, part), Run: func(c *hx.Ctx) { c12Index(c, pairs12[i], heights12[j], part, th) }})
			}
		}
	}
	return its
}

func c12Hist(c *hx.Ctx, h history) {
	db := dbx.Fresh(h.hist)
	defer db.Done()
	m := dbx.NewModel()
	t := newTracker()
	q := &hq{c: c, t: t, pruned: -1}
	few := h.proofKeys()
	for i, s := range h.steps {
		if c.TimeUp() {
			return
		}
		tr := func() string { return h.trace(i) }
		b := s.blk
		db.Prepare(b.Ops)
		db.A.BeginWrite(b.H)
		for j, o := range b.Ops {
			if o.Kind == dbx.Set {
				db.A.Set([]byte(o.Key), []byte(o.Val))
			} else if o.Kind == dbx.Del {
				db.A.Delete([]byte(o.Key))
			}
			if j < 3 {
				// history of earlier blocks stays readable inside a block
				q.all(db, few, recentBelow(b.H), tr)
			}
		}
		db.A.EndWrite()
		m.Apply(b)
		c.Add("transitions", 1)
		if err := t.block(db.W, m, h.uni); err != nil {
			c.Fail(tr(), "%v", err)
		}
		q.all(db, h.uni, recent(b.H), tr)
		if i%9 == 4 {
			db.ReopenNoClose()
			q.all(db, few, recent(b.H), tr)
			c.Add("reopens", 1)
		}
		if i == len(h.steps)-1 || i%40 == 39 {
			q.all(db, h.uni, h.heights(i), tr)
			db.Reopen()
			q.all(db, h.uni, h.heights(i), tr)
			compactKV(db.W)
			q.all(db, few, h.heights(i), tr)
			c.Add("reopens", 1)
		}
		c.Eval(db.Root())
		if i == 7 {
			c.Sample(h.trace(i))
		}
	}
	c.Add("states", int64(len(h.steps)))
}

func recentBelow(n int64) []int64 {
	var hs []int64
	for h := n - 6; h < n; h++ {
		if h >= 0 {
			hs = append(hs, h)
		}
	}
	return hs
}

func c12Prune(c *hx.Ctx, h history, at, part, parts int) {
	a := dbx.Fresh(h.hist)
	defer a.Done()
	m := dbx.NewModel()
	t := newTracker()
	for i, s := range h.steps {
		if i > at {
			break
		}
		s.do(a, m)
		c.Add("transitions", 1)
		if err := t.block(a.W, m, h.uni); err != nil {
			c.Fail(h.trace(i), "%v", err)
		}
	}
	base := a.W.Clone()
	defer base.Drop()
	keys := h.proofKeys()
	cur := m.H
	for p := cur + 1; p > h.base; p-- {
		if int(p)%parts != part {
			continue
		}
		if c.TimeUp() {
			return
		}
		hs := h.heights(at + 2)
		if len(h.steps) > 100 {
			hs = append(recent(cur+2), recent(p+6)...)
		}
		stage := ""
		tr := func() string {
			return fmt.Sprintf("%sprune below %d on a fork after step %d, then %s", h.trace(at), p, at, stage)
		}
		ft := t
		q := &hq{c: c, t: ft, pruned: p}
		f := dbx.Open(base.Clone(), h.hist)
		f.A.PruneBeforeHeight(p)
		f.A.PruneBeforeHeight(p / 2) // a lower height must not undo it
		stage = "lookup"
		q.all(f, keys, hs, tr)
		stage = "restart and lookup"
		f.ReopenNoClose()
		q.all(f, keys, hs, tr)
		q.t = t.clone()
		fm := m.Clone()
		for j := at + 1; j < len(h.steps) && j <= at+2; j++ {
			h.steps[j].do(f, fm)
			if err := q.t.block(f.W, fm, h.uni); err != nil {
				c.Fail(tr(), "%v", err)
			}
			c.Add("transitions", 1)
		}
		stage = "restart, two blocks and lookup"
		q.all(f, keys, hs, tr)
		compactKV(f.W)
		q.compl = true
		stage = "restart, two blocks, key-value compaction and lookup"
		q.all(f, keys, hs, tr)
		f.Reopen()
		stage += " after a restart"
		q.all(f, keys, hs, tr)
		st := f.State(h.uni)
		g := f.Fork()
		if x := dbx.FirstDiff(st, g.State(h.uni)); x != "" {
			c.Fail(tr(), "restart: %s", x)
		}
		g.Done()
		c.Add("reopens", 3)
		c.Eval(h.name, at, p)
		f.Done()
	}
	c.Add("states", 1)
}

// ---- index level ----

var pairs12 = [][2]string{
	{kk(0x40, 0, 0, 0, 0, 0, 0, 0x10), kk(0x40, 0, 0, 0, 0, 0, 0, 0x11)},
	{kk(0, 0, 0, 0, 0, 0, 0, 1), kk(0, 0, 0, 0, 0, 0, 1, 0)},
	{kk(255, 255, 255, 255, 255, 255, 255, 254), kk(254, 255, 255, 255, 255, 255, 255, 255)},
	{kk(0, 0, 0, 0, 0, 0, 0, 255), kk(0, 0, 0, 0, 0, 0, 1, 0)},
	{kk(1, 0, 0, 0, 0, 0, 0, 0), kk(0, 255, 255, 255, 255, 255, 255, 255)},
}

var heights12 = [][]int64{
	{1, 2, 3, 4, 5},
	{0, 1, 3, 7, 8},
	{254, 255, 256, 257, 511},
	{5, 0xffff, 0x10000, 0xffffffff, 0x100000000},
}

type irec struct {
	h   int64
	pos int64 // -1: deleted
}

func openIdx(w *vw.World) (indextree.IKVDB, *indextree.NVTreeMem) {
	w.MkdirIn("")
	kv, err := indextree.NewRocksDB("idx", w.Root)
	if err != nil {
		panic(err)
	}
	return kv, indextree.NewNVTreeMem(kv)
}

func c12Index(c *hx.Ctx, keys [2]string, hts []int64, first int, th bool) {
	depth := 4
	if th {
		depth = 5
	}
	total := pow(9, depth)
	for code := 0; code < total; code++ {
		if code%9/3 != first {
			continue
		}
		if code%64 == 0 && c.TimeUp() {
			return
		}
		c12IdxCase(c, keys, hts[:depth], code, th)
	}
}

func c12IdxCase(c *hx.Ctx, keys [2]string, hts []int64, code int, th bool) {
	w := vw.New()
	defer w.Drop()
	kv, tree := openIdx(w)
	recs := map[string][]irec{}
	live := map[string]bool{}
	pos := int64(8)
	desc := ""
	c0 := code
	for _, ht := range hts {
		kv.OpenNewBatch()
		// records of other kinds share the store
		kv.CurrBatch().Set([]byte{0x10}, []byte("meta"))
		kv.CurrBatch().Set([]byte{0x13, 0, 0, 0, 0, 0, 0, 0, 1}, []byte("meta"))
		tree.BeginWrite(ht)
		desc += fmt.Sprintf(" block %d {", ht)
		for i, k := range keys {
			ch := code / pow(3, i) % 3
			switch ch {
			case 1:
				tree.Set([]byte(k), pos)
				recs[k] = append(recs[k], irec{ht, pos})
				live[k] = true
				pos += 1 << uint(pos%11) // positions of several magnitudes
				desc += fmt.Sprintf(" set %d", i)
			case 2:
				if !live[k] {
					// deleting an absent key is a caller error; the case repeats another
					tree.EndWrite()
					kv.CloseOldBatch()
					tree.Close()
					kv.Close()
					return
				}
				tree.Delete([]byte(k))
				recs[k] = append(recs[k], irec{ht, -1})
				live[k] = false
				desc += fmt.Sprintf(" del %d", i)
			}
		}
		desc += " }"
		code /= 9
		tree.EndWrite()
		kv.CloseOldBatch()
		c.Add("transitions", 1)
	}
	var qs []int64
	seen := map[int64]bool{}
	for _, h := range append([]int64{0, math.MaxInt64}, hts...) {
		for _, d := range []int64{-1, 0, 1} {
			if x := h + d; x >= 0 && !seen[x] {
				seen[x] = true
				qs = append(qs, x)
			}
		}
	}
	look := func(tree *indextree.NVTreeMem, pr int64, dropped bool, when string) {
		for _, k := range keys {
			for _, h := range qs {
				var want, fromH int64 = -1, -1
				for _, r := range recs[k] {
					if r.h <= h {
						want, fromH = r.pos, r.h
					}
				}
				c.Add("lookups", 1)
				p, ok := tree.GetAtHeight([]byte(k), uint64(h))
				if !ok {
					p = -1
				}
				if pr >= 0 && h <= pr {
					want = -1
				}
				if p == want {
					continue
				}
				msg := fmt.Sprintf("GetAtHeight(%x, %d) gives position %d, expected %d (-1: none) %s", k, h, p, want, when)
				if dropped && h > pr && fromH >= 0 && fromH < pr {
					// the record asked for may be dropped: nothing, or one of the older ones
					older := p == -1
					for _, r := range recs[k] {
						if r.h < fromH && r.pos == p {
							older = true
						}
					}
					if older {
						c.Known("D8", desc, msg)
						continue
					}
				}
				c.Fail(desc, "%s", msg)
			}
		}
	}
	look(tree, -1, false, "after the blocks")
	tree.Close()
	kv.Close()
	// every prune height next to a block's, every subset of records compacted
	for _, pr := range qs {
		if pr == math.MaxInt64 || pr == math.MaxInt64-1 {
			continue
		}
		n := 0
		for _, k := range keys {
			for _, r := range recs[k] {
				if r.h < pr {
					n++
				}
			}
		}
		subs := []int{0, 1<<uint(n) - 1}
		if n > 1 && (th || c0%7 == 0) {
			subs = subs[:0]
			for s := 0; s < 1<<uint(n); s++ {
				subs = append(subs, s)
			}
		}
		for _, sub := range subs {
			cl := w.Clone()
			k, t := openIdx(cl)
			k.SetPruneHeight(uint64(pr))
			look(t, pr, false, fmt.Sprintf("after SetPruneHeight(%d)", pr))
			for in, s := range cl.KVs {
				f := s.Filter
				if f == nil {
					continue
				}
				i := 0
				cl.KVCompact(in, s, func(key, v []byte) (bool, []byte) {
					rm, nv := f(key, v)
					if rm {
						i++
						if sub&(1<<uint(i-1)) == 0 {
							return false, v // not part of this compaction
						}
					}
					return rm, nv
				})
				if i > n {
					c.Fail(desc, "the compaction filter drops %d records, only %d were written below the prune height %d", i, n, pr)
				}
			}
			look(t, pr, sub != 0, fmt.Sprintf("after SetPruneHeight(%d) and compaction of subset %b of the %d records below", pr, sub, n))
			if string(k.Get([]byte{0x10})) != "meta" || string(k.Get([]byte{0x13, 0, 0, 0, 0, 0, 0, 0, 1})) != "meta" {
				c.Fail(desc, "compaction with prune height %d drops a metadata record", pr)
			}
			t.Close()
			k.Close()
			k, t = openIdx(cl)
			k.SetPruneHeight(uint64(pr)) // the database does this from its metadata
			look(t, pr, sub != 0, fmt.Sprintf("after SetPruneHeight(%d), compaction of subset %b and a restart", pr, sub))
			t.Close()
			k.Close()
			cl.Drop()
			c.Add("states", 1)
		}
	}
	c.Eval(c0, keys, hts)
	if c0 == 123 {
		c.Sample(desc)
	}
}
