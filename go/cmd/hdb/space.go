package main

import (
	"fmt"

	"github.com/smartbch/moeingads"

	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

// ---- C23: overwritten history does not accumulate ----

func init() {
	hx.Register(&hx.Check{
		ID: "C23", Level: "model_checking",
		Rule:        "filling histories (one, two, one slow, all shards; few and many live keys; with deletions; with regular prunes; with restarts) over many twigs: after every block the independent auditor locates the oldest live entry of every shard, which must lie in the last max(MinKeptTwigs, twice the live keys) twigs; after every block, for every height at which some twig was completed, the height after it and the current height, a prune on a fork, after which the segment files of both kinds that hold only data of inactive twigs complete before the height must be gone, up to four twigs, also when the prune is repeated or follows a restart; no more per-twig records are stored than for the twigs left; and after a compaction of the key-value store at most one index record per key from below the prune height is left; a case is one prune",
		Assumptions: append([]string{"fewer than 2048 entries are written per shard and block, which compaction needs to keep up with"}, dbAssumptions...),
		Items:       c23Items,
		Finish:      validated,
	})
}

// the rates are such that a twig is filled every few blocks; the names do not
// repeat those of the smaller fills
var (
	spOne  = fill{name: "sp1", perSh: 700, shards: []int{0}, every: 1, keep: 60}
	spTwo  = fill{name: "sp2", perSh: 600, shards: []int{1, 6}, every: 1, keep: 10}
	spMix  = fill{name: "sp3", perSh: 1500, shards: []int{2, 7}, every: 4, keep: 300}
	spAll  = fill{name: "sp8", perSh: 500, shards: []int{0, 1, 2, 3, 4, 5, 6, 7}, every: 1, keep: 50}
	spCold = fill{name: "spc", perSh: 2600, shards: []int{3}, every: 4, keep: 1200}
)

func c23Items(th bool) []hx.Item {
	m := 3
	if th {
		m = 6
	}
	var its []hx.Item
	add := func(h history, parts int, reopen int) {
		for p := 0; p < parts; p++ {
			p := p
			its = append(its, hx.Item{Name: fmt.Sprintf("space-%s-r%d-%d/%d", h.name, reopen, p, parts), Run: func(c *hx.Ctx) { c23Run(c, h, reopen, p, parts) }})
		}
	}
	for i, f := range []fill{spOne, spTwo, spMix, spAll, spCold} {
		k := []int{20, 22, 30, 22, 30}[i] * m
		add(fillHist(f, k, i%2 == 1, false, 0, 0), 2*m, 0)
		add(fillHist(f, k, i%2 == 0, true, 0, 0), 2*m, 5)
		add(fillHist(f, k, false, true, 5, 3), 1, 0)
		add(fillHist(f, k, true, false, 9, 6), 1, 4)
	}
	return its
}

func c23Run(c *hx.Ctx, h history, reopen, part, parts int) {
	full := dbx.Fresh(h.hist) // never pruned, for the auditor
	defer full.Done()
	a := full
	pruned := false
	for _, s := range h.steps {
		pruned = pruned || s.prune > 0
	}
	if pruned {
		a = dbx.Fresh(h.hist)
		defer a.Done()
	}
	m := dbx.NewModel()
	au := dbx.NewAudit()
	done := make([][]int64, len(au.Shards))
	keep := func() int64 {
		k := int64(2*len(m.M)+2047) / 2048
		if k < moeingads.MinKeptTwigs {
			k = moeingads.MinKeptTwigs
		}
		return k + 1
	}
	check := func(w *vw.World, p int64, tr, when string) {
		n, x := au.Leaks(w, p, done, keep(), 3)
		if x != "" {
			c.Fail(tr, "%s: %s", when, x)
		}
		if n > 0 {
			c.Eval(h.name, p, n, when)
		}
		if d := records(full.W) - records(w); d < n-2*int64(len(au.Shards))-1 { // two records per shard and one more may be added
			c.Fail(tr, "%s: %d twigs had to go, but only %d fewer records besides the index are stored than without pruning", when, n, d)
		}
		c.Add("twigs_that_had_to_go", n)
	}
	for i, s := range h.steps {
		if c.TimeUp() {
			return
		}
		if s.prune == 0 {
			s.do(full, m)
		}
		if pruned {
			s.do(a, nil)
		}
		c.Add("transitions", 1)
		if err := au.Feed(full.W); err != nil {
			c.Fail(h.trace(i), "%v", err)
		}
		for j, sh := range au.Shards {
			for int64(len(done[j])) < sh.Youngest() {
				done[j] = append(done[j], s.blk.H)
			}
		}
		if x := au.Overfull(keep()); x != "" {
			c.Fail(h.trace(i), "%s (live keys %d)", x, len(m.M))
		}
		if s.prune > 0 {
			check(a.W, s.prune, h.trace(i), "after the prune")
		}
		if reopen > 0 && i%reopen == 0 {
			a.Reopen()
			c.Add("reopens", 1)
		}
		if pruned || i%parts != part {
			continue
		}
		// the heights at which another twig has to go, and the last two
		hs := map[int64]bool{}
		last := int64(0)
		for p := h.base + 1; p <= s.blk.H; p++ {
			n := au.MustGo(p, done, keep(), 3)
			hs[p] = n > last || n > 0 && p >= s.blk.H-1
			last = n
		}
		if last == 0 {
			continue
		}
		base := a.W.Clone()
		lastP := int64(-1)
		for p := h.base + 1; p <= s.blk.H; p++ {
			if !hs[p] {
				continue
			}
			tr := fmt.Sprintf("%sprune below %d on a fork after step %d", h.trace(i), p, i)
			f := dbx.Open(base.Clone(), h.hist)
			if lastP >= 0 { // in two steps
				f.A.PruneBeforeHeight(lastP)
				if p%2 == 0 {
					f.Reopen()
				}
			}
			f.A.PruneBeforeHeight(p)
			check(f.W, p, tr, "after the prune")
			if h.hist {
				compactKV(f.W)
				if x := oldVersions(f.W, p); x != "" {
					c.Fail(tr, "%s", x)
				}
			}
			f.Reopen()
			f.A.PruneBeforeHeight(p)
			check(f.W, p, tr, "after the prune, a restart and the same prune")
			f.Done()
			c.Add("prunes", 2)
			if p%3 == 0 {
				lastP = p
			}
		}
		base.Drop()
	}
	c.Add("states", int64(len(h.steps)))
}

// records of the key-value stores, besides the index.
func records(w *vw.World) (n int64) {
	for _, kv := range w.KVs {
		for k := range kv.M {
			if len(k) == 0 || k[0] != 0 {
				n++
			}
		}
	}
	return n
}

// oldVersions: index records (0, key, height) below a height, at most one per key.
func oldVersions(w *vw.World, p int64) string {
	seen := map[string]int{}
	for _, kv := range w.KVs {
		for k := range kv.M {
			if len(k) != 17 || k[0] != 0 {
				continue
			}
			h := int64(0)
			for _, b := range []byte(k[9:]) {
				h = h<<8 | int64(b)
			}
			if h >= 0 && h < p {
				seen[k[1:9]]++
				if seen[k[1:9]] > 1 {
					return fmt.Sprintf("after a prune below %d and a compaction of the key-value store the index still holds several records of key %x from below that height", p, k[1:9])
				}
			}
		}
	}
	return ""
}
