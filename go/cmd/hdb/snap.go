package main

import (
	"fmt"
	"strings"

	"github.com/smartbch/moeingads/datatree"
	"verif.local/v/dbx"
	"verif.local/v/hx"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C21", Level: "model_checking",
		Rule:        "every sequence of up to 4 (thorough 5) block kinds (one entry, half a twig, exactly up to the twig border, a full twig, deactivations, compaction+eviction of the oldest twig) after a base of one twig, and of up to 3 (thorough 4) block kinds with pruning after a base of seven twigs of which six are compacted; at every block boundary the tree is saved and loaded on a copy of the machine; the loaded tree is compared (twigs, upper nodes, root, active bits, reads, proofs) and then evolves in lockstep with the original through the rest of the sequence; a case is one (sequence, save point)",
		Assumptions: []string{"saving happens at block boundaries"},
		Items:       c21Items,
		Finish:      validated,
	})
}

// block kinds for tree-level exploration
const (
	tbOne = iota
	tbHalf
	tbBorder
	tbFull
	tbDeact
	tbCompact
	tbPrune
	nTB
)

// what the caller keeps besides the tree: the oldest twig that was not compacted
// and the last twig that was pruned.
type treeState struct{ oldest, pruned int64 }

var tbName = []string{"one", "half", "border", "full", "deact", "compact", "prune"}

// treeBlock applies a block kind; the decisions come from the auditor's state,
// so that lockstep trees do the same.
func treeBlock(t *dbx.TreeRig, a *dbx.Shard, kind int, st *treeState) {
	app := func(n int) {
		for i := 0; i < n; i++ {
			if t.SN%16 == 0 || t.SN%2048 == 2047 || t.SN%2048 == 1 {
				t.Append(fmt.Sprintf("k%d", t.SN), fmt.Sprintf("value-%d", t.SN))
			} else {
				t.Dummy()
			}
		}
	}
	switch kind {
	case tbOne:
		app(1)
	case tbHalf:
		app(1024)
	case tbBorder:
		app(int(2048 - t.SN%2048))
	case tbFull:
		app(2048)
	case tbDeact:
		sns := a.ActiveSNs()
		for i := 0; i < len(sns); i += 3 {
			t.Deact(sns[i])
		}
		app(3)
	case tbCompact:
		if st.oldest < a.Youngest() && a.Size() > 0 {
			t.Compact(st.oldest)
			st.oldest++
		}
		app(1)
	case tbPrune:
		start, end := st.pruned+1, st.oldest-1
		if end > start+datatree.MinPruneCount {
			t.T.PruneTwigs(start, end)
			st.pruned = end - 1
		}
		app(1)
	}
	t.EndBlock()
}

// treeBase: base 0 has one full twig, base 1 seven of which six are compacted.
func treeBase(base int) (*dbx.TreeRig, *treeState) {
	t := dbx.NewTreeRig(4096, 65536, "")
	st := &treeState{pruned: -1}
	run := func(k int) {
		if err := t.A.Feed(t.W); err != nil {
			panic(err)
		}
		treeBlock(t, t.A, k, st)
	}
	treeBlock(t, dbx.NewShard("entries", 0), tbFull, st)
	if base == 1 {
		for i := 0; i < 6; i++ {
			run(tbFull)
		}
		run(tbDeact)
		for i := 0; i < 6; i++ {
			run(tbCompact)
		}
	}
	return t, st
}

func c21Items(th bool) []hx.Item {
	var its []hx.Item
	for n := 0; n < 2*nTB*nTB; n++ {
		a, b, base := n%nTB, n/nTB%nTB, n/nTB/nTB
		depth := 4 - base
		if th {
			depth++
		}
		if base == 0 && a == tbPrune || base == 0 && b == tbPrune {
			continue // nothing can be pruned yet
		}
		{
			its = append(its, hx.Item{Name: fmt.Sprintf("seq-base%d-%s-%s", base, tbName[a], tbName[b]), Run: func(c *hx.Ctx) {
				seq := []int{a, b}
				var rec func(d int)
				rec = func(d int) {
					if c.TimeUp() {
						return
					}
					if d == 0 {
						c21Run(c, base, seq)
						return
					}
					for k := 0; k < nTB; k++ {
						if base == 0 && k == tbPrune {
							continue
						}
						seq = append(seq, k)
						rec(d - 1)
						seq = seq[:len(seq)-1]
					}
				}
				rec(depth - 2)
			}})
		}
	}
	return its
}

func c21Run(c *hx.Ctx, base int, seq []int) {
	var ns []string
	for _, k := range seq {
		ns = append(ns, tbName[k])
	}
	name := fmt.Sprintf("base %d, %s", base, strings.Join(ns, ","))
	t, st := treeBase(base)
	defer t.Done()
	type copyT struct {
		r  *dbx.TreeRig
		st treeState
		at int
	}
	var cps []*copyT
	defer func() {
		for _, p := range cps {
			p.r.Done()
		}
	}()
	snap := func(at int) {
		t.T.SaveMemToDisk()
		w := t.W.Clone()
		n := &dbx.TreeRig{W: w, Buf: t.Buf, Blk: t.Blk, SN: t.SN, H: t.H, Pos: map[int64]int64{}, A: t.A, Root: t.Root}
		n.T = datatree.LoadTree(t.Buf, t.Blk, w.Root)
		cps = append(cps, &copyT{n, *st, at})
		if err := guard(func() { datatree.CompareTreeTwigs(t.T, n.T); datatree.CompareTreeTwigs(n.T, t.T) }); err != "" {
			c.Fail(name, "saved after block %d, loaded: %s", at, err)
		}
		if err := guard(func() { datatree.CompareTreeNodes(t.T, n.T) }); err != "" {
			c.Fail(name, "saved after block %d, loaded: %s", at, err)
		}
		if err := guard(func() { datatree.CheckHashConsistency(n.T) }); err != "" {
			c.Fail(name, "saved after block %d, loaded: %s", at, err)
		}
		x, y := t.Sizes(), n.Sizes()
		if x[0] != y[0] || x[1] != y[1] {
			c.Fail(name, "file sizes after load %v, before %v", y, x)
		}
	}
	check := func(at int) {
		if err := t.A.Feed(t.W); err != nil {
			c.Fail(name, "%v", err)
		}
		sns := t.A.ActiveSNs()
		last := at == len(seq)
		if s := t.DiffTree(sns, last); s != "" {
			c.Fail(name, "after block %d: %s", at, s)
		}
		for _, p := range cps {
			if p.r.Root != t.Root {
				c.Fail(name, "tree saved and loaded after block %d has root %x after block %d, the original %x", p.at, p.r.Root, at, t.Root)
			}
			if p.r.SN != t.SN {
				c.Fail(name, "tree saved and loaded after block %d has %d entries, the original %d", p.at, p.r.SN, t.SN)
			}
			if last || p.at == at {
				if s := p.r.DiffTree(sns, last || p.at == at); s != "" {
					c.Fail(name, "tree saved and loaded after block %d, at block %d: %s", p.at, at, s)
				}
				for _, sn := range []int64{0, 5, st.oldest*2048 + 2, t.SN - 1} {
					if sn>>11 < st.oldest {
						continue
					}
					if t.T.GetActiveBit(sn) != p.r.T.GetActiveBit(sn) {
						c.Fail(name, "active bit of %d differs after load", sn)
					}
				}
			}
		}
	}
	if err := t.A.Feed(t.W); err != nil {
		c.Fail(name, "%v", err)
	}
	snap(0)
	check(0)
	for i, k := range seq {
		treeBlock(t, t.A, k, st)
		for _, p := range cps {
			treeBlock(p.r, t.A, k, &p.st)
		}
		if i+1 < len(seq) {
			snap(i + 1)
		}
		check(i + 1)
		c.Add("transitions", int64(1+len(cps)))
	}
	for _, p := range cps {
		c.Eval(base, name, p.at)
		if string(p.r.W.Bytes("entries/0-65536")) != string(t.W.Bytes("entries/0-65536")) {
			c.Fail(name, "entry file content differs after load")
		}
	}
	c.Add("states", int64(len(seq)+1))
}

func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}
