package main

import (
	"bytes"
	"fmt"

	"github.com/smartbch/moeingads/datatree"
	"verif.local/v/dbx"
	"verif.local/v/hx"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C04", Level: "model_checking",
		Rule:        "(1) every transition of the block-transition relation of 4 (thorough 5) keys x 5 key placements (see C01), (2) every block of long filling histories (twig roll-over, upper-tree growth, compaction) with restarts; after every block the proof of every live key is requested, parsed, re-serialised, checked by the library and by an independent verifier against the shard root recomputed from the files; a case is one proof; plus trees of 6 (thorough 12) twigs over 5 segment sizes and 3 deactivation patterns in which the activity, record and proof of every entry is checked",
		Assumptions: dbAssumptions,
		Items: func(th bool) []hx.Item {
			its := append(walkItems(th, mkProofs), edgeItems(th, mkProofs)...)
			its = append(its, c04Tree(th)...)
			return append(its, c04Fill(th)...)
		},
		Finish: validated,
	})
	hx.Register(&hx.Check{
		ID: "C05", Level: "model_checking",
		Rule:        "genuine proofs of entries at every in-twig position class, in trees of 2..9 (thorough 17) twigs; for each: every single bit flip, every serial number of the tree's range and every single high bit, every swap, removal, duplication, overwriting of 32-byte nodes by every other node / zeros / ones / null-subtree values, all prefixes and extensions; for parsing every length 0..1400 with 6 contents; accepted means parse and check succeed; an accepted string must be byte-identical to the genuine proof (or carry another root); a case is one altered string",
		Assumptions: []string{"SHA-256 has no collisions among the evaluated strings"},
		Items:       c05Items,
		Finish:      validated,
	})
}

func c04Fill(th bool) []hx.Item {
	var its []hx.Item
	fs := []fill{fillHot, fillTwo, fillAll, fillSlow}
	n := 60
	if th {
		n = 300
	}
	for _, f := range fs {
		for _, every := range []int{0, 1, 7} {
			f, every := f, every
			nn := n
			if every == 1 {
				nn = n / 2
			}
			its = append(its, hx.Item{Name: fmt.Sprintf("fill-%s-reopen%d", f.name, every), Run: func(c *hx.Ctx) {
				db := dbx.Fresh(false)
				defer func() { db.Done() }()
				m := dbx.NewModel()
				a := dbx.NewAudit()
				for i := 1; i <= nn; i++ {
					if c.TimeUp() {
						return
					}
					b := f.block(int64(i), i)
					db.Run(b)
					m.Apply(b)
					c.Add("transitions", 1)
					if every > 0 && i%every == 0 {
						if i%2 == 0 {
							db.Reopen()
						} else {
							db.ReopenNoClose()
						}
						c.Add("reopens", 1)
					}
					if err := a.Feed(db.W); err != nil {
						c.Fail(fmt.Sprintf("fill %s block %d", f.name, i), "%v", err)
					}
					if s := db.DiffProofs(m, a); s != "" {
						c.Fail(fmt.Sprintf("fill %s block %d, reopened every %d blocks", f.name, i, every), "%s", s)
					}
					c.Add("evaluations", int64(len(m.M)))
					c.Add("states", 1)
					c.Outcome(db.Root())
				}
			}})
		}
	}
	return its
}

// ---- C05 ----

func try(bz []byte) (ok bool, perr error, panicked interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	in := append([]byte{}, bz...)
	pp, err := datatree.BytesToProofPath(in)
	if err != nil {
		return false, err, nil
	}
	if err := pp.Check(true); err != nil {
		return false, err, nil
	}
	return true, nil, nil
}

// tree of n twigs; a few live entries at chosen positions of every twig.
func proofTree(nTwigs int, posList []int) (*dbx.TreeRig, []int64) {
	t := dbx.NewTreeRig(16384, 65536, "")
	live := map[int]bool{}
	for _, p := range posList {
		live[p] = true
	}
	var sns []int64
	for sn := int64(0); sn < int64(nTwigs-1)*2048+1100; sn++ {
		if live[int(sn%2048)] {
			t.Append(fmt.Sprintf("key%05d", sn), fmt.Sprintf("v%d", sn))
			sns = append(sns, sn)
		} else {
			t.Dummy()
		}
		if sn%512 == 511 && sn >= 2048 {
			t.EndBlock()
		}
	}
	t.EndBlock()
	return t, sns
}

func c05Items(th bool) []hx.Item {
	maxT := 9
	if th {
		maxT = 17
	}
	posList := []int{0, 1, 7, 255, 256, 511, 512, 1023, 1024, 1025, 1791, 2047}
	var its []hx.Item
	its = append(its, hx.Item{Name: "parse-lengths", Run: c05Parse})
	for n := 2; n <= maxT; n++ {
		n := n
		its = append(its, hx.Item{Name: fmt.Sprintf("alter-%dtwigs", n), Run: func(c *hx.Ctx) {
			t, sns := proofTree(n, posList)
			defer t.Done()
			c.Add("states", 1)
			// genuine proofs of every live entry, and of inactive ones
			proofs := map[int64][]byte{}
			for _, sn := range sns {
				bz, err := t.T.GetProofBytesAndCheck(sn, nil)
				if err != nil {
					c.Fail("", "no proof for %d: %v", sn, err)
				}
				proofs[sn] = bz
			}
			step := 1
			if !th {
				step = 1 + len(sns)/14
			}
			for i := 0; i < len(sns); i += step {
				if c.TimeUp() {
					return
				}
				c05One(c, n, sns[i], proofs[sns[i]], proofs[sns[(i+1)%len(sns)]])
			}
			// an entry that was never activated, and one that was deactivated
			for _, sn := range []int64{2, 2050, sns[len(sns)-1] + 1} {
				c05Inactive(c, t, sn)
			}
			t.T.DeactiviateEntry(sns[0])
			t.Dummy()
			t.EndBlock()
			c05Inactive(c, t, sns[0])
		}})
	}
	return its
}

func c05Inactive(c *hx.Ctx, t *dbx.TreeRig, sn int64) {
	bz, err := t.T.GetProofBytesAndCheck(sn, nil)
	if err != nil {
		return
	}
	off := 8 + 12*32
	if bz[off+int(sn&255)>>3]>>uint(sn&7)&1 == 1 {
		c.Fail("", "the proof of the inactive entry %d shows it as active", sn)
	}
	x := append([]byte{}, bz...)
	x[off+int(sn&255)>>3] |= 1 << uint(sn&7)
	if ok, _, p := try(x); ok || p != nil {
		c.Fail("", "inactive entry %d provable as active (panic: %v)", sn, p)
	}
	c.Eval("inactive", sn)
}

func c05One(c *hx.Ctx, nTwigs int, sn int64, bz, other []byte) {
	eval := func(x []byte, what string) {
		ok, _, p := try(x)
		c.Add("evaluations", 1)
		c.Add("transitions", 1)
		if p != nil {
			c.Fail(fmt.Sprintf("proof of entry %d in a tree of %d twigs, altered (%s): %x", sn, nTwigs, what, x), "checking an altered proof panics: %v", p)
		}
		if ok && !bytes.Equal(x, bz) {
			// acceptable only if it is a consistent proof for another root
			if _, _, _, r, msg := dbx.Verify(x); msg == "" && !bytes.Equal(r[:], bz[len(bz)-32:]) {
				return
			} else if msg != "" {
				what += "; " + msg
			}
			c.Fail(fmt.Sprintf("proof of entry %d in a tree of %d twigs: %x\naltered: %x", sn, nTwigs, bz, x), "an altered proof (%s) is accepted", what)
		}
	}
	if ok, err, p := try(bz); !ok {
		c.Fail("", "genuine proof of %d rejected: %v %v", sn, err, p)
	}
	nn := (len(bz) - 8) / 32
	node := func(b []byte, i int) []byte { return b[8+32*i : 8+32*i+32] }
	x := append([]byte{}, bz...)
	for i := range bz {
		for b := uint(0); b < 8; b++ {
			x[i] ^= 1 << b
			eval(x, fmt.Sprintf("bit %d of byte %d flipped", b, i))
			x[i] ^= 1 << b
		}
	}
	// every serial number in and around the tree's range
	up := nn - 17 - 1 + 1
	lim := int64(1) << uint(11+up+1)
	for s := int64(0); s < lim; s++ {
		if !c.Thorough && s%7 != sn%7 && s>>3 != sn>>3 {
			continue
		}
		for k := uint(0); k < 8; k++ {
			x[k] = byte(s >> (8 * k))
		}
		eval(x, fmt.Sprintf("serial number %d", s))
	}
	for k := uint(0); k < 8; k++ {
		x[k] = 0xff
	}
	eval(x, "serial number -1")
	copy(x, bz)
	null := datatree.NullTwig
	_ = null
	repl := [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), datatree.NullMT4Twig[1][:], datatree.NullMT4Twig[2048][:], datatree.NullNodeInHigherTree[13][:], datatree.NullNodeInHigherTree[14][:]}
	for i := 0; i < nn; i++ {
		for j := 0; j < nn; j++ {
			repl2 := node(bz, j)
			copy(node(x, i), repl2)
			eval(x, fmt.Sprintf("node %d overwritten by node %d", i, j))
			if j > i { // swap
				copy(node(x, j), node(bz, i))
				eval(x, fmt.Sprintf("nodes %d and %d swapped", i, j))
				copy(node(x, j), node(bz, j))
			}
			copy(node(x, i), node(bz, i))
		}
		for k, r := range repl {
			copy(node(x, i), r)
			eval(x, fmt.Sprintf("node %d overwritten by constant %d", i, k))
		}
		if len(other) == len(bz) {
			copy(node(x, i), node(other, i))
			eval(x, fmt.Sprintf("node %d of another proof", i))
		}
		copy(node(x, i), node(bz, i))
		// drop
		d := append(append([]byte{}, bz[:8+32*i]...), bz[8+32*i+32:]...)
		eval(d, fmt.Sprintf("node %d dropped", i))
		for k, r := range append(repl, node(bz, i), bz[len(bz)-32:]) {
			a := append(append(append([]byte{}, bz[:8+32*i]...), r...), bz[8+32*i:]...)
			eval(a, fmt.Sprintf("node inserted before %d (%d)", i, k))
		}
	}
	for n := 0; n < len(bz); n++ {
		eval(bz[:n], fmt.Sprintf("truncated to %d", n))
	}
	for n := 1; n <= 65; n++ {
		eval(append(append([]byte{}, bz...), make([]byte, n)...), fmt.Sprintf("%d zero bytes appended", n))
	}
	// in-memory form: every hash and direction flag
	c05Struct(c, nTwigs, sn, bz)
	c.Outcome(nTwigs, sn)
	c.Sample(fmt.Sprintf("%d twigs, entry %d, %d bytes", nTwigs, sn, len(bz)))
}

func c05Struct(c *hx.Ctx, nTwigs int, sn int64, bz []byte) {
	fresh := func() *datatree.ProofPath {
		pp, err := datatree.BytesToProofPath(append([]byte{}, bz...))
		if err != nil {
			c.Fail("", "genuine proof does not parse: %v", err)
		}
		if err := pp.Check(true); err != nil {
			c.Fail("", "genuine proof rejected: %v", err)
		}
		return pp
	}
	n := len(fresh().LeftOfTwig) + len(fresh().RightOfTwig) + len(fresh().UpperPath)
	nodeOf := func(pp *datatree.ProofPath, i int) *datatree.ProofNode {
		if i < 11 {
			return &pp.LeftOfTwig[i]
		}
		if i < 14 {
			return &pp.RightOfTwig[i-11]
		}
		return &pp.UpperPath[i-14]
	}
	check := func(pp *datatree.ProofPath, what string, okIf bool) {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("", "%s: panic %v", what, r)
			}
		}()
		c.Add("evaluations", 1)
		b, err := datatree.CheckProof(pp)
		if err == nil && !okIf {
			c.Fail(fmt.Sprintf("tree of %d twigs, entry %d, result %x", nTwigs, sn, b), "altered proof structure accepted: %s", what)
		}
	}
	for i := 0; i < n; i++ {
		for _, b := range []int{0, 31 * 8, 17*8 + 3} {
			pp := fresh()
			nodeOf(pp, i).SelfHash[b/8] ^= 1 << uint(b%8)
			check(pp, fmt.Sprintf("own hash of level %d", i), false)
			pp = fresh()
			nodeOf(pp, i).PeerHash[b/8] ^= 1 << uint(b%8)
			check(pp, fmt.Sprintf("sibling hash of level %d", i), false)
		}
		pp := fresh()
		nd := nodeOf(pp, i)
		nd.PeerAtLeft = !nd.PeerAtLeft
		check(pp, fmt.Sprintf("direction of level %d", i), nd.SelfHash == nd.PeerHash)
	}
	for b := uint(0); b < 64; b++ {
		pp := fresh()
		pp.SerialNum ^= 1 << b
		check(pp, fmt.Sprintf("bit %d of the serial number", b), false)
	}
	pp := fresh()
	pp.UpperPath = pp.UpperPath[:len(pp.UpperPath)-1]
	check(pp, "last level removed", false)
	pp = fresh()
	pp.UpperPath = append(pp.UpperPath, datatree.ProofNode{})
	check(pp, "level added", false)
	for b := 0; b < 256; b++ {
		pp = fresh()
		pp.Root[b/8] ^= 1 << uint(b%8)
		check(pp, fmt.Sprintf("bit %d of the claimed root", b), false)
	}
}

func c05Parse(c *hx.Ctx) {
	for n := 0; n <= 1400; n++ {
		for k := 0; k < 6; k++ {
			b := make([]byte, n)
			for i := range b {
				switch k {
				case 1:
					b[i] = 0xff
				case 2:
					b[i] = byte(i)
				case 3:
					b[i] = byte(i * 131)
				case 4:
					b[i] = 0x80
				case 5:
					if i < 8 {
						b[i] = 0xff
					}
				}
			}
			ok, err, p := try(b)
			c.Eval("len", n, err != nil)
			c.Add("transitions", 1)
			if p != nil {
				c.Fail(fmt.Sprintf("%d bytes %x", n, b), "parsing/checking %d bytes panics: %v", n, p)
			}
			if ok {
				c.Fail(fmt.Sprintf("%d bytes %x", n, b), "a made-up string of %d bytes is accepted as a proof", n)
			}
		}
	}
	c.Add("states", 1)
}

func mkProofs() *cmpr {
	return &cmpr{a: dbx.NewAudit(), f: func(a *dbx.Audit, db *dbx.DB, m *dbx.Model, b dbx.Block) string {
		if err := a.Feed(db.W); err != nil {
			return err.Error()
		}
		if s := db.DiffProofs(m, a); s != "" {
			return s
		}
		for _, o := range b.Ops {
			if _, ok := m.M[o.Key]; ok {
				continue
			}
			if _, _, err := db.A.GetProof([]byte(o.Key)); err == nil {
				return fmt.Sprintf("a proof is returned for absent key %x", o.Key)
			}
		}
		return ""
	}}
}

// c04Tree: in trees of several twigs, whose twig records lie at every alignment
// to the segment borders, every entry is proved.
func c04Tree(th bool) []hx.Item {
	var its []hx.Item
	nt := 5
	if th {
		nt = 11
	}
	for _, cfg := range [][2]int{{4096, 8192}, {4096, 16384}, {16384, 65536}, {16384, 81920}, {8192, 57344}} {
		for mode := 0; mode < 3; mode++ {
			cfg, mode := cfg, mode
			its = append(its, hx.Item{Name: fmt.Sprintf("tree-%d-%d", cfg[1], mode), Run: func(c *hx.Ctx) {
				t := dbx.NewTreeRig(cfg[0], cfg[1], "")
				defer t.Done()
				var sns []int64
				lag := int64(0) // deactivations follow the appends at this distance
				if mode == 1 {
					lag = 5
				} else if mode == 2 {
					lag = 300
				}
				live := map[int64]bool{}
				for t.SN < int64(nt)*2048+700 {
					sn := t.Append(fmt.Sprintf("k%05d", t.SN), fmt.Sprintf("v%d", t.SN%97))
					live[sn] = true
					if o := sn - lag; lag > 0 && live[o] && (mode == 2 || o%3 == 0) {
						delete(live, o)
						t.Deact(o)
					}
					if t.SN >= 2048 && sn%500 == 0 {
						t.EndBlock()
					}
				}
				for i := int64(0); i < t.SN; i++ {
					sns = append(sns, i)
				}
				t.EndBlock()
				for int64(len(sns)) < t.SN {
					sns = append(sns, int64(len(sns)))
				}
				tr := fmt.Sprintf("tree with segments of %d bytes, %d entries, deactivation pattern %d", cfg[1], t.SN, mode)
				if s := t.Audited(); s != "" {
					c.Fail(tr, "%s", s)
				}
				if s := t.DiffTree(sns, true); s != "" {
					c.Fail(tr, "%s", s)
				}
				c.Add("evaluations", int64(len(sns)))
				c.Add("states", 1)
				c.Outcome(t.Root)
			}})
		}
	}
	return its
}
