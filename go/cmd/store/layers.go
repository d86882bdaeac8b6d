package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/types"
	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vmap"
)

func kk(b ...byte) string {
	var x [8]byte
	copy(x[:], b)
	return string(x[:])
}

// three keys in one shard (next to each other), one in another shard between them
var lkeys = []string{
	kk(0x50, 0, 0, 0, 0, 0, 0, 0x21), kk(0x50, 0, 0, 0, 0, 0, 1, 0x22), kk(0x50, 0, 0, 0, 0, 0, 2, 0xa1), kk(0x50, 0, 0, 0, 0, 0, 3, 0x23), kk(0xd0, 0, 0, 0, 0, 0, 0, 0x24),
}

type opKind int

const (
	oSet opKind = iota
	oSet2
	oEmpty  // Set with an empty value: reads as deleted
	oDel    // Delete
	oFail   // a transaction that prepares, but is never written back
	oSetDel // one transaction with Set then Delete
	oDelSet // one transaction with Delete then Set
	nKinds
)

func (k opKind) String() string {
	return [...]string{"set", "set'", "setempty", "del", "failed-tx", "set+del", "del+set"}[k]
}

type lop struct {
	k opKind
	i int
}

func (o lop) String() string { return fmt.Sprintf("%v(k%d)", o.k, o.i) }

type ending int

const (
	eClose ending = iota // Close(true)
	eWB                  // WriteBack, then keep reading, then Close(false)
	eSync                // hand the content to SyncUpdateTo, Close(false)
	eDrop                // Close(false)
	eRO                  // read-only store, Close(false)
	eROBad               // read-only store, Close(true) must be refused
	nEnds
)

func (e ending) String() string {
	return [...]string{"Close(true)", "WriteBack", "SyncUpdateTo", "Close(false)", "read-only Close(false)", "read-only Close(true)"}[e]
}

// preds: which keys the root caches
var preds = []struct {
	name string
	f    func(k []byte) bool
}{
	{"all", func([]byte) bool { return true }},
	{"nil", nil},
	{"some", func(k []byte) bool { return k[7]&1 == 1 }},
	{"none", func([]byte) bool { return false }},
}

type lenv struct {
	c    *hx.Ctx
	db   *dbx.DB
	root *store.RootStore
	pred func(k []byte) bool
	keys []string
	com  map[string]string // committed
	vers map[int64]map[string]string
	h    int64
	n    int
	tr   []string
	mock *store.MockRootStore
}

func newEnv(c *hx.Ctx, hist bool, keys []string, pred func([]byte) bool) *lenv {
	e := &lenv{c: c, keys: keys, com: map[string]string{}, pred: pred, h: 0, vers: map[int64]map[string]string{}}
	e.db = dbx.Fresh(hist)
	e.newRoot()
	return e
}

func newMockEnv(c *hx.Ctx, keys []string) *lenv {
	return &lenv{c: c, keys: keys, com: map[string]string{}, mock: store.NewMockRootStore()}
}

func (e *lenv) newRoot() {
	e.root = store.NewRootStore(e.db.A, e.pred)
	e.root.SetHeight(e.h)
}

func (e *lenv) done() {
	if e.db != nil {
		e.db.Done()
	}
}

func (e *lenv) st() types.RootStoreI {
	if e.mock != nil {
		return e.mock
	}
	return e.root
}

func (e *lenv) fail(f string, a ...interface{}) {
	e.c.Fail(strings.Join(e.tr, "; "), f, a...)
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func same(got []byte, want string) bool {
	if want == "" {
		return len(got) == 0
	}
	return string(got) == want
}

// readRoot compares the committed store with the model; under the cache as well.
func (e *lenv) readRoot(when string) {
	for i, k := range e.keys {
		want := e.com[k]
		for r := 0; r < 2; r++ {
			v := e.st().Get([]byte(k))
			if !same(v, want) {
				e.fail("%s: root reads k%d as %q, committed is %q (read %d)", when, i, v, want, r)
			}
			scribble(v)
		}
		if e.mock == nil {
			ent := e.db.A.GetEntry([]byte(k))
			if want == "" && ent != nil {
				e.fail("%s: k%d is still in the database with value %q", when, i, ent.Value)
			}
			if want != "" && (ent == nil || string(ent.Value) != want) {
				e.fail("%s: database entry of k%d is not the committed value %q", when, i, want)
			}
		}
	}
	if n := len(e.com); e.mock == nil && e.root.ActiveCount() != n+2 {
		e.fail("%s: active count %d, expected %d live keys and 2 guards", when, e.root.ActiveCount(), n)
	}
}

func (e *lenv) rootHash() string {
	if e.mock != nil {
		return ""
	}
	return string(e.root.GetRootHash())
}

func (e *lenv) trunk(ro bool) *store.TrunkStore {
	if ro && e.mock == nil {
		return e.root.GetReadOnlyTrunkStore(10).(*store.TrunkStore)
	}
	return e.st().GetTrunkStore(10).(*store.TrunkStore)
}

// tx applies one operation to a trunk and to the overlay model ("" = deleted).
func (e *lenv) tx(t *store.TrunkStore, o lop, ov map[string]string) {
	k := e.keys[o.i]
	kb := []byte(k)
	e.n++
	set := func(v string) func(db types.SetDeleter) {
		return func(db types.SetDeleter) {
			a, b := []byte(k), []byte(v)
			db.Set(a, b)
			scribble(a)
			scribble(b)
		}
	}
	v := fmt.Sprintf("v%d", e.n)
	switch o.k {
	case oSet:
		t.PrepareForUpdate(kb)
		t.Update(set(v))
		ov[k] = v
	case oSet2:
		v += strings.Repeat("z", 40)
		t.PrepareForUpdate(kb)
		t.Update(set(v))
		ov[k] = v
	case oEmpty:
		t.PrepareForUpdate(kb)
		t.PrepareForDeletion(kb)
		t.Update(set(""))
		ov[k] = ""
	case oDel:
		t.PrepareForDeletion(kb)
		t.Update(func(db types.SetDeleter) { db.Delete([]byte(k)) })
		ov[k] = ""
	case oFail:
		t.PrepareForUpdate(kb)
		t.PrepareForDeletion(kb)
	case oSetDel:
		t.PrepareForUpdate(kb)
		t.PrepareForDeletion(kb)
		t.Update(func(db types.SetDeleter) { set(v)(db); db.Delete([]byte(k)) })
		ov[k] = ""
	case oDelSet:
		t.PrepareForDeletion(kb)
		t.PrepareForUpdate(kb)
		t.Update(func(db types.SetDeleter) { db.Delete([]byte(k)); set(v)(db) })
		ov[k] = v
	}
}

func (e *lenv) readTrunk(t *store.TrunkStore, ov map[string]string, when string) {
	for i, k := range e.keys {
		want, ok := ov[k]
		if !ok {
			want = e.com[k]
		}
		for r := 0; r < 2; r++ {
			v := t.Get([]byte(k))
			if !same(v, want) {
				e.fail("%s: block store reads k%d as %q, expected %q (read %d)", when, i, v, want, r)
			}
			if want == "" && v != nil && ok {
				e.fail("%s: deleted k%d reads as present (empty)", when, i)
			}
			scribble(v)
		}
	}
}

// block runs ops in a trunk with an ending and compares everything.
func (e *lenv) block(ops []lop, end ending) {
	e.tr = append(e.tr, fmt.Sprintf("%v %v", ops, end))
	if len(e.tr) > 14 {
		e.tr = e.tr[len(e.tr)-14:]
	}
	h0 := e.rootHash()
	ro := end == eRO || end == eROBad
	t := e.trunk(ro)
	other := e.trunk(true) // a store opened before the block's commit
	ov, oov := map[string]string{}, map[string]string{}
	if e.mock == nil {
		e.tx(other, lop{oSet, len(e.keys) - 1}, oov)
	}
	for _, o := range ops {
		e.tx(t, o, ov)
		e.readTrunk(t, ov, fmt.Sprintf("after %v", o))
	}
	e.readTrunk(other, oov, "other store before commit")
	e.readRoot("before the end of the block")
	commit := func() {
		for k, v := range ov {
			if v == "" {
				delete(e.com, k)
			} else {
				e.com[k] = v
			}
		}
		if e.mock == nil {
			s := map[string]string{}
			for k, v := range e.com {
				s[k] = v
			}
			e.vers[e.h] = s
		}
	}
	e.st().SetHeight(e.h)
	switch end {
	case eClose:
		t.Close(true)
		commit()
	case eWB:
		t.WriteBack()
		commit()
		e.readTrunk(t, ov, "after WriteBack")
		t.Close(false)
	case eSync:
		if len(t.GetCacheContent()) != len(ov) || t.CacheSize() != len(ov) {
			e.fail("cache content has %d entries (size %d), the block touched %d", len(t.GetCacheContent()), t.CacheSize(), len(ov))
		}
		m := t.GetCacheContent()
		t.Close(false)
		store.SyncUpdateTo(m, e.st())
		commit()
	case eDrop, eRO:
		t.Close(false)
	case eROBad:
		func() {
			defer func() {
				if recover() == nil {
					e.fail("writing back a read-only store was accepted")
				}
			}()
			t.Close(true)
		}()
		t.Close(false)
	}
	if end >= eDrop {
		if e.rootHash() != h0 {
			e.fail("the root changed although nothing was written back")
		}
	} else {
		e.h++
	}
	e.readRoot("after " + end.String())
	e.readTrunk(other, oov, "other store after "+end.String())
	other.Close(false)
	e.c.Add("transitions", 1)
	e.c.Outcome(fmt.Sprint(ops, end), stateOf(e.com))
}

func stateOf(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

// moveTo brings the committed live set to mask through root.Update.
func (e *lenv) moveTo(mask int, nk int) {
	var ops []lop
	for i := 0; i < nk; i++ {
		_, live := e.com[e.keys[i]]
		if want := mask>>uint(i)&1 == 1; want != live {
			o := oDel
			if want {
				o = oSet
			}
			ops = append(ops, lop{o, i})
		}
	}
	if len(ops) == 0 {
		return
	}
	e.tr = append(e.tr, fmt.Sprintf("root.Update%v", ops))
	e.direct(ops)
}

// direct writes through RootStore.Update.
func (e *lenv) direct(ops []lop) {
	e.st().SetHeight(e.h)
	for _, o := range ops {
		if o.k == oDel {
			e.st().PrepareForDeletion([]byte(e.keys[o.i]))
		} else {
			e.st().PrepareForUpdate([]byte(e.keys[o.i]))
		}
	}
	e.st().Update(func(db types.SetDeleter) {
		for _, o := range ops {
			k := e.keys[o.i]
			if o.k == oDel {
				db.Delete([]byte(k))
				delete(e.com, k)
			} else {
				e.n++
				v := fmt.Sprintf("d%d", e.n)
				db.Set([]byte(k), []byte(v))
				e.com[k] = v
			}
		}
	})
	e.h++
}

func allOps(nk int, kinds []opKind) []lop {
	var r []lop
	for i := 0; i < nk; i++ {
		for _, k := range kinds {
			r = append(r, lop{k, i})
		}
	}
	return r
}

// seqs calls f for every sequence of ops of length 0..n.
func seqs(ops []lop, n int, f func([]lop)) {
	var cur []lop
	var rec func(d int)
	rec = func(d int) {
		f(cur)
		if d == 0 {
			return
		}
		for _, o := range ops {
			cur = append(cur, o)
			rec(d - 1)
			cur = cur[:len(cur)-1]
		}
	}
	rec(n)
}

func layerItems(thorough bool) []hx.Item {
	var its []hx.Item
	kinds := []opKind{oSet, oSet2, oEmpty, oDel, oFail, oSetDel, oDelSet}
	// every live set x every operation sequence x every ending, on the real database
	depth := 2
	keysA := []string{lkeys[0], lkeys[2], lkeys[1]}
	for pi := range preds {
		for mask := 0; mask < 8; mask++ {
			for end := ending(0); end < nEnds; end++ {
				pi, mask, end := pi, mask, end
				if !thorough && pi > 0 && end != eClose && end != eWB {
					continue
				}
				its = append(its, hx.Item{Name: fmt.Sprintf("overlay %s live=%03b %v", preds[pi].name, mask, end), Run: func(c *hx.Ctx) {
					e := newEnv(c, false, keysA, preds[pi].f)
					defer e.done()
					first := -1
					ops := allOps(3, kinds)
					if end >= eDrop {
						e.moveTo(mask, 3)
					}
					d := depth
					if thorough && end >= eDrop {
						d = 3
					}
					seqs(ops, d, func(s []lop) {
						if c.TimeUp() {
							return
						}
						e.moveTo(mask, 3)
						e.block(s, end)
						c.Add("states", 1)
					})
					_ = first
					e.reopen()
					c.Eval("done", pi, mask, int(end))
					c.Sample(fmt.Sprintf("live set %03b, all %d-operation blocks ended by %v", mask, d, end))
				}})
			}
		}
	}
	// evictions: blocks of one write each, over keys of one shard, all sequences
	cacheK := []string{lkeys[0], lkeys[1], lkeys[3], lkeys[4]}
	depthC := 4
	for pi := 0; pi < 3; pi += 2 {
		for mode := 0; mode < 4; mode++ {
			for f := 0; f < 9; f++ {
				pi, mode, f := pi, mode, f
				if thorough {
					depthC = 5
				}
				its = append(its, hx.Item{Name: fmt.Sprintf("eviction %s order=%d first=%d", preds[pi].name, mode, f), Run: func(c *hx.Ctx) {
					defer atomic.StoreInt32(&vmap.Mode, 0)
					atomic.StoreInt32(&vmap.Mode, int32(mode))
					e := newEnv(c, false, cacheK, preds[pi].f)
					defer e.done()
					var cur []int
					step := func(x int) {
						i := x / 2
						if x%2 == 0 {
							e.block([]lop{{oSet, i}}, eClose)
						} else {
							e.block([]lop{{oDel, i}}, eWB)
						}
					}
					last := e.tr
					var rec func(d int)
					rec = func(d int) {
						if c.TimeUp() {
							return
						}
						if d == 0 {
							// start over: a new root store has an empty cache
							e.moveTo(0, 4)
							e.newRoot()
							e.tr = append(last[:0:0], "fresh root store")
							for _, x := range cur {
								step(x)
							}
							c.Add("states", 1)
							return
						}
						for x := 0; x < 8; x++ {
							if len(cur) == 0 && x != f {
								continue
							}
							cur = append(cur, x)
							rec(d - 1)
							cur = cur[:len(cur)-1]
						}
					}
					if f == 8 { // long single run: fills and evicts many times
						for r := 0; r < 60; r++ {
							step((r*5 + r/7) % 8)
						}
					} else {
						rec(depthC)
					}
					e.reopen()
					c.Eval("evict", pi, mode, f)
				}})
			}
		}
	}
	// two and three blocks with restarts and history
	for b1 := 0; b1 < 12; b1++ {
		b1 := b1
		its = append(its, hx.Item{Name: fmt.Sprintf("history first=%d", b1), Run: func(c *hx.Ctx) {
			two := []opKind{oSet, oDel, oEmpty, oFail}
			ops := allOps(3, two)
			e := newEnv(c, true, keysA, preds[0].f)
			defer e.done()
			for x := 0; x < len(ops); x++ {
				for y := 0; y < len(ops); y++ {
					if c.TimeUp() {
						return
					}
					if !thorough && (x+y)%2 == 1 {
						continue
					}
					e.block([]lop{ops[b1]}, eClose)
					e.block([]lop{ops[x]}, ending(y%3))
					e.block([]lop{ops[y]}, eDrop)
					e.block([]lop{ops[y], ops[x]}, eSync)
					e.checkHistory()
				}
				e.reopen()
				e.checkHistory()
			}
			c.Eval("history", b1)
		}})
	}
	// mock root: deeper sequences, two blocks
	for f := 0; f < 21; f++ {
		f := f
		its = append(its, hx.Item{Name: fmt.Sprintf("mock first=%d", f), Run: func(c *hx.Ctx) {
			ops := allOps(3, kinds)
			n := 2
			if thorough {
				n = 3
			}
			e := newMockEnv(c, []string{lkeys[0], lkeys[1], lkeys[3]}) // one shard: the mock root is not safe for parallel write-back
			for mask := 0; mask < 8; mask++ {
				seqs(ops, n, func(s []lop) {
					if c.TimeUp() {
						return
					}
					for _, end := range []ending{eClose, eWB, eSync, eDrop} {
						e.moveTo(mask, 3)
						e.block(append([]lop{ops[f]}, s...), end)
						c.Add("states", 1)
					}
				})
			}
			c.Eval("mock", f)
		}})
	}
	return its
}

func (e *lenv) reopen() {
	if e.mock != nil {
		return
	}
	e.db.Reopen()
	e.newRoot()
	e.readRoot("after a restart")
}

func (e *lenv) checkHistory() {
	t := e.trunk(true)
	defer t.Close(false)
	from := e.h - 5
	if from < 0 {
		from = 0
	}
	for h := from; h < e.h; h++ {
		s, ok := e.vers[h]
		if !ok {
			continue
		}
		for i, k := range e.keys {
			if v := t.GetAtHeight([]byte(k), uint64(h)); !same(v, s[k]) {
				e.fail("k%d at height %d reads %q, was %q", i, h, v, s[k])
			}
			if v := e.root.GetAtHeight([]byte(k), uint64(h)); !same(v, s[k]) {
				e.fail("k%d at height %d reads %q through the root, was %q", i, h, v, s[k])
			}
		}
	}
}

func init() {
	hx.Register(&hx.Check{
		ID:    "C16",
		Level: "model_checking",
		Rule: "All live sets of 3 keys (two in one shard) x all operation sequences up to length 2 (set, set to empty, delete, failed transaction, set+delete, delete+set) in one block store x all endings (Close(true), WriteBack, SyncUpdateTo, Close(false), read-only stores) x cacheability predicates; all sequences of 4 single-write blocks over 4 keys of one shard with a root cache of 2 entries and 4 eviction orders; multi-block histories with restarts and height lookups; deeper sequences on the mock root. " +
			"After every operation every key is read twice through the block store, a second open store, the root store and the database itself; returned slices are overwritten by the reader. A state is a (live set, sequence) pair, a transition one block.",
		Assumptions: []string{
			"a client prepares a key for deletion before it deletes or empties it, and prepares keys before the write-back begins, as the interface demands",
			"root cache limit and eviction distance reduced to 1 and 2 by constant substitution; map iteration orders ascending, descending and rotations",
		},
		Items: layerItems,
	})
}
