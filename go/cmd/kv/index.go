package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C15", Level: "model_checking",
		Rule:        "every operation sequence (set with two values, overwrite, delete) of depth 4 (thorough 5) over every 3-key set and every transition of 5-key sets whose keys share or cross the 16-bit slot, the slot ends and the key ends; trees of every size 0..64 (thorough 0..700) built in 4 orders in one slot and over many slots, then emptied in 4 orders; after every operation all lookups, the count and forward and reverse iteration over every pair of bounds around the keys; every 3-block history over 3 keys with foreign records rebuilt by Init; a case is one checked tree",
		Assumptions: []string{"keys are 8 bytes, values are positions 0..2^48-1", "the store behind Init is the in-memory stand-in of RocksDB"},
		Items:       c15Items,
		Finish:      validated,
	})
}

func validated(cov map[string]interface{}, counts map[string]int64) {
	cov["traces_validated_against_impl"] = counts["transitions"]
}

func bz(k uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], k)
	return b[:]
}

type idx struct {
	name string
	t    types.IndexTree
	m    map[uint64]int64
	h    int64
	log  string
}

func newIdx(kind string) *idx {
	x := &idx{name: kind, m: map[uint64]int64{}}
	if kind == "mock" {
		x.t = indextree.NewMockIndexTree()
	} else {
		x.t = indextree.NewNVTreeMem(nil)
	}
	return x
}

func (x *idx) set(k uint64, v int64) {
	x.h++
	x.t.BeginWrite(x.h)
	x.t.Set(bz(k), v)
	x.t.EndWrite()
	x.m[k] = v
	if len(x.log) < 2000 {
		x.log += fmt.Sprintf(" set(%016x,%d)", k, v)
	}
}

func (x *idx) del(k uint64) {
	x.h++
	x.t.BeginWrite(x.h)
	x.t.Delete(bz(k))
	x.t.EndWrite()
	delete(x.m, k)
	if len(x.log) < 2000 {
		x.log += fmt.Sprintf(" del(%016x)", k)
	}
}

func (x *idx) sorted() []uint64 {
	ks := make([]uint64, 0, len(x.m))
	for k := range x.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func bounds(ks []uint64) []uint64 {
	set := map[uint64]bool{0: true, math.MaxUint64: true}
	for _, k := range ks {
		set[k] = true
		set[k-1] = true
		set[k+1] = true
		set[k|0xffffffffffff] = true
		set[k&^0xffffffffffff] = true
	}
	var bs []uint64
	for b := range set {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	return bs
}

// walkDiff iterates [s,e) both ways; lim stops early (-1: to the end).
func (x *idx) walkDiff(ks []uint64, s, e uint64, lim int) string {
	lo := sort.Search(len(ks), func(i int) bool { return ks[i] >= s })
	hi := sort.Search(len(ks), func(i int) bool { return ks[i] >= e })
	if hi < lo {
		hi = lo
	}
	for dir := 0; dir < 2; dir++ {
		var it types.IteratorUI64
		if dir == 0 {
			it = x.t.Iterator(bz(s), bz(e))
		} else {
			it = x.t.ReverseIterator(bz(s), bz(e))
		}
		bad := ""
		n := hi - lo
		for i := 0; ; i++ {
			if i == lim {
				break
			}
			if !it.Valid() {
				if i != n {
					bad = fmt.Sprintf("ends after %d of %d keys", i, n)
				} else if s < e {
					it.Next() // stays at the end
					if it.Valid() {
						bad = "becomes valid again after its end"
					}
				}
				break
			}
			if i >= n {
				bad = fmt.Sprintf("returns %x after the last of %d keys", it.Key(), n)
				break
			}
			w := ks[lo+i]
			if dir == 1 {
				w = ks[hi-1-i]
			}
			if string(it.Key()) != string(bz(w)) || it.Value() != x.m[w] {
				bad = fmt.Sprintf("returns (%x,%d) at position %d, expected (%016x,%d)", it.Key(), it.Value(), i, w, x.m[w])
				break
			}
			if !it.Valid() {
				bad = "Valid changes without Next"
				break
			}
			it.Next()
		}
		if d1, d2 := it.Domain(); string(d1) != string(bz(s)) || string(d2) != string(bz(e)) {
			bad = "reports a wrong domain"
		}
		it.Close()
		if bad != "" {
			return fmt.Sprintf("%s: iterator (reverse %v) over [%016x,%016x) with %d keys in range %s", x.name, dir == 1, s, e, n, bad)
		}
	}
	return ""
}

// check compares everything; bounds pairs step over bs by the given strides.
func (x *idx) check(c *hx.Ctx, probe []uint64, sb, eb []uint64) {
	if n := x.t.ActiveCount(); n != len(x.m) {
		c.Fail(x.log, "%s: ActiveCount %d, expected %d", x.name, n, len(x.m))
	}
	for _, k := range probe {
		v, ok := x.t.Get(bz(k))
		w, has := x.m[k]
		if ok != has || (ok && v != w) {
			c.Fail(x.log, "%s: Get(%016x) = %d,%v, expected %d,%v", x.name, k, v, ok, w, has)
		}
	}
	ks := x.sorted()
	for _, s := range sb {
		for _, e := range eb {
			lim := -1
			if (s+e)%5 == 3 {
				lim = 2
			}
			if d := x.walkDiff(ks, s, e, lim); d != "" {
				c.Fail(x.log, "%s", d)
			}
		}
	}
	c.Add("iterations", int64(2*len(sb)*len(eb)))
	c.Add("states", 1)
}

// seeks starts forward iterators at and reverse iterators below every bound.
func (x *idx) seeks(c *hx.Ctx, bs []uint64, lim int) {
	ks := x.sorted()
	for _, b := range bs {
		if len(ks) == 0 {
			break
		}
		if d := x.walkDiff(ks, b, ks[len(ks)-1], lim); d != "" {
			c.Fail(x.log, "%s", d)
		}
		if d := x.walkDiff(ks, ks[0], b, lim); d != "" {
			c.Fail(x.log, "%s", d)
		}
	}
	c.Add("iterations", int64(4*len(bs)))
}

var keySets = [][]uint64{
	{0x4000000000000010, 0x4000000000000011, 0x4000000000000012, 0x4000000000000110, 0x400000000000ff10},
	{0x0000000000000000, 0x0000000000000001, 0x0000ffffffffffff, 0x0001000000000000, 0x0001000000000001},
	{0xffffffffffffffff, 0xfffffffffffffffe, 0xffff000000000000, 0xfffeffffffffffff, 0x0000000000000000},
	{0x1234000000000005, 0x1235000000000005, 0x1236000000000005, 0x7fff000000000005, 0x8000000000000005},
	{0x00ff00ff00ff00ff, 0xff00ff00ff00ff00, 0x0100000000000000, 0x0000010000000000, 0x0000000000000100},
}

var values = []int64{0, 1, 255, 256, 1<<16 - 1, 1 << 24, 1<<32 - 1, 1 << 32, 1<<40 + 7, 1<<47 - 1, 1 << 47, 1<<48 - 1}

func c15Items(th bool) []hx.Item {
	var its []hx.Item
	for si := range keySets {
		for _, kind := range []string{"nvtree", "mock"} {
			si, kind := si, kind
			if kind == "mock" && si%2 == 1 && !th {
				continue
			}
			its = append(its, hx.Item{Name: fmt.Sprintf("%s-transitions-set%d", kind, si), Run: func(c *hx.Ctx) { c15Walk(c, kind, keySets[si]) }})
			for a := 0; a < 3; a++ {
				a := a
				if kind == "mock" && !th {
					continue
				}
				its = append(its, hx.Item{Name: fmt.Sprintf("%s-sequences-set%d-%d", kind, si, a), Run: func(c *hx.Ctx) { c15Seq(c, kind, keySets[si][a:a+3], th) }})
			}
		}
	}
	max := 64
	if th {
		max = 700
	}
	for _, lay := range []string{"slot", "slots", "mixed"} {
		for o := 0; o < 4; o++ {
			for p := 0; p < 4; p++ {
				lay, o, p := lay, o, p
				its = append(its, hx.Item{Name: fmt.Sprintf("sizes-%s-%d-%d", lay, o, p), Run: func(c *hx.Ctx) { c15Size(c, lay, o, p, max) }})
			}
		}
	}
	if !th {
		for o := 0; o < 4; o++ {
			o := o
			its = append(its, hx.Item{Name: fmt.Sprintf("sizes-deep-%d", o), Run: func(c *hx.Ctx) { c15Size(c, "slot", o, (o+1)%4, 520) }})
		}
	}
	for si := range keySets {
		for p := 0; p < 3; p++ {
			si, p := si, p
			its = append(its, hx.Item{Name: fmt.Sprintf("init-set%d-%d", si, p), Run: func(c *hx.Ctx) { c15Init(c, keySets[si][:3], p, th) }})
		}
	}
	return its
}

// c15Walk takes every transition of the value graph {absent,v1,v2}^5 in one tree.
func c15Walk(c *hx.Ctx, kind string, keys []uint64) {
	x := newIdx(kind)
	defer x.t.Close()
	bs := bounds(keys)
	x.check(c, bs, bs, bs)
	// state code: base 3 digits; ops: key*3+target digit (different from the current)
	n := len(keys)
	total := 1
	for i := 0; i < n; i++ {
		total *= 3
	}
	done := map[int]bool{}
	cur := 0
	pw := make([]int, n)
	pw[0] = 1
	for i := 1; i < n; i++ {
		pw[i] = pw[i-1] * 3
	}
	apply := func(i, d int) {
		if d == 0 {
			x.del(keys[i])
		} else {
			x.set(keys[i], values[(i*2+d*5+int(x.h))%len(values)])
		}
		cur += (d - cur/pw[i]%3) * pw[i]
	}
	next := func(from int) (int, int, bool) {
		for i := 0; i < n; i++ {
			for d := 0; d < 3; d++ {
				if d == 0 && from/pw[i]%3 == 0 {
					continue // nothing to delete
				}
				if !done[(from*n+i)*3+d] {
					return i, d, true
				}
			}
		}
		return 0, 0, false
	}
	for steps := 0; ; steps++ {
		if steps%50 == 0 && c.TimeUp() {
			return
		}
		i, d, ok := next(cur)
		if !ok {
			// breadth-first search for the nearest state with work left
			type st struct{ code, from, i, d int }
			par := map[int]st{cur: {cur, -1, 0, 0}}
			q := []int{cur}
			goal := -1
			for len(q) > 0 && goal < 0 {
				f := q[0]
				q = q[1:]
				if _, _, ok := next(f); ok {
					goal = f
					break
				}
				for i := 0; i < n; i++ {
					for d := 0; d < 3; d++ {
						if o := f / pw[i] % 3; o == d {
							continue
						}
						g := f + (d-f/pw[i]%3)*pw[i]
						if _, seen := par[g]; !seen {
							par[g] = st{g, f, i, d}
							q = append(q, g)
						}
					}
				}
			}
			if goal < 0 {
				break
			}
			var path []st
			for g := goal; par[g].from >= 0; g = par[g].from {
				path = append(path, par[g])
			}
			for j := len(path) - 1; j >= 0; j-- {
				apply(path[j].i, path[j].d)
			}
			continue
		}
		done[(cur*n+i)*3+d] = true
		x.log = fmt.Sprintf("%s tree %v, last:", kind, x.m)
		apply(i, d)
		c.Add("transitions", 1)
		if steps%16 == 0 {
			x.check(c, bs, bs, bs)
		} else {
			x.check(c, bs, []uint64{0, keys[i]}, []uint64{keys[i], keys[(i+1)%n], math.MaxUint64})
			x.seeks(c, bs, -1)
		}
		c.Eval(kind, fmt.Sprint(keys), cur)
	}
	c.Sample(x.log)
}

// c15Seq runs every sequence on a fresh tree, checking after the last operation.
func c15Seq(c *hx.Ctx, kind string, keys []uint64, th bool) {
	depth := 4
	if th {
		depth = 5
	}
	bs := bounds(keys)
	var few []uint64
	for _, k := range keys {
		few = append(few, k, k+1)
	}
	nops := len(keys) * 3
	total := 1
	for i := 0; i < depth; i++ {
		total *= nops
	}
	for code := 0; code < total; code++ {
		if code%256 == 0 && c.TimeUp() {
			return
		}
		// validity first: deleting an absent key is a caller error
		live, ok, cc := 0, true, code
		for i := 0; i < depth; i++ {
			op := cc % nops
			cc /= nops
			if op%3 == 2 {
				if live>>(op/3)&1 == 0 {
					ok = false
					break
				}
				live &^= 1 << (op / 3)
			} else {
				live |= 1 << (op / 3)
			}
		}
		if !ok {
			continue
		}
		x := newIdx(kind)
		cc = code
		for i := 0; i < depth; i++ {
			op := cc % nops
			cc /= nops
			if op%3 == 2 {
				x.del(keys[op/3])
			} else {
				x.set(keys[op/3], values[(op+i*3)%len(values)])
			}
			c.Add("transitions", 1)
		}
		x.check(c, bs, nil, nil)
		switch code % 3 {
		case 0:
			x.check(c, nil, few, few)
		case 1:
			x.check(c, nil, []uint64{0, keys[0] + 1}, few)
		case 2:
			x.check(c, nil, few, []uint64{math.MaxUint64})
		}
		x.t.Close()
		c.Eval(kind, fmt.Sprint(keys), code)
	}
}

func c15Key(lay string, i int) uint64 {
	switch lay {
	case "slot":
		return 0x5000000000000000 + uint64(i)*3
	case "slots":
		return uint64(i)*0x0003000000000000 + 7
	}
	return 0x5000000000000000 + uint64(i%3)*0x0001000000000000 + uint64(i/3)*2
}

// order o of 0..n-1
func ord(o, n int) []int {
	r := make([]int, n)
	for i := range r {
		switch o {
		case 0:
			r[i] = i
		case 1:
			r[i] = n - 1 - i
		case 2: // from both ends
			if i%2 == 0 {
				r[i] = i / 2
			} else {
				r[i] = n - 1 - i/2
			}
		case 3: // odd ones, then even ones
			if 2*i+1 < n {
				r[i] = 2*i + 1
			} else {
				r[i] = 2 * (i - n/2)
			}
		}
	}
	return r
}

// c15Size grows a tree to max keys in order o and empties it in order p.
func c15Size(c *hx.Ctx, lay string, o, p, max int) {
	x := newIdx("nvtree")
	defer x.t.Close()
	var keys []uint64
	if lay == "slots" && max > 40 {
		max = 40
	}
	for i := 0; i < max; i++ {
		keys = append(keys, c15Key(lay, i))
	}
	all := bounds(keys)
	full := func(step, i int) {
		k := keys[i]
		if max > 100 && step%48 != 0 {
			j := (i + max - 1) % max
			near := []uint64{k, k + 1, keys[j], keys[j] + 1, keys[(i+1)%max]}
			x.check(c, near, nil, nil)
			x.seeks(c, near, 3)
			return
		}
		x.check(c, keys, nil, nil)
		x.check(c, nil, []uint64{0, k, k + 1}, []uint64{k, keys[(i+19)%max], math.MaxUint64})
		// every place to start from, a few steps each way
		x.seeks(c, all, 4)
		if step%16 == 5 && len(keys) <= 64 && lay == "slot" {
			x.check(c, nil, all, []uint64{k, keys[len(keys)/2]})
		}
	}
	for s, i := range ord(o, max) {
		if c.TimeUp() {
			return
		}
		x.set(keys[i], values[s%len(values)])
		c.Add("transitions", 1)
		full(s, i)
		c.Eval(lay, o, s)
	}
	for s, i := range ord(p, max) {
		if c.TimeUp() {
			return
		}
		x.del(keys[i])
		c.Add("transitions", 1)
		if s%3 == 1 && s > 5 {
			// an old neighbour comes back for a moment
			j := ord(p, max)[s-4]
			x.set(keys[j], values[(s+3)%len(values)])
			full(s, j)
			x.del(keys[j])
		}
		full(s, i)
		c.Eval(lay, o, p, "d", s)
	}
	x.check(c, all, []uint64{0}, []uint64{math.MaxUint64})
}

// c15Init: every history of 3 blocks (thorough 4) over 3 keys in the
// persistent store, surrounded by records of other kinds, rebuilt by Init.
func c15Init(c *hx.Ctx, keys []uint64, part int, th bool) {
	depth := 3
	if th {
		depth = 4
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= 27
	}
	bs := bounds(keys)
	for code := 0; code < total; code++ {
		if code%3 != part {
			continue
		}
		if code%64 == 0 && c.TimeUp() {
			return
		}
		w := vw.New()
		w.MkdirIn("")
		kv, err := indextree.NewRocksDB("idx", w.Root)
		if err != nil {
			c.Fail("", "%v", err)
		}
		x := &idx{name: "rebuilt", m: map[uint64]int64{}}
		t := indextree.NewNVTreeMem(kv)
		cc, ok := code, true
		desc := ""
		for b := 0; b < depth && ok; b++ {
			ht := int64(b*b*200 + 1)
			kv.OpenNewBatch()
			if code%2 == 0 {
				kv.CurrBatch().Set([]byte{0x10}, []byte("12345678"))
				kv.CurrBatch().Set([]byte{0x13, 1, 0, 0, 0, 0, 0, 0, 0, 0}, []byte("12345678"))
				kv.CurrBatch().Set([]byte{0x01}, []byte{})
			}
			t.BeginWrite(ht)
			for i, k := range keys {
				switch cc % 3 {
				case 1:
					v := values[(code+i+b*3)%len(values)]
					t.Set(bz(k), v)
					x.m[k] = v
					desc += fmt.Sprintf(" %d:set %d=%d", ht, i, v)
				case 2:
					if _, live := x.m[k]; !live {
						ok = false
					} else {
						t.Delete(bz(k))
						delete(x.m, k)
						desc += fmt.Sprintf(" %d:del %d", ht, i)
					}
				}
				cc /= 3
			}
			t.EndWrite()
			kv.CloseOldBatch()
			c.Add("transitions", 1)
		}
		t.Close()
		if ok {
			x.log = desc
			c.Trace(desc)
			n := indextree.NewNVTreeMem(kv)
			calls := 0
			ended := make(chan error, 1)
			go func() { ended <- n.Init(func([]byte) { calls++ }) }()
			select {
			case err := <-ended:
				if err != nil {
					c.Fail(desc, "Init: %v", err)
				}
			case <-time.After(40 * time.Second):
				c.Fail(desc, "Init of a store with a dozen records does not return within 40 s")
			}
			x.t = n
			x.check(c, bs, []uint64{0, keys[0], keys[1] + 1}, []uint64{keys[1], keys[2], math.MaxUint64})
			// and it goes on as a tree
			kv.OpenNewBatch()
			x.set(keys[0], 77)
			x.set(keys[2], 78)
			x.del(keys[0])
			kv.CloseOldBatch()
			x.check(c, bs, []uint64{0}, []uint64{math.MaxUint64})
			n.Close()
			c.Eval("init", fmt.Sprint(keys), code)
		}
		kv.Close()
		w.Drop()
	}
}
