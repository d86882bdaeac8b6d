package main

import (
	"fmt"
	"strings"

	"verif.local/v/dbx"
	"verif.local/v/hx"
)

func kk(b ...byte) string {
	var x [8]byte
	copy(x[:], b)
	return string(x[:])
}

type keySet struct {
	name string
	keys []string
}

// Key sets that force the interactions the code distinguishes: same shard and
// bucket, different shards, the two ends of the key space, the bucket and index
// channel borders, keys that differ in one byte only.
var keySets = []keySet{
	{"oneshard", []string{kk(0x40, 0, 0, 0, 0, 0, 0, 0x10), kk(0x40, 0, 0, 0, 0, 0, 0, 0x11), kk(0x40, 0, 0, 0, 0, 0, 0, 0x12), kk(0x40, 0, 0, 0, 0, 0, 0, 0x13), kk(0x40, 0, 0, 0, 0, 0, 0, 0x14)}},
	{"shards", []string{kk(0x40, 1, 0, 0, 0, 0, 0, 0x20), kk(0x40, 2, 0, 0, 0, 0, 0, 0xe0), kk(0x7f, 255, 0, 0, 0, 0, 0, 0x00), kk(0x80, 0, 0, 0, 0, 0, 0, 0x9f), kk(0xbf, 0, 0, 0, 0, 0, 0, 0x60)}},
	{"ends", []string{kk(0, 0, 0, 0, 0, 0, 0, 1), kk(0x3f, 255, 255, 255, 255, 255, 255, 255), kk(0xc0, 0, 0, 0, 0, 0, 0, 0), kk(255, 255, 255, 255, 255, 255, 255, 254), kk(0, 0, 0, 0, 0, 0, 1, 0)}},
	{"borders", []string{kk(0x43, 255, 255, 255, 255, 255, 255, 255), kk(0x44, 0, 0, 0, 0, 0, 0, 0), kk(0x4f, 0, 0, 0, 0, 0, 0, 0xff), kk(0x50, 0, 0, 0, 0, 0, 0, 0xff), kk(0x50, 0, 0, 0, 0, 0, 1, 0xff)}},
	{"marker", []string{kk(255, 254, 253, 252, 252, 253, 254, 255), kk(255, 254, 253, 252, 252, 253, 254, 254), kk(254, 255, 255, 255, 255, 255, 255, 255), kk(0x64, 0x75, 0x6d, 0x6d, 0x79, 0, 0, 0), kk(0x64, 0x75, 0x6d, 0x6d, 0x79, 0, 0, 1)}},
}

// value n of a walk: the sizes and contents cycle.
func val(n int) string {
	switch n % 7 {
	case 0:
		return fmt.Sprintf("v%d", n)
	case 1:
		return ""
	case 2:
		return fmt.Sprintf("w%d", n) + strings.Repeat("x", n%300)
	case 3:
		return "\xff\xfe\xfd\xfc\xfc\xfd\xfe\xff" + fmt.Sprint(n)
	case 4:
		return fmt.Sprint(n) + "\xff\xfe\xfd\xfc\xfc\xfd\xfe\xff\xff\xfe\xfd\xfc\xfc\xfd\xfe\xff"
	case 5:
		return strings.Repeat("\x00", n%9+1)
	}
	return fmt.Sprintf("u%d", n)
}

// per key choices in a block
const (
	cNone = iota
	cSet
	cDel
	cSetDel
	cDelSet
	cPrepU
	cPrepD
	nChoice
)

func pow(b, e int) int {
	r := 1
	for i := 0; i < e; i++ {
		r *= b
	}
	return r
}

func mkBlock(h int64, keys []string, nch, code int, n int) dbx.Block {
	b := dbx.Block{H: h}
	for i, k := range keys {
		v := val(n*len(keys) + i)
		switch code % nch {
		case cSet:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: v})
		case cDel:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
		case cSetDel:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: v}, dbx.Op{Kind: dbx.Del, Key: k})
		case cDelSet:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k}, dbx.Op{Kind: dbx.Set, Key: k, Val: v})
		case cPrepU:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.PrepU, Key: k})
		case cPrepD:
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.PrepD, Key: k})
		}
		code /= nch
	}
	return b
}

// moveTo makes the block that turns the current live set into mask.
func moveTo(h int64, m *dbx.Model, keys []string, mask int, n int) dbx.Block {
	b := dbx.Block{H: h}
	for i, k := range keys {
		_, live := m.M[k]
		want := mask>>uint(i)&1 == 1
		if want && !live {
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: k, Val: val(n + i)})
		} else if !want && live {
			b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Del, Key: k})
		}
	}
	return b
}

func maskOf(m *dbx.Model, keys []string) int {
	r := 0
	for i, k := range keys {
		if _, ok := m.M[k]; ok {
			r |= 1 << uint(i)
		}
	}
	return r
}

// walk executes, on one long-lived database, every transition (live subset,
// block choice) of its slice of the transition relation.
func walk(c *hx.Ctx, ks keySet, nk, nch, part, parts int, each func(db *dbx.DB, m *dbx.Model, b dbx.Block) string) {
	db := dbx.Fresh(false)
	defer db.Done()
	walkOn(c, db, ks, nk, nch, part, parts, each)
}

func walkOn(c *hx.Ctx, db *dbx.DB, ks keySet, nk, nch, part, parts int, each func(db *dbx.DB, m *dbx.Model, b dbx.Block) string) {
	keys := ks.keys[:nk]
	m := dbx.NewModel()
	nb := pow(nch, nk)
	todo := make([][]int, 1<<uint(nk))
	total := 0
	for s := range todo {
		for code := 0; code < nb; code++ {
			if (s*nb+code)%parts == part {
				todo[s] = append(todo[s], code)
				total++
			}
		}
	}
	h := int64(0)
	n := 0
	var last []dbx.Block
	step := func(b dbx.Block) {
		last = append(last, b)
		if len(last) > 6 {
			last = last[1:]
		}
		pre := fmt.Sprintf("live before the last block: mask %b of keys %x; blocks so far %d; last blocks:\n", maskOf(m, keys), keys, n)
		db.Run(b)
		m.Apply(b)
		n++
		if s := each(db, m, b); s != "" {
			c.Fail(pre+dbx.Trace(last), "after %s: %s", b, s)
		}
	}
	for total > 0 {
		if c.TimeUp() {
			return
		}
		s := maskOf(m, keys)
		if len(todo[s]) == 0 {
			t := 0
			for t = range todo {
				if len(todo[t]) > 0 {
					break
				}
			}
			h += int64(1 + n%3)
			step(moveTo(h, m, keys, t, n))
			c.Add("transitions", 1)
			continue
		}
		code := todo[s][len(todo[s])-1]
		todo[s] = todo[s][:len(todo[s])-1]
		total--
		h += int64(1 + n%3)
		b := mkBlock(h, keys, nch, code, n)
		step(b)
		c.Add("transitions", 1)
		c.Eval(s, maskOf(m, keys), code)
		if n == 100 {
			c.Sample(fmt.Sprintf("live mask %b, %s -> live mask %b", s, b, maskOf(m, keys)))
		}
	}
	c.Add("states", int64(len(todo))/int64(parts)+1)
}

func walkItems(thorough bool, mk func() *cmpr) []hx.Item {
	var its []hx.Item
	type sz struct{ nk, nch, parts int }
	szs := []sz{{4, cPrepU, 4}, {3, nChoice, 1}}
	if thorough {
		szs = []sz{{5, cPrepU, 40}, {4, nChoice, 16}}
	}
	for _, z := range szs {
		for p := 0; p < z.parts; p++ {
			for _, ks := range keySets {
				z, p, ks := z, p, ks
				its = append(its, hx.Item{Name: fmt.Sprintf("walk-%s-%dx%d-%d/%d", ks.name, z.nk, z.nch, p, z.parts), Run: func(c *hx.Ctx) {
					walk(c, ks, z.nk, z.nch, p, z.parts, mk().diff)
				}})
			}
		}
	}
	return its
}

func init() {
	common := "one long-lived real database (real files on an in-memory disk, real worker goroutines, compaction threshold lowered so that it runs) per slice; every transition (subset of the keys live) x (per key: untouched, set, deleted, set+deleted, deleted+set) of %s is executed once and the result compared; then edge blocks: from images whose log ends 8 records before a twig boundary (without and with compaction running), every first block of 0..12 rewrites x 0..3 deletions, second blocks of 5 sizes, with and without a restart between; and every number of deletions (1..260, thorough 1..520) by one block; and filling histories with compaction, churn, pruning, and a wide history (heights up to 2^62, value lengths 0..12000); a case is one executed block, distinct by (live set before, block, live set after)"
	hx.Register(&hx.Check{
		ID: "C01", Level: "model_checking",
		Rule:        fmt.Sprintf(common, "4 (thorough 5) keys, and, with the further choices prepared for update only and prepared for deletion only, of 3 (thorough 4) keys, for 5 key placements"),
		Assumptions: dbAssumptions,
		Items: func(th bool) []hx.Item {
			return append(walkItems(th, mkMap), edgeItems(th, mkMap)...)
		},
		Finish: validated,
	})
	hx.Register(&hx.Check{
		ID: "C02", Level: "model_checking",
		Rule:        fmt.Sprintf(common, "4 (thorough 5) keys, and, with the further choices prepared for update only and prepared for deletion only, of 3 (thorough 4) keys, for 5 key placements"),
		Assumptions: dbAssumptions,
		Items: func(th bool) []hx.Item {
			return append(walkItems(th, mkChain), edgeItems(th, mkChain)...)
		},
		Finish: validated,
	})
	hx.Register(&hx.Check{
		ID: "C03", Level: "model_checking",
		Rule:        fmt.Sprintf(common, "4 (thorough 5) keys, and, with the further choices prepared for update only and prepared for deletion only, of 3 (thorough 4) keys, for 5 key placements"),
		Assumptions: dbAssumptions,
		Items: func(th bool) []hx.Item {
			return append(walkItems(th, mkAudit), edgeItems(th, mkAuditDeep)...)
		},
		Finish: validated,
	})
}

var dbAssumptions = []string{
	"the in-memory file system and key-value store stand in for the operating system and RocksDB (the store's behaviour is compared with the real one by C20)",
	"sized constants (compaction threshold, kept twigs, segment and buffer size) are lowered by the build; code paths are the same",
	"callers follow the documented protocol: prepare, begin, set/delete, end; 8-byte keys",
}

func validated(cov map[string]interface{}, counts map[string]int64) {
	// the explored system is the implementation itself: every transition is an
	// executed block whose result is compared with the reference model
	cov["traces_validated_against_impl"] = counts["transitions"]
}

func auditDiff(a *dbx.Audit, db *dbx.DB, m *dbx.Model) string {
	if err := a.Feed(db.W); err != nil {
		return err.Error()
	}
	if s := a.DiffActive(m); s != "" {
		return s
	}
	if r := a.Root(); r != db.Root() {
		return fmt.Sprintf("root hash %x, recomputed from the files %x", db.Root(), r)
	}
	return ""
}

// mkAuditDeep also runs the library's own check of the tree in memory.
func mkAuditDeep() *cmpr {
	return &cmpr{a: dbx.NewAudit(), f: func(a *dbx.Audit, db *dbx.DB, m *dbx.Model, b dbx.Block) string {
		if s := auditDiff(a, db, m); s != "" {
			return s
		}
		if s := guard(db.A.CheckHashConsistency); s != "" {
			return "CheckHashConsistency rejects the state: " + s
		}
		return ""
	}}
}

// cmpr compares a database with the model; it may carry an audit of the files.
type cmpr struct {
	a *dbx.Audit
	f func(a *dbx.Audit, db *dbx.DB, m *dbx.Model, b dbx.Block) string
}

func (c *cmpr) diff(db *dbx.DB, m *dbx.Model, b dbx.Block) string { return c.f(c.a, db, m, b) }

func (c *cmpr) clone() *cmpr {
	n := &cmpr{f: c.f}
	if c.a != nil {
		n.a = c.a.Clone()
	}
	return n
}

func mkMap() *cmpr {
	var un []string
	for _, ks := range keySets {
		un = append(un, ks.keys...)
	}
	return &cmpr{f: func(a *dbx.Audit, db *dbx.DB, m *dbx.Model, b dbx.Block) string {
		u := un
		for _, o := range b.Ops {
			u = append(u, o.Key)
		}
		return db.DiffMap(m, u)
	}}
}

func mkChain() *cmpr {
	return &cmpr{f: func(a *dbx.Audit, db *dbx.DB, m *dbx.Model, b dbx.Block) string {
		if s := db.DiffChain(m); s != "" {
			return s
		}
		if s := guard(db.A.CheckConsistency); s != "" {
			return "CheckConsistency rejects a consistent state: " + s
		}
		return ""
	}}
}

func mkAudit() *cmpr {
	return &cmpr{a: dbx.NewAudit(), f: func(a *dbx.Audit, db *dbx.DB, m *dbx.Model, b dbx.Block) string { return auditDiff(a, db, m) }}
}
