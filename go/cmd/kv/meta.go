package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/metadb"
	"github.com/tecbot/gorocksdb"
	"verif.local/v/hx"
	"verif.local/v/kvt"
	"verif.local/w/vw"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C20", Level: "model_checking",
		Rule:        "metadata: every sequence of 3 (thorough 4) operations out of all setters x 3 shards x 2 values, commit and crash-reload, from a new store and from one whose serial numbers stand before a twig border; then commit, read everything of all shards, reload, read again; and one shard grown to 65577 twigs, every recorded height read, every third deleted, all read again. Wrapper: every pair of actions (direct, synced, 4 kinds of batch with every pair of operations) and every triple of one-operation actions, every subset of 5 prefix-related keys, against a map with Get, Has and both iterators over every pair of bounds; the same exploration on the real RocksDB and on the stand-in; a case is one sequence",
		Assumptions: []string{"a RocksDB write batch is atomic and, when synced, durable", "metadata is committed by Commit followed by closing the current batch, as the database does"},
		Items:       c20Items,
		Finish:      validated,
	})
}

func c20Items(th bool) []hx.Item {
	var its []hx.Item
	for base := 0; base < 2; base++ {
		for p := 0; p < 12; p++ {
			base, p := base, p
			its = append(its, hx.Item{Name: fmt.Sprintf("meta-base%d-%d", base, p), Run: func(c *hx.Ctx) { c20Meta(c, base, p, 12, th) }})
		}
	}
	for _, s := range []int{0, 7} {
		s := s
		its = append(its, hx.Item{Name: fmt.Sprintf("meta-many-twigs-%d", s), Run: func(c *hx.Ctx) { c20Twigs(c, s) }})
	}
	for p := 0; p < 8; p++ {
		p := p
		its = append([]hx.Item{{Name: fmt.Sprintf("kv-rocksdb-%d", p), Run: func(c *hx.Ctx) { c20Real(c, p, 8, th) }}}, its...)
		its = append(its, hx.Item{Name: fmt.Sprintf("kv-standin-%d", p), Run: func(c *hx.Ctx) { c20Fake(c, p, 8, th) }})
	}
	return its
}

func openKV(w *vw.World, n string) kvt.KV {
	w.MkdirIn("")
	kv, err := indextree.NewRocksDB(n, w.Root)
	if err != nil {
		panic(err)
	}
	return kv.(kvt.KV)
}

func c20Fake(c *hx.Ctx, p, parts int, th bool) {
	w := vw.New()
	defer w.Drop()
	n := 0
	r := kvt.Explore(func() kvt.KV { n++; return openKV(w, fmt.Sprint("x", n)) }, p, parts, th, c.TimeUp)
	c.Add("transitions", r.Seqs)
	c.Add("iterations", r.Iters)
	c.Add("states", r.Seqs)
	c.Add("evaluations", r.Seqs)
	c.Outcome("fake", p, r.Seqs)
	if r.Fail != "" {
		c.Fail(r.Fail, "%s", r.Fail)
	}
}

func c20Real(c *hx.Ctx, p, parts int, th bool) {
	bin := os.Getenv("VERIF_REAL")
	if bin == "" {
		c.Note("the real RocksDB build is not available: the wrapper was explored on the stand-in only")
		return
	}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "rocks")
	if err != nil {
		c.Note("no scratch directory: " + err.Error())
		return
	}
	defer os.RemoveAll(dir)
	args := []string{dir, strconv.Itoa(p), strconv.Itoa(parts), strconv.Itoa(int(c.Left().Seconds()))}
	if th {
		args = append(args, "deep")
	}
	cmd := exec.Command(bin, args...)
	var eb strings.Builder
	cmd.Stderr = &eb
	b, err := cmd.Output()
	var o struct {
		kvt.Res
		Dumps []string
		Done  bool
	}
	if err != nil || json.Unmarshal(b, &o) != nil {
		e := eb.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		c.Fail(e, "the exploration on the real RocksDB ended abnormally: %v", err)
	}
	if !o.Done {
		c.TimeUp()
	}
	c.Add("transitions", o.Seqs)
	c.Add("iterations", o.Iters)
	c.Add("states", o.Seqs)
	c.Add("evaluations", o.Seqs)
	c.Outcome("real", p, o.Seqs)
	if o.Fail != "" {
		c.Fail(o.Fail, "on the real RocksDB: %s", o.Fail)
	}
	for i, h := range []uint64{0, 1, 6, 256, 1 << 41} {
		if i >= len(o.Dumps) {
			break
		}
		w := vw.New()
		db := openKV(w, "c")
		d := kvt.Compacted(db, h, func() { db.(interface{ DB() *gorocksdb.DB }).DB().CompactRange(gorocksdb.Range{}) })
		if d != o.Dumps[i] {
			c.Note(fmt.Sprintf("compaction with prune height %d leaves different records on the real store and on the stand-in:\n%s---\n%s", h, o.Dumps[i], d))
		} else {
			c.Add("compactions_compared", 1)
		}
		db.Close()
		w.Drop()
	}
}

// ---- metadata ----

type mdl struct {
	height, prune int64
	mt, ent, last [8]int64
	maxSN, oldest [8]int64
	edge          [8]string
	root          [8][32]byte
	twig          [8][4]int64
}

func newMdl() *mdl {
	m := &mdl{prune: -1}
	for i := range m.last {
		m.last[i] = -1
		for j := range m.twig[i] {
			m.twig[i][j] = -1
		}
	}
	return m
}

type metaOp struct {
	name string
	do   func(db *metadb.MetaDB, m *mdl)
}

var metaShards = []int{0, 3, 7}

func metaOps() []metaOp {
	var ops []metaOp
	add := func(n string, f func(db *metadb.MetaDB, m *mdl)) { ops = append(ops, metaOp{n, f}) }
	for vi, v := range []int64{3, 1<<40 + 5} {
		v, vi := v, vi
		add(fmt.Sprintf("SetCurrHeight(%d)", v), func(db *metadb.MetaDB, m *mdl) { db.SetCurrHeight(v); m.height = v })
		add(fmt.Sprintf("SetPruneHeight(%d)", v-1), func(db *metadb.MetaDB, m *mdl) {
			db.SetPruneHeight(v - 1)
			if v-1 > m.prune {
				m.prune = v - 1
			}
		})
		for _, s := range metaShards {
			s := s
			v := v + int64(s)
			add(fmt.Sprintf("SetTwigMtFileSize(%d,%d)", s, v), func(db *metadb.MetaDB, m *mdl) { db.SetTwigMtFileSize(s, v); m.mt[s] = v })
			add(fmt.Sprintf("SetEntryFileSize(%d,%d)", s, v+1), func(db *metadb.MetaDB, m *mdl) { db.SetEntryFileSize(s, v+1); m.ent[s] = v + 1 })
			add(fmt.Sprintf("SetLastPrunedTwig(%d,%d)", s, v+2), func(db *metadb.MetaDB, m *mdl) { db.SetLastPrunedTwig(s, v+2); m.last[s] = v + 2 })
			e := strings.Repeat("edge", vi*9)
			add(fmt.Sprintf("SetEdgeNodes(%d,%d bytes)", s, len(e)), func(db *metadb.MetaDB, m *mdl) {
				b := []byte(e)
				db.SetEdgeNodes(s, b)
				for i := range b {
					b[i] = 'x'
				}
				m.edge[s] = e
			})
			var h [32]byte
			h[0], h[31] = byte(v), byte(vi+1)
			add(fmt.Sprintf("SetRootHash(%d,%x)", s, h), func(db *metadb.MetaDB, m *mdl) { db.SetRootHash(s, h); m.root[s] = h })
			t := vi + 1
			add(fmt.Sprintf("DeleteTwigHeight(%d,%d)", s, t), func(db *metadb.MetaDB, m *mdl) { db.DeleteTwigHeight(s, int64(t)); m.twig[s][t] = -1 })
			n := []int{1, 2047}[vi]
			add(fmt.Sprintf("IncrMaxSerialNum(%d) x %d", s, n), func(db *metadb.MetaDB, m *mdl) {
				for i := 0; i < n; i++ {
					db.IncrMaxSerialNum(s)
					m.maxSN[s]++
					if m.maxSN[s]%2048 == 0 && m.maxSN[s]/2048 < 4 {
						m.twig[s][m.maxSN[s]/2048] = m.height
					}
				}
			})
			if vi == 0 {
				add(fmt.Sprintf("IncrOldestActiveTwigID(%d)", s), func(db *metadb.MetaDB, m *mdl) { db.IncrOldestActiveTwigID(s); m.oldest[s]++ })
			}
		}
	}
	return ops
}

// diff compares; mem: only what is kept in memory.
func (m *mdl) diff(db *metadb.MetaDB, mem bool) string {
	ck := func(n string, s int, got, want interface{}) string {
		if got != want {
			return fmt.Sprintf("%s of shard %d is %v, expected %v", n, s, got, want)
		}
		return ""
	}
	if x := ck("CurrHeight", -1, db.GetCurrHeight(), m.height); x != "" {
		return x
	}
	for s := 0; s < 8; s++ {
		for _, x := range []string{
			ck("LastPrunedTwig", s, db.GetLastPrunedTwig(s), m.last[s]),
			ck("MaxSerialNum", s, db.GetMaxSerialNum(s), m.maxSN[s]),
			ck("YoungestTwigID", s, db.GetYoungestTwigID(s), m.maxSN[s]/2048),
			ck("OldestActiveTwigID", s, db.GetOldestActiveTwigID(s), m.oldest[s]),
			ck("RootHash", s, db.GetRootHash(s), m.root[s]),
		} {
			if x != "" {
				return x
			}
		}
		if mem {
			continue
		}
		for _, x := range []string{
			ck("TwigMtFileSize", s, db.GetTwigMtFileSize(s), m.mt[s]),
			ck("EntryFileSize", s, db.GetEntryFileSize(s), m.ent[s]),
			ck("EdgeNodes", s, string(db.GetEdgeNodes(s)), m.edge[s]),
			ck("height of twig 0", s, db.GetTwigHeight(s, 0), m.twig[s][0]),
			ck("height of twig 1", s, db.GetTwigHeight(s, 1), m.twig[s][1]),
			ck("height of twig 2", s, db.GetTwigHeight(s, 2), m.twig[s][2]),
			ck("height of twig 3", s, db.GetTwigHeight(s, 3), m.twig[s][3]),
		} {
			if x != "" {
				return x
			}
		}
	}
	if !mem {
		return ck("PruneHeight", -1, db.GetPruneHeight(), m.prune)
	}
	return ""
}

// c20Twigs: one shard grows to 65537+40 twigs, a commit every 4099 twigs; then every
// recorded height is read, every third one is deleted, and all are read again.
func c20Twigs(c *hx.Ctx, shard int) {
	w := vw.New()
	defer w.Drop()
	kv := openKV(w, "meta")
	db := metadb.NewMetaDB(kv)
	kv.OpenNewBatch()
	db.Init()
	const n = 1<<16 + 41
	want := make([]int64, n+1)
	commit := func() {
		db.Commit()
		kv.CloseOldBatch()
		kv.OpenNewBatch()
	}
	want[0] = db.GetTwigHeight(shard, 0)
	for t := int64(1); t <= n; t++ {
		h := t*3 + 1<<(uint(t)%48)
		db.SetCurrHeight(h)
		for i := 0; i < 2048; i++ {
			db.IncrMaxSerialNum(shard)
		}
		want[t] = h
		if t%4099 == 0 {
			commit()
		}
	}
	commit()
	check := func(when string) {
		for t, h := range want {
			if g := db.GetTwigHeight(shard, int64(t)); g != h {
				c.Fail(fmt.Sprintf("shard %d grown to %d twigs", shard, n), "%s: the height of twig %d of shard %d is %d, expected %d", when, t, shard, g, h)
			}
			c.Add("transitions", 1)
		}
		if g := db.GetTwigHeight((shard+1)%8, 5); g != -1 {
			c.Fail(fmt.Sprintf("shard %d grown to %d twigs", shard, n), "%s: the height of twig 5 of another shard is %d", when, g)
		}
	}
	check("after the commit")
	for t := 0; t < n; t += 3 {
		db.DeleteTwigHeight(shard, int64(t))
		want[t] = -1
	}
	commit()
	check("after deleting every third")
	kv.Close()
	kv = openKV(w, "meta")
	db = metadb.NewMetaDB(kv)
	db.ReloadFromKVDB()
	kv.OpenNewBatch()
	check("after a reload")
	if g := db.GetYoungestTwigID(shard); g != n {
		c.Fail("", "youngest twig of shard %d is %d, expected %d", shard, g, n)
	}
	kv.Close()
	c.Eval("many-twigs", shard)
}

func c20Meta(c *hx.Ctx, base, part, parts int, th bool) {
	depth := 3
	if th {
		depth = 4
	}
	ops := metaOps()
	n := len(ops) + 2
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	// the base store
	bw := vw.New()
	defer bw.Drop()
	bm := newMdl()
	{
		kv := openKV(bw, "meta")
		db := metadb.NewMetaDB(kv)
		kv.OpenNewBatch()
		db.Init()
		kv.CloseOldBatch()
		if base == 1 {
			kv.OpenNewBatch()
			for _, s := range metaShards {
				for i := 0; i < 2047; i++ {
					db.IncrMaxSerialNum(s)
				}
				bm.maxSN[s] = 2047
			}
			db.SetCurrHeight(1)
			bm.height = 1
			db.Commit()
			kv.CloseOldBatch()
		}
		kv.Close()
	}
	for code := 0; code < total; code++ {
		if code%n%parts != part {
			continue
		}
		if code%512 == 0 && c.TimeUp() {
			return
		}
		w := bw.Clone()
		kv := openKV(w, "meta")
		db := metadb.NewMetaDB(kv)
		db.ReloadFromKVDB()
		kv.OpenNewBatch()
		cur, com := *bm, *bm
		var desc []string
		fail := func(when, d string) { c.Fail(strings.Join(desc, "; "), "%s: %s", when, d) }
		reload := func() {
			kv.Close()
			kv = openKV(w, "meta")
			db = metadb.NewMetaDB(kv)
			db.ReloadFromKVDB()
			kv.OpenNewBatch()
		}
		commit := func() {
			db.Commit()
			kv.CloseOldBatch()
			com = cur
			kv.OpenNewBatch()
		}
		cc := code
		for i := 0; i < depth; i++ {
			o := cc % n
			cc /= n
			switch {
			case o < len(ops):
				desc = append(desc, ops[o].name)
				ops[o].do(db, &cur)
				if d := cur.diff(db, true); d != "" {
					fail("right after it", d)
				}
			case o == len(ops):
				desc = append(desc, "commit")
				commit()
				if d := cur.diff(db, false); d != "" {
					fail("after a commit", d)
				}
			default:
				desc = append(desc, "crash and reload")
				reload()
				cur = com
				if d := cur.diff(db, false); d != "" {
					fail("after a crash", d)
				}
			}
			c.Add("transitions", 1)
		}
		if code%2 == 0 {
			// the operations since the last commit are lost
			w2 := w.Clone()
			kv2 := openKV(w2, "meta")
			db2 := metadb.NewMetaDB(kv2)
			db2.ReloadFromKVDB()
			if d := com.diff(db2, false); d != "" {
				fail("reload without a commit", d)
			}
			kv2.Close()
			w2.Drop()
		}
		commit()
		if d := cur.diff(db, false); d != "" {
			fail("after the final commit", d)
		}
		if code%4 == 1 {
			db.ReloadFromKVDB()
		} else {
			reload()
		}
		if d := cur.diff(db, false); d != "" {
			fail("after the final commit and a reload", d)
		}
		kv.Close()
		w.Drop()
		c.Add("states", 1)
		c.Eval(base, code)
		if code == 12345 {
			c.Sample(strings.Join(desc, "; "))
		}
	}
}
