package main

import (
	"encoding/binary"
	"fmt"

	"verif.local/v/dbx"
	"verif.local/w/vw"
)

// A fill is a deterministic history that gives some shards many twigs.
type fill struct {
	name   string
	perSh  int   // keys per shard
	shards []int // which shards get keys
	every  int   // each block rewrites keys with index%every==block%every (1: all)
	keep   int   // the first keep keys of a shard are only written in the first block
}

func (f fill) key(sh, i int) string {
	var b [8]byte
	// spread over the buckets and index channels, last byte selects the shard
	binary.BigEndian.PutUint64(b[:], uint64(i+1)*0x9e3779b97f4a7c15)
	b[0] = byte(0x30 + (i*7+sh*3)%0xa0)
	b[6] = byte(i)
	b[7] = byte(sh*32 + i%32)
	return string(b[:])
}

func (f fill) keys() []string {
	var ks []string
	for _, s := range f.shards {
		for i := 0; i < f.perSh; i++ {
			ks = append(ks, f.key(s, i))
		}
	}
	return ks
}

// block number n (from 1) of the fill.
func (f fill) block(h int64, n int) dbx.Block {
	b := dbx.Block{H: h}
	for _, s := range f.shards {
		for i := 0; i < f.perSh; i++ {
			if n == 1 || (i >= f.keep && (f.every <= 1 || i%f.every == n%f.every)) {
				b.Ops = append(b.Ops, dbx.Op{Kind: dbx.Set, Key: f.key(s, i), Val: fmt.Sprintf("f%d-%d-%d", n, s, i)})
			}
		}
	}
	return b
}

type filled struct {
	w    *vw.World
	m    *dbx.Model
	hist []dbx.Block
}

var fillCache = map[string]*filled{}

// get runs blocks 1..n of the fill on a new database (heights 1..n) and caches
// the machine's image; prefix images of the same fill are extended.
func (f fill) get(hist bool, n int) *filled {
	key := fmt.Sprintf("%s-%v-%d", f.name, hist, n)
	if c := fillCache[key]; c != nil {
		return c
	}
	db := dbx.Fresh(hist)
	m := dbx.NewModel()
	r := &filled{}
	for i := 1; i <= n; i++ {
		b := f.block(int64(i), i)
		db.Run(b)
		m.Apply(b)
		r.hist = append(r.hist, b)
	}
	r.w = db.W.Clone()
	r.m = m
	db.Done()
	fillCache[key] = r
	return r
}

func (r *filled) open(hist bool) (*dbx.DB, *dbx.Model) {
	return dbx.Open(r.w.Clone(), hist), r.m.Clone()
}

var (
	// one shard, entries of few hot keys plus cold keys that compaction must move
	fillHot  = fill{name: "hot", perSh: 300, shards: []int{0}, every: 1, keep: 40}
	fillTwo  = fill{name: "two", perSh: 150, shards: []int{1, 6}, every: 1, keep: 10}
	fillAll  = fill{name: "all", perSh: 60, shards: []int{0, 1, 2, 3, 4, 5, 6, 7}, every: 1, keep: 5}
	fillSlow = fill{name: "slow", perSh: 200, shards: []int{2}, every: 4, keep: 20}
)
