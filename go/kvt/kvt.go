// Package kvt explores the key-value wrapper against a plain map. It only uses
// the wrapper's API, so it runs on the real RocksDB and on the stand-in alike.
package kvt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
)

type KV interface {
	indextree.IKVDB
	Has(key []byte) bool
	Set(key, value []byte)
	SetSync(key, value []byte)
	Delete(key []byte)
	DeleteSync(key []byte)
}

var Keys = []string{"\x00", "\x00\x00", "\x01", "\x01\xff", "\xff\xff\xff"}
var bnds = []string{"\x00", "\x00\x00", "\x00\x00\x00", "\x01", "\x01\xff", "\x02", "\xff\xff\xff", "\xff\xff\xff\x00"}
var vals = []string{"a", "", "bb\x00", "\x00"}

type Op struct {
	Del bool
	Key string
	Val string
}

func (o Op) String() string {
	if o.Del {
		return fmt.Sprintf("del %x", o.Key)
	}
	return fmt.Sprintf("set %x=%x", o.Key, o.Val)
}

// An action is a direct write or a batch with an ending.
type Action struct {
	How int // 0 direct, 1 direct sync, 2 batch Write, 3 batch WriteSync, 4 current batch, 5 batch closed unwritten
	Ops []Op
}

func (a Action) String() string {
	n := []string{"direct", "direct-sync", "batch-write", "batch-write-sync", "current-batch", "batch-discarded"}
	return fmt.Sprintf("%s%v", n[a.How], a.Ops)
}

type Res struct {
	Seqs, Iters int64
	Fail        string
}

// actions over the given keys with batches up to n operations.
func actions(keys []string, n int) []Action {
	var ops []Op
	for i, k := range keys {
		ops = append(ops, Op{Key: k, Val: vals[i%len(vals)]}, Op{Key: k, Val: vals[(i+1)%len(vals)]}, Op{Del: true, Key: k})
	}
	var as []Action
	for i, o := range ops {
		as = append(as, Action{i % 2, []Op{o}})
	}
	var rec func(p []Op)
	rec = func(p []Op) {
		if len(p) > 1 || n == 1 && len(p) == 1 {
			for how := 2; how <= 5; how++ {
				as = append(as, Action{how, append([]Op{}, p...)})
			}
		}
		if len(p) == n {
			return
		}
		for _, o := range ops {
			rec(append(append([]Op{}, p...), o))
		}
	}
	rec(nil)
	return as
}

func do(db KV, m map[string]string, a Action) {
	var b types.Batch
	switch a.How {
	case 2, 3, 5:
		b = db.NewBatch()
	case 4:
		db.OpenNewBatch()
		b = db.CurrBatch()
	}
	for i, o := range a.Ops {
		switch {
		case a.How == 0 && !o.Del:
			db.Set([]byte(o.Key), []byte(o.Val))
		case a.How == 0:
			db.Delete([]byte(o.Key))
		case a.How == 1 && !o.Del:
			db.SetSync([]byte(o.Key), []byte(o.Val))
		case a.How == 1:
			db.DeleteSync([]byte(o.Key))
		default:
			if a.How == 4 {
				db.LockBatch()
			}
			if o.Del {
				b.Delete([]byte(o.Key))
			} else {
				// the caller may reuse its buffers
				k, v := []byte(o.Key), []byte(o.Val)
				b.Set(k, v)
				for j := range k {
					k[j] ^= 0x55
				}
				for j := range v {
					v[j] ^= 0x55
				}
			}
			if a.How == 4 {
				db.UnlockBatch()
			}
		}
		_ = i
	}
	switch a.How {
	case 2:
		b.Write()
	case 3:
		b.WriteSync()
	case 4:
		db.CloseOldBatch()
	case 5:
		b.Close()
		return
	}
	for _, o := range a.Ops {
		if o.Del {
			delete(m, o.Key)
		} else {
			m[o.Key] = o.Val
		}
	}
}

func bz(s *string) []byte {
	if s == nil {
		return nil
	}
	return []byte(*s)
}

// Diff compares the whole store with the map; full: every pair of bounds.
func Diff(db KV, m map[string]string, full bool, turn int, r *Res) string {
	for _, k := range append(append([]string{}, Keys...), "\x02", "\x01\x00") {
		v := db.Get([]byte(k))
		w, ok := m[k]
		if (v != nil) != ok || string(v) != w {
			return fmt.Sprintf("Get(%x) = %x (present %v), expected %x (present %v)", k, v, v != nil, w, ok)
		}
		if db.Has([]byte(k)) != ok {
			return fmt.Sprintf("Has(%x) = %v", k, !ok)
		}
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	bs := []*string{nil}
	for i := range bnds {
		bs = append(bs, &bnds[i])
	}
	for i, s := range bs {
		for j, e := range bs {
			if !full && (i*len(bs)+j)%7 != turn%7 {
				continue
			}
			for rev := 0; rev < 2; rev++ {
				r.Iters++
				if d := iter(db, m, ks, bz(s), bz(e), rev == 1); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

func iter(db KV, m map[string]string, ks []string, s, e []byte, rev bool) string {
	var want []string
	for _, k := range ks {
		if (s == nil || k >= string(s)) && (e == nil || k < string(e)) {
			want = append(want, k)
		}
	}
	if rev {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	name := fmt.Sprintf("iterator [%x (nil %v), %x (nil %v)) reverse %v", s, s == nil, e, e == nil, rev)
	var it types.Iterator
	if rev {
		it = db.ReverseIterator(s, e)
	} else {
		it = db.Iterator(s, e)
	}
	defer it.Close()
	if a, b := it.Domain(); !bytes.Equal(a, s) || !bytes.Equal(b, e) {
		return name + ": wrong domain"
	}
	for i, k := range want {
		if !it.Valid() {
			return fmt.Sprintf("%s ends after %d of %d keys", name, i, len(want))
		}
		if string(it.Key()) != k || string(it.Value()) != m[k] {
			return fmt.Sprintf("%s returns (%x,%x) at position %d, expected (%x,%x)", name, it.Key(), it.Value(), i, k, m[k])
		}
		it.Next()
	}
	if it.Valid() {
		return fmt.Sprintf("%s returns %x after its last key", name, it.Key())
	}
	if it.Valid() {
		return name + " becomes valid again"
	}
	return ""
}

// Explore runs part p of parts of all sequences: all pairs of actions with
// batches of two operations over 2 keys, all triples of short actions over 3.
// renew gives a new empty store (the old one is closed).
func Explore(renew func() KV, p, parts int, deep bool, stop func() bool) (r Res) {
	db := renew()
	defer func() { db.Close() }()
	age := 0
	clean := func() {
		if age++; age%1000 == 0 {
			db.Close()
			db = renew()
		}
		for _, k := range Keys {
			if db.Has([]byte(k)) {
				db.Delete([]byte(k))
			}
		}
	}
	run := func(full bool, as ...Action) bool {
		m := map[string]string{}
		for i, a := range as {
			do(db, m, a)
			if i < len(as)-1 {
				continue
			}
			if d := Diff(db, m, full, int(r.Seqs), &r); d != "" {
				r.Fail = fmt.Sprintf("%s\nafter %v", d, as)
				return false
			}
		}
		r.Seqs++
		clean()
		return true
	}
	long := actions([]string{Keys[0], Keys[2]}, 2)
	if deep {
		long = actions([]string{Keys[0], Keys[1], Keys[4]}, 2)
	}
	n := 0
	for i, a := range long {
		if i%parts == p && !run(true, a) {
			return
		}
		for j, b := range long {
			n++
			if n%parts != p {
				continue
			}
			if n%64 == 0 && stop() {
				return
			}
			if !run((i+j)%5 == 0, a, b) {
				return
			}
		}
	}
	short := actions([]string{Keys[1], Keys[3], Keys[4]}, 1)
	for _, a := range short {
		if stop() {
			return
		}
		for _, b := range short {
			for _, c := range short {
				n++
				if n%parts != p {
					continue
				}
				if !run(n%11 == 0, a, b, c) {
					return
				}
			}
		}
	}
	// every subset of the keys with every pair of bounds
	for set := 0; set < 1<<len(Keys); set++ {
		if set%parts != p {
			continue
		}
		var as []Action
		for i, k := range Keys {
			if set>>i&1 == 1 {
				as = append(as, Action{0, []Op{{Key: k, Val: vals[i%len(vals)]}}})
			}
		}
		if len(as) == 0 {
			as = append(as, Action{1, []Op{{Del: true, Key: Keys[0]}}})
		}
		if !run(true, as...) {
			return
		}
	}
	return
}

// Compacted writes index and foreign records, prunes and compacts: the dump
// must be the same on the real store and on the stand-in.
func Compacted(db KV, prune uint64, compact func()) string {
	var ks []string
	for _, first := range []byte{0, 1, 0x10, 0xff} {
		for _, h := range []uint64{0, 1, 5, 6, 255, 256, 1 << 40} {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], h)
			for _, mid := range []string{"", "k", "keykeyke"} {
				k := string([]byte{first}) + mid + string(b[:])
				ks = append(ks, k)
				v := []byte("v")
				if h%2 == 1 {
					v = []byte{}
				}
				db.Set([]byte(k), v)
			}
		}
		k := string([]byte{first, 1, 2})
		ks = append(ks, k)
		db.Set([]byte(k), []byte("short"))
	}
	db.SetPruneHeight(prune)
	compact()
	s := ""
	it := db.Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		s += fmt.Sprintf("%x=%x\n", it.Key(), it.Value())
	}
	return s
}
