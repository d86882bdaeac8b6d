package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
	"verif.local/v/dbx"
	"verif.local/v/hx"
	"verif.local/w/vw"
)

func init() {
	hx.Register(&hx.Check{
		ID: "C13", Level: "model_checking",
		Rule:        "all entries whose key, value and next key are concatenations of up to 2 pieces each, and 3+2+1, 3+1+2, ..., 1+4+1 (thorough: 3+2+2, 3+3+1 in every order) pieces out of {marker, marker halves, marker without first/last byte, 'x', 0xff} with deactivation lists of 0, 1 and 3 numbers; all length triples up to a bound; lists of 0..255 numbers; each is written to a real entry file (small segments), read back in all four ways, scanned, re-stamped and written again; full twigs of such entries are scanned by the full and the light scanner and recovered; a case is one entry",
		Assumptions: []string{"one record fits the write buffer, as the code requires"},
		Items:       c13Items,
		Finish:      validated,
	})
	hx.Register(&hx.Check{
		ID: "C14", Level: "model_checking",
		Rule:        "every sequence of up to N operations (append of several sizes in one or two parts, flush, background flush, reopen, read everything through the read-ahead buffer, truncate to one of the last record boundaries, prune at a record boundary) on a real head-prunable file with tiny buffer/segment sizes; after the last operation every record is read back with and without read-ahead and sizes, offsets, segment files and durability are compared with a byte-sequence model; a case is one sequence",
		Assumptions: []string{"records are not larger than the write buffer, truncation happens on flushed data (as recovery does)"},
		Items:       c14Items,
		Finish:      validated,
	})
}

// ---- C14 ----

type rec struct {
	pos  int64
	data []byte
}

type hpModel struct {
	buf, blk int64
	recs     []rec
	size     int64
	pruned   int64 // everything below this position may be gone
	n        int
}

const (
	oApp   = iota // + size index
	oApp2  = 10   // two-part append
	oFlush = 20
	oBg    = 21
	oReop  = 22
	oRead  = 23
	oTrunc = 30 // + index from the end
	oPrune = 40 // + index
)

func opName(o int, sizes []int) string {
	switch {
	case o < oApp2:
		return fmt.Sprintf("append(%d)", sizes[o])
	case o < oFlush:
		return fmt.Sprintf("append(%d in two parts)", sizes[o-oApp2])
	case o == oFlush:
		return "flush"
	case o == oBg:
		return "bgflush+wait"
	case o == oReop:
		return "flush+reopen"
	case o == oRead:
		return "flush+read all with read-ahead"
	case o < oPrune:
		return fmt.Sprintf("flush+truncate to boundary -%d", o-oTrunc)
	}
	return fmt.Sprintf("prune at record %d of 3", o-oPrune)
}

func hpRun(c *hx.Ctx, buf, blk int, sizes []int, ops []int) {
	names := func() string {
		var s []string
		for _, o := range ops {
			s = append(s, opName(o, sizes))
		}
		return fmt.Sprintf("buffer %d segment %d: %s", buf, blk, strings.Join(s, "; "))
	}
	w := vw.New()
	defer w.Drop()
	w.MkdirIn("")
	w.MkdirIn("d")
	w.StartLog()
	dir := w.Root + "/d"
	f, err := datatree.NewHPFile(buf, blk, dir)
	if err != nil {
		c.Fail(names(), "open: %v", err)
	}
	defer func() { f.Close() }()
	f.InitPreReader()
	m := &hpModel{buf: int64(buf), blk: int64(blk)}
	mk := func(n int) []byte {
		m.n++
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(m.n*37 + i*11 + 1)
		}
		return b
	}
	readAll := func(withBuf bool) {
		for i := range m.recs {
			r := m.recs[i]
			if r.pos < m.pruned {
				continue
			}
			b := make([]byte, len(r.data))
			if err := f.ReadAt(b, r.pos, withBuf); err != nil {
				c.Fail(names(), "reading the record at %d (read-ahead %v): %v", r.pos, withBuf, err)
			}
			if !bytes.Equal(b, r.data) {
				c.Fail(names(), "record at %d (read-ahead %v) reads as %x, written %x", r.pos, withBuf, b, r.data)
			}
		}
	}
	app := func(parts [][]byte) {
		before := m.size
		pos, err := f.Append(parts)
		if err != nil {
			c.Fail(names(), "append: %v", err)
		}
		d := bytes.Join(parts, nil)
		if pos != before {
			c.Fail(names(), "append returned offset %d, the file had %d bytes", pos, before)
		}
		m.recs = append(m.recs, rec{pos, d})
		m.size += int64(len(d))
	}
	for _, o := range ops {
		switch {
		case o < oApp2:
			app([][]byte{mk(sizes[o])})
		case o < oFlush:
			d := mk(sizes[o-oApp2])
			k := len(d) * 2 / 3
			app([][]byte{d[:k], d[k:]})
		case o == oFlush:
			f.Flush()
		case o == oBg:
			f.StartFlushing()
			f.WaitForFlushing()
		case o == oReop:
			f.Flush()
			if err := f.Close(); err != nil {
				c.Fail(names(), "close: %v", err)
			}
			f, err = datatree.NewHPFile(buf, blk, dir)
			if err != nil {
				c.Fail(names(), "reopen: %v", err)
			}
			f.InitPreReader()
		case o == oRead:
			f.Flush()
			readAll(true)
		case o < oPrune:
			f.Flush()
			k := len(m.recs) - 1 - (o - oTrunc)
			if k < 0 || m.recs[k].pos < m.pruned {
				continue
			}
			// a segment that was pruned away cannot be truncated into
			p := m.recs[k].pos
			if err := f.Truncate(p); err != nil {
				c.Fail(names(), "truncate to %d: %v", p, err)
			}
			m.recs = m.recs[:k]
			m.size = p
		default:
			k := len(m.recs) * (o - oPrune + 1) / 4
			if len(m.recs) == 0 {
				continue
			}
			p := m.recs[k].pos
			if err := f.PruneHead(p); err != nil {
				c.Fail(names(), "prune at %d: %v", p, err)
			}
			if p > m.pruned {
				m.pruned = p
			}
		}
		if f.Size() != m.size {
			c.Fail(names(), "size %d, expected %d (after %s)", f.Size(), m.size, opName(o, sizes))
		}
	}
	f.Flush()
	readAll(false)
	readAll(true)
	for i := len(m.recs) - 1; i >= 0; i-- { // backwards: the read-ahead buffer must not be trusted blindly
		r := m.recs[i]
		if r.pos >= m.pruned {
			b := make([]byte, len(r.data))
			if err := f.ReadAt(b, r.pos, true); err != nil || !bytes.Equal(b, r.data) {
				c.Fail(names(), "record at %d reads (backwards) as %x %v, written %x", r.pos, b, err, r.data)
			}
		}
	}
	// segment files: consecutive, nothing at or above the prune point missing
	low := m.pruned / m.blk
	ns, _, _ := w.List("d")
	have := map[int64]bool{}
	for _, n := range ns {
		var id, bs int64
		fmt.Sscanf(n, "%d-%d", &id, &bs)
		have[id] = true
		if id < low {
			c.Fail(names(), "segment %d is still there after pruning below %d", id, m.pruned)
		}
	}
	for id := low; id <= m.size/m.blk; id++ {
		if !have[id] {
			c.Fail(names(), "segment %d is missing (size %d, pruned below %d)", id, m.size, m.pruned)
		}
	}
	// durability: no write after the last sync of its file
	pend := map[string]bool{}
	for _, e := range w.StopLog() {
		switch e.Kind {
		case vw.EvWrite:
			pend[e.Path] = true
		case vw.EvSync, vw.EvRemove:
			delete(pend, e.Path)
		case vw.EvTrunc:
			if e.Size == 0 {
				delete(pend, e.Path)
			}
		}
	}
	for p := range pend {
		c.Fail(names(), "after flush, data written to %s was not synced", p)
	}
	c.Add("transitions", int64(len(ops)))
	c.Add("evaluations", 1)
	c.Outcome(m.size, m.pruned, len(m.recs))
}

func c14Items(th bool) []hx.Item {
	type cfg struct {
		buf, blk int
		sizes    []int
	}
	cfgs := []cfg{{16, 32, []int{8, 16, 5}}, {16, 16, []int{12, 16}}, {16, 48, []int{16, 7}}}
	depth := 6
	if th {
		depth = 7
	}
	var its []hx.Item
	for _, cf := range cfgs {
		var al []int
		for i := range cf.sizes {
			al = append(al, oApp+i)
		}
		al = append(al, oApp2, oFlush, oBg, oReop, oRead, oTrunc, oTrunc+1, oTrunc+2, oPrune+1, oPrune+2)
		for _, o1 := range al {
			if o1 >= oFlush && o1 != oReop {
				continue // no effect on an empty file
			}
			for _, o2 := range al {
				cf, o1, o2 := cf, o1, o2
				its = append(its, hx.Item{Name: fmt.Sprintf("ops-%d-%d-%d-%d", cf.buf, cf.blk, o1, o2), Run: func(c *hx.Ctx) {
					ops := []int{o1, o2}
					var rec func(d int)
					rec = func(d int) {
						if c.TimeUp() {
							return
						}
						if d == 0 {
							hpRun(c, cf.buf, cf.blk, cf.sizes, ops)
							return
						}
						for _, o := range al {
							// a sequence must not end in plain flushes: they are implied
							if d == 1 && (o == oFlush || o == oBg) {
								continue
							}
							ops = append(ops, o)
							rec(d - 1)
							ops = ops[:len(ops)-1]
						}
					}
					for d := 0; d <= depth-2; d++ {
						if d == depth-2 || d < 2 {
							rec(d)
						}
					}
				}})
			}
		}
	}
	// long append runs: every record size pattern around the segment border
	for _, cf := range []cfg{{32, 64, nil}, {64, 128, nil}} {
		cf := cf
		its = append(its, hx.Item{Name: fmt.Sprintf("border-%d-%d", cf.buf, cf.blk), Run: func(c *hx.Ctx) {
			for a := 1; a <= cf.buf; a++ {
				for b := 1; b <= cf.buf; b++ {
					hpRun(c, cf.buf, cf.blk, []int{a, b}, []int{0, 1, oRead, 0, 1, 0, oBg, 1, 0, oReop, 0, 1, 1, oTrunc + 1, 0, 1, oPrune + 1, 0, oRead, 1})
				}
			}
			c.Add("states", 1)
		}})
	}
	return its
}

// ---- C13 ----

var mk13 = func() []string {
	M := string(datatree.MagicBytes[:])
	return []string{M, M[:4], M[4:], M[:7], M[1:], "x", "\xff\xff\xff\xff"}
}

func concats(n int) []string {
	p := mk13()
	res := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, a := range level {
			for _, b := range p {
				nx = append(nx, a+b)
			}
		}
		res = append(res, nx...)
		level = nx
	}
	return res
}

type entryRig struct {
	w  *vw.World
	f  datatree.EntryFile
	sn int64
}

func newEntryRig(buf, blk int) *entryRig {
	r := &entryRig{w: vw.New()}
	r.w.MkdirIn("")
	r.w.MkdirIn("e")
	f, err := datatree.NewEntryFile(buf, blk, r.w.Root+"/e")
	if err != nil {
		panic(err)
	}
	r.f = f
	return r
}

type wr struct {
	e   types.Entry
	sns []int64
	pos int64
}

func sameEntry(a, b *types.Entry) bool {
	return bytes.Equal(a.Key, b.Key) && bytes.Equal(a.Value, b.Value) && bytes.Equal(a.NextKey, b.NextKey) && a.Height == b.Height && a.LastHeight == b.LastHeight && a.SerialNum == b.SerialNum
}

func sameSN(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func es(e *types.Entry, sns []int64) string {
	return fmt.Sprintf("{key %x value %x next %x heights %d/%d sn %d deactivates %v}", e.Key, e.Value, e.NextKey, e.Height, e.LastHeight, e.SerialNum, sns)
}

// runEntries writes a batch, reads it back in every way, re-stamps every entry
// and writes it again.
func runEntries(c *hx.Ctx, buf, blk int, batch []wr) {
	r := newEntryRig(buf, blk)
	defer func() {
		r.f.Close()
		r.w.Drop()
	}()
	all := make([]wr, 0, 2*len(batch))
	put := func(x wr) {
		bz := datatree.EntryToBytes(x.e, x.sns)
		if p, err := dbx.ParseEntryBz(bz); err != nil || p.Key != string(x.e.Key) || p.Val != string(x.e.Value) || p.Next != string(x.e.NextKey) || p.H != x.e.Height || p.LH != x.e.LastHeight || p.SN != x.e.SerialNum || !sameSN(p.Deact, x.sns) {
			c.Fail("", "encoding of %s is %x, which decodes (independent decoder) as %+v %v", es(&x.e, x.sns), bz, p, err)
		}
		x.pos = r.f.Append([2][]byte{bz, nil})
		all = append(all, x)
	}
	for i := range batch {
		put(batch[i])
	}
	r.f.Flush()
	// re-stamp and append again, as compaction does
	for i := range batch {
		x := all[i]
		raw, _ := r.f.ReadEntryRawBytes(x.pos)
		if got := datatree.ExtractKeyFromRawBytes(raw); !bytes.Equal(got, x.e.Key) {
			c.Fail("", "key extracted from the raw bytes of %s is %x", es(&x.e, x.sns), got)
		}
		if got := datatree.ExtractSerialNum(raw); got != x.e.SerialNum {
			c.Fail("", "serial number extracted from the raw bytes of %s is %d", es(&x.e, x.sns), got)
		}
		y := x
		y.e.SerialNum = x.e.SerialNum + 1<<33 + 7
		y.sns = []int64{x.e.SerialNum, -1}[:1+i%2]
		datatree.UpdateSerialNum(raw, y.e.SerialNum)
		if datatree.ExtractSerialNum(raw) != y.e.SerialNum || !bytes.Equal(datatree.ExtractKeyFromRawBytes(raw), x.e.Key) {
			c.Fail("", "re-stamping %s does not give the new serial number and the same key", es(&x.e, x.sns))
		}
		raw[0] = byte(len(y.sns))
		y.pos = r.f.Append([2][]byte{raw, datatree.SNListToBytes(y.sns)})
		all = append(all, y)
	}
	r.f.Flush()
	pos := int64(0)
	for i := range all {
		x := &all[i]
		if x.pos != pos {
			c.Fail("", "entry %d is at %d, the scan expects it at %d", i, x.pos, pos)
		}
		e, sns, next := r.f.ReadEntryAndSNList(pos)
		if !sameEntry(e, &x.e) || !sameSN(sns, x.sns) {
			c.Fail("", "entry written as %s reads back as %s", es(&x.e, x.sns), es(e, sns))
		}
		if e2 := r.f.ReadEntry(pos); !sameEntry(e2, &x.e) {
			c.Fail("", "entry written as %s reads back (plain read) as %s", es(&x.e, x.sns), es(e2, nil))
		}
		raw, n2 := r.f.ReadEntryRawBytes(pos)
		if n2 != next {
			c.Fail("", "raw read and full read of %s disagree about the next position: %d %d", es(&x.e, x.sns), n2, next)
		}
		if k := datatree.ExtractKeyFromRawBytes(raw); !bytes.Equal(k, x.e.Key) {
			c.Fail("", "raw key of %s is %x", es(&x.e, x.sns), k)
		}
		pb := r.f.ReadEntryBytesForProof(pos)
		if p, err := dbx.ParseEntryBz(pb); err != nil || p.Key != string(x.e.Key) || p.Val != string(x.e.Value) || p.SN != x.e.SerialNum || !sameSN(p.Deact, x.sns) {
			c.Fail("", "proof bytes of %s decode as %+v %v", es(&x.e, x.sns), p, err)
		}
		if i < len(batch) && !bytes.Equal(pb, datatree.EntryToBytes(x.e, x.sns)) {
			c.Fail("", "proof bytes of %s differ from its encoding", es(&x.e, x.sns))
		}
		pos = next
	}
	if pos != r.f.Size() {
		c.Fail("", "scan ends at %d, the file at %d", pos, r.f.Size())
	}
	c.Add("transitions", int64(len(all)))
	c.Add("evaluations", int64(len(all)))
	c.Add("states", 1)
}

var heights = [][2]int64{{5, 4}, {255, 254}, {65534, 1}, {16776957, -1}, {-1, -1}, {1<<62 + 3, 9}, {0, 0}}

func c13Items(th bool) []hx.Item {
	var its []hx.Item
	snl := [][]int64{nil, {3}, {1 << 40, 0, int64(binary.LittleEndian.Uint64(datatree.MagicBytes[:]))}}
	two, one := concats(2), concats(1)
	mk := func(ks, vs, ns []string, tag string) {
		const parts = 8
		for p := 0; p < parts; p++ {
			p := p
			its = append(its, hx.Item{Name: fmt.Sprintf("pieces-%s-%d", tag, p), Run: func(c *hx.Ctx) {
				var batch []wr
				n := 0
				flush := func() {
					if len(batch) > 0 {
						runEntries(c, 1024, 2048, batch)
						batch = batch[:0]
					}
				}
				for ki, k := range ks {
					if ki%parts != p {
						continue
					}
					for _, v := range vs {
						if c.TimeUp() {
							return
						}
						for _, nx := range ns {
							h := heights[n%len(heights)]
							batch = append(batch, wr{e: types.Entry{Key: []byte(k), Value: []byte(v), NextKey: []byte(nx), Height: h[0], LastHeight: h[1], SerialNum: int64(n)}, sns: snl[n%3]})
							n++
							c.Outcome(k, v, nx)
							if len(batch) == 500 {
								flush()
							}
						}
					}
				}
				flush()
				c.Sample(fmt.Sprintf("%d entries, last key %x", n, ks[len(ks)-1]))
			}})
		}
	}
	three := concats(3)
	mk(two, two, two, "2-2-2")
	mk(three, two, one, "3-2-1")
	mk(one, three, two, "1-3-2")
	mk(two, one, three, "2-1-3")
	mk(one, concats(4), one, "1-4-1")
	if th {
		mk(three, two, two, "3-2-2")
		mk(two, three, two, "2-3-2")
		mk(two, two, three, "2-2-3")
		mk(three, three, one, "3-3-1")
		mk(one, three, three, "1-3-3")
		mk(three, one, three, "3-1-3")
	}
	its = append(its, hx.Item{Name: "lengths", Run: func(c *hx.Ctx) {
		lim := 12
		if th {
			lim = 26
		}
		M := strings.Repeat(string(datatree.MagicBytes[:]), 5)
		for k := 0; k < lim; k++ {
			var batch []wr
			for v := 0; v < lim; v++ {
				for n := 0; n < lim; n++ {
					for s := 0; s < 2; s++ {
						src := M
						if s == 1 {
							src = strings.Repeat("ab", 20)
						}
						batch = append(batch, wr{e: types.Entry{Key: []byte(src[:k]), Value: []byte(src[1 : 1+v]), NextKey: []byte(src[:n]), Height: 255, SerialNum: int64(len(batch))}})
					}
				}
			}
			for len(batch) > 0 {
				m := 400
				if m > len(batch) {
					m = len(batch)
				}
				runEntries(c, 1024, 1024, batch[:m])
				batch = batch[m:]
			}
			c.Outcome("len", k)
		}
	}})
	its = append(its, hx.Item{Name: "snlists", Run: func(c *hx.Ctx) {
		var batch []wr
		for n := 0; n < 256; n++ {
			var l []int64
			for i := 0; i < n; i++ {
				l = append(l, int64(i*i)<<uint(i%40))
			}
			for s, v := range []string{"plain", string(datatree.MagicBytes[:])} {
				batch = append(batch, wr{e: types.Entry{Key: []byte("k1234567"), Value: []byte(v), NextKey: []byte("k1234568"), Height: int64(n), SerialNum: int64(2*n + s)}, sns: l})
			}
			c.Outcome("sn", n)
		}
		runEntries(c, 4096, 8192, batch)
	}})
	its = append(its, hx.Item{Name: "bigvalues", Run: func(c *hx.Ctx) {
		for _, n := range []int{60000, 65535, 65536, 65537, 70001, 1 << 20} {
			v := bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
			copy(v[n-9:], datatree.MagicBytes[:])
			copy(v[n/2:], datatree.MagicBytes[:])
			runEntries(c, 1<<21, 1<<22, []wr{{e: types.Entry{Key: []byte("k"), Value: v, NextKey: []byte("n"), SerialNum: 1}}, {e: types.Entry{Key: []byte("k"), Value: v, NextKey: []byte("n"), SerialNum: 2}}})
			c.Outcome("big", n)
		}
	}})
	// whole twigs of marker-rich entries: both scanners and recovery
	parts := 2
	if th {
		parts = 8
	}
	for p := 0; p < parts; p++ {
		p := p
		its = append(its, hx.Item{Name: fmt.Sprintf("scan-%d", p), Run: func(c *hx.Ctx) { c13Scan(c, p, two) }})
	}
	return its
}

func c13Scan(c *hx.Ctx, part int, strs []string) {
	t := dbx.NewTreeRig(1024, 4096, fmt.Sprintf(".%d", part))
	defer t.Done()
	var all []wr
	n := part * 5000
	total := 3*2048 + 777
	for len(all) < total {
		sn := t.SN
		var e types.Entry
		if n%11 == 10 {
			e = *datatree.DummyEntry(sn)
		} else {
			// keys need one byte at least so that the light scan can route them
			e = types.Entry{Key: []byte(strs[1+n%(len(strs)-1)]), Value: []byte(strs[(n/len(strs))%len(strs)]), NextKey: []byte(strs[(n*31)%len(strs)]), Height: int64(n), LastHeight: int64(n) - 1, SerialNum: sn}
		}
		var l []int64
		if n%5 == 0 && sn > 2048 && string(all[sn-2000].e.Key) != "dummy" {
			t.T.DeactiviateEntry(sn - 2000)
			l = []int64{sn - 2000}
		}
		if n%13 == 0 && sn > 2048 && string(all[sn-1999].e.Key) != "dummy" && (n+1)%5 != 0 {
			t.T.DeactiviateEntry(sn - 1999)
			l = append(l, sn-1999)
		}
		pos := t.T.AppendEntry(&e)
		t.SN++
		all = append(all, wr{e, l, pos})
		n++
		if len(all)%1000 == 0 && len(all) > 2048 {
			t.EndBlock()
			for int64(len(all)) < t.SN {
				all = append(all, wr{*datatree.DummyEntry(t.SN - 1), nil, -1})
			}
		}
	}
	for t.T.DeactivedSNListSize() != 0 {
		t.EndBlock()
	}
	t.EndBlock()
	if s := t.Audited(); s != "" {
		c.Fail("", "%s", s)
	}
	for tw := int64(0); tw < 3; tw++ {
		ch := make(chan types.EntryX, 100)
		go t.T.ScanEntries(tw, ch)
		ch2 := make(chan types.KeyAndPos, 100)
		go t.T.ScanEntriesLite(tw, ch2)
		sn := tw * 2048
		for x := range ch {
			if sn >= t.SN {
				c.Fail("", "full scan returns more entries than written")
			}
			y, ok := <-ch2
			if !ok {
				c.Fail("", "light scan ends before entry %d", sn)
			}
			if x.Entry.SerialNum != sn || y.SerialNum != sn || x.Pos != y.Pos || !bytes.Equal(x.Entry.Key, y.Key) {
				c.Fail("", "scan from twig %d: full scan has entry %s at %d, light scan key %x sn %d at %d, expected serial number %d", tw, es(x.Entry, x.DeactivedSNList), x.Pos, y.Key, y.SerialNum, y.Pos, sn)
			}
			if sn < int64(len(all)) && all[sn].pos >= 0 {
				if a := all[sn]; !sameEntry(x.Entry, &a.e) || a.pos != x.Pos || !sameSN(a.sns, x.DeactivedSNList) {
					c.Fail("", "scan returns %s at %d, written %s at %d", es(x.Entry, x.DeactivedSNList), x.Pos, es(&a.e, a.sns), a.pos)
				}
			}
			sn++
			c.Add("evaluations", 1)
			c.Add("transitions", 1)
		}
		if _, ok := <-ch2; ok || sn != t.SN {
			c.Fail("", "scan from twig %d ends at entry %d (light scan has more: %v), written %d", tw, sn, ok, t.SN)
		}
	}
	t.T.Close()
	tr, root := datatree.RecoverTree(t.Buf, t.Blk, t.W.Root, t.Suffix, nil, -1, 0, t.SN/2048, nil)
	t.T = tr
	if root != t.Root {
		c.Fail("", "root after recovery %x, before %x", root, t.Root)
	}
	c.Outcome("scan", part)
}
