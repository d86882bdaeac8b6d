package dbx

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"verif.local/w/vw"
)

// The auditor rebuilds every shard's Merkle tree from the bytes of the entry
// files and the deactivation lists in them; it shares no code with moeingads.

const twigLeaves = 2048

var magic = []byte{255, 254, 253, 252, 252, 253, 254, 255}

type hsh = [32]byte

func hash2(level int, a, b []byte) (r hsh) {
	buf := make([]byte, 0, 1+len(a)+len(b))
	buf = append(buf, byte(level))
	buf = append(buf, a...)
	buf = append(buf, b...)
	return sha256.Sum256(buf)
}

var (
	nullLeaf     hsh
	nullLeft     [12]hsh // null subtree of the leaf tree with its top at level i
	nullTwigRoot hsh
	nullHigh     [64]hsh
)

func init() {
	// the null entry: three empty strings, three -1 integers, no serial numbers
	b := make([]byte, 0, 64)
	b = append(b, 0, 0, 0, 0)
	pl := make([]byte, 0)
	pl = append(pl, 255, 255, 255, 255)                 // no marker positions
	pl = append(pl, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) // three empty strings
	for i := 0; i < 24; i++ {
		pl = append(pl, 255)
	}
	b[1] = byte(len(pl))
	nullLeaf = sha256.Sum256(append(b, pl...))
	nullLeft[0] = nullLeaf
	for i := 1; i < 12; i++ {
		nullLeft[i] = hash2(i-1, nullLeft[i-1][:], nullLeft[i-1][:])
	}
	var zero [256]byte
	act := actRoot(zero[:])
	nullTwigRoot = hash2(11, nullLeft[11][:], act[:])
	nullHigh[13] = hash2(12, nullTwigRoot[:], nullTwigRoot[:])
	for i := 14; i < 64; i++ {
		nullHigh[i] = hash2(i-1, nullHigh[i-1][:], nullHigh[i-1][:])
	}
}

func actRoot(a []byte) hsh {
	var l1 [4]hsh
	for i := range l1 {
		l1[i] = hash2(8, a[64*i:64*i+32], a[64*i+32:64*i+64])
	}
	var l2 [2]hsh
	for i := range l2 {
		l2[i] = hash2(9, l1[2*i][:], l1[2*i+1][:])
	}
	return hash2(10, l2[0][:], l2[1][:])
}

type Rec struct {
	Key, Val, Next string
	H, LH, SN      int64
	Pos            int64
	Raw            []byte // bytes after the marker, without padding
	Deact          []int64
}

type twig struct {
	leaves [twigLeaves]hsh
	n      int
	act    [256]byte
	left   hsh
	root   hsh
	dirtyL bool
	dirtyA bool
	pos    int64 // of the first record
	maxH   int64 // largest height of a record
	live   int
}

type Shard struct {
	ID     int
	dir    string
	bs     int64
	pos    int64
	nextSN int64
	twigs  []*twig
	Active map[int64]*Rec // active entries by serial number
	Moved  int            // deactivations seen
	Dummy  int
}

func NewShard(dir string, id int) *Shard {
	return &Shard{ID: id, dir: dir, Active: map[int64]*Rec{}, twigs: []*twig{newTwig()}}
}

func newTwig() *twig {
	t := &twig{dirtyL: true, dirtyA: true}
	for i := range t.leaves {
		t.leaves[i] = nullLeaf
	}
	return t
}

type segs struct {
	bs   int64
	ids  []int64
	data map[int64][]byte
}

func readSegs(w *vw.World, dir string, from int64) (*segs, error) {
	s := &segs{data: map[int64][]byte{}}
	names, _, ok := w.List(dir)
	if !ok {
		return nil, fmt.Errorf("no directory %s", dir)
	}
	for _, n := range names {
		p := strings.Split(n, "-")
		if len(p) != 2 {
			return nil, fmt.Errorf("bad file name %s", n)
		}
		id, e1 := strconv.ParseInt(p[0], 10, 64)
		bs, e2 := strconv.ParseInt(p[1], 10, 64)
		if e1 != nil || e2 != nil {
			return nil, fmt.Errorf("bad file name %s", n)
		}
		s.bs = bs
		s.ids = append(s.ids, id)
		if (id+1)*bs > from {
			s.data[id] = w.Bytes(dir + "/" + n)
		}
	}
	sort.Slice(s.ids, func(i, j int) bool { return s.ids[i] < s.ids[j] })
	for i := 1; i < len(s.ids); i++ {
		if s.ids[i] != s.ids[i-1]+1 {
			return nil, fmt.Errorf("segment files of %s are not consecutive: %v", dir, s.ids)
		}
	}
	return s, nil
}

// FirstPos is the position of the first byte a segmented file still holds.
func FirstPos(w *vw.World, dir string) int64 {
	s, err := readSegs(w, dir, math.MaxInt64)
	if err != nil || len(s.ids) == 0 {
		return 0
	}
	return s.ids[0] * s.bs
}

func (s *segs) end() int64 {
	l := s.ids[len(s.ids)-1]
	return l*s.bs + int64(len(s.data[l]))
}

func (s *segs) at(pos int64, n int) ([]byte, error) {
	id := pos / s.bs
	off := pos % s.bs
	d, ok := s.data[id]
	if !ok {
		return nil, fmt.Errorf("no segment %d for position %d", id, pos)
	}
	if off+int64(n) > int64(len(d)) {
		return nil, fmt.Errorf("position %d +%d is beyond the end of segment %d (%d bytes)", pos, n, id, len(d))
	}
	return d[off : off+int64(n)], nil
}

// parse reads one record.
func (s *segs) parse(pos int64) (*Rec, int64, error) {
	h, err := s.at(pos, 12)
	if err != nil {
		return nil, 0, err
	}
	if string(h[:8]) != string(magic) {
		return nil, 0, fmt.Errorf("no record marker at %d: %x", pos, h[:8])
	}
	nsn := int(h[8])
	ln := int(h[9]) | int(h[10])<<8 | int(h[11])<<16
	tot := 12 + ln + 8*nsn
	b, err := s.at(pos, tot)
	if err != nil {
		return nil, 0, err
	}
	r := &Rec{Pos: pos, Raw: append([]byte(nil), b[8:]...)}
	pl := append([]byte(nil), b[12:]...)
	i := 0
	for {
		if i+4 > ln {
			return nil, 0, fmt.Errorf("marker list at %d does not end", pos)
		}
		p := binary.LittleEndian.Uint32(pl[i:])
		i += 4
		if p == 0xffffffff {
			break
		}
		if int(p)+12 > len(pl) {
			return nil, 0, fmt.Errorf("marker position %d at %d", p, pos)
		}
		// positions are relative to the end of the length field, plus the list's end mark
		copy(pl[int(p)+4:], magic)
	}
	str := func() (string, error) {
		if i+4 > ln {
			return "", fmt.Errorf("short record at %d", pos)
		}
		n := int(binary.LittleEndian.Uint32(pl[i:]))
		i += 4
		if i+n > ln {
			return "", fmt.Errorf("short record at %d", pos)
		}
		x := string(pl[i : i+n])
		i += n
		return x, nil
	}
	if r.Key, err = str(); err != nil {
		return nil, 0, err
	}
	if r.Val, err = str(); err != nil {
		return nil, 0, err
	}
	if r.Next, err = str(); err != nil {
		return nil, 0, err
	}
	if i+24 != ln {
		return nil, 0, fmt.Errorf("record at %d: %d bytes left for the integers", pos, ln-i)
	}
	r.H = int64(binary.LittleEndian.Uint64(pl[i:]))
	r.LH = int64(binary.LittleEndian.Uint64(pl[i+8:]))
	r.SN = int64(binary.LittleEndian.Uint64(pl[i+16:]))
	for j := 0; j < nsn; j++ {
		r.Deact = append(r.Deact, int64(binary.LittleEndian.Uint64(pl[ln+8*j:])))
	}
	next := pos + int64((tot+7)/8*8)
	return r, next, nil
}

// Feed reads what was appended since the last call.
func (sh *Shard) Feed(w *vw.World) error {
	s, err := readSegs(w, sh.dir, sh.pos)
	if err != nil {
		return err
	}
	end := s.end()
	for sh.pos < end {
		r, next, err := s.parse(sh.pos)
		if err != nil {
			return fmt.Errorf("shard %d: %v", sh.ID, err)
		}
		if r.SN != sh.nextSN {
			return fmt.Errorf("shard %d: record at %d has serial number %d, expected %d", sh.ID, sh.pos, r.SN, sh.nextSN)
		}
		if err := sh.add(r); err != nil {
			return fmt.Errorf("shard %d: %v", sh.ID, err)
		}
		sh.pos = next
	}
	if sh.pos != end {
		return fmt.Errorf("shard %d: records end at %d, the file at %d", sh.ID, sh.pos, end)
	}
	return nil
}

func (sh *Shard) add(r *Rec) error {
	dummy := r.Key == "dummy"
	for _, sn := range r.Deact {
		if sn > r.SN || (sn == r.SN && !dummy) {
			return fmt.Errorf("entry %d deactivates entry %d", r.SN, sn)
		}
		if sn == r.SN {
			continue
		}
		if _, ok := sh.Active[sn]; !ok {
			return fmt.Errorf("entry %d deactivates entry %d, which is not active", r.SN, sn)
		}
		delete(sh.Active, sn)
		sh.Moved++
		t := sh.twigs[sn/twigLeaves]
		o := sn % twigLeaves
		t.act[o>>3] &^= 1 << uint(o&7)
		t.dirtyA = true
		t.live--
	}
	t := sh.twigs[r.SN/twigLeaves]
	o := r.SN % twigLeaves
	t.leaves[o] = sha256.Sum256(r.Raw)
	if t.n == 0 {
		t.pos = r.Pos
	}
	if !dummy && r.H > t.maxH {
		t.maxH = r.H
	}
	t.n++
	t.dirtyL = true
	if dummy {
		sh.Dummy++
	} else {
		sh.Active[r.SN] = r
		t.act[o>>3] |= 1 << uint(o&7)
		t.dirtyA = true
		t.live++
	}
	sh.nextSN++
	if sh.nextSN%twigLeaves == 0 {
		sh.twigs = append(sh.twigs, newTwig())
	}
	return nil
}

func (t *twig) getRoot() hsh {
	if t.dirtyL {
		// only the filled part; the rest is null subtrees
		cur := append([]hsh(nil), t.leaves[:]...)
		nfill := t.n
		for lv := 0; lv < 11; lv++ {
			nx := make([]hsh, len(cur)/2)
			nf := (nfill + 1) / 2
			for i := range nx {
				if i < nf {
					nx[i] = hash2(lv, cur[2*i][:], cur[2*i+1][:])
				} else {
					nx[i] = nullLeft[lv+1]
				}
			}
			cur, nfill = nx, nf
		}
		t.left = cur[0]
	}
	if t.dirtyL || t.dirtyA {
		a := actRoot(t.act[:])
		t.root = hash2(11, t.left[:], a[:])
		t.dirtyL, t.dirtyA = false, false
	}
	return t.root
}

func (sh *Shard) Youngest() int64 { return sh.nextSN / twigLeaves }
func (sh *Shard) NextSN() int64   { return sh.nextSN }
func (sh *Shard) Size() int64     { return sh.pos }

func (sh *Shard) Root() hsh {
	cur := make([]hsh, 0, len(sh.twigs))
	for _, t := range sh.twigs {
		cur = append(cur, t.getRoot())
	}
	y := sh.Youngest()
	maxLevel := 13 + 63 - bits.LeadingZeros64(uint64(y))
	for lv := 13; lv <= maxLevel; lv++ {
		nx := make([]hsh, 0, (len(cur)+1)/2)
		for i := 0; i < len(cur); i += 2 {
			var right hsh
			if i+1 < len(cur) {
				right = cur[i+1]
			} else if lv == 13 {
				right = nullTwigRoot
			} else {
				right = nullHigh[lv]
			}
			nx = append(nx, hash2(lv-1, cur[i][:], right[:]))
		}
		cur = nx
	}
	return cur[0]
}

// Audit is the whole database.
type Audit struct {
	Shards [8]*Shard
}

func NewAudit() *Audit {
	a := &Audit{}
	for i := range a.Shards {
		a.Shards[i] = NewShard(fmt.Sprintf("entries.%d", i), i)
	}
	return a
}

func (a *Audit) Feed(w *vw.World) error {
	for _, s := range a.Shards {
		if err := s.Feed(w); err != nil {
			return err
		}
	}
	return nil
}

func (a *Audit) Root() string {
	var l [][]byte
	for _, s := range a.Shards {
		r := s.Root()
		l = append(l, r[:])
	}
	for len(l) > 1 {
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			h := sha256.Sum256(append(append([]byte{}, l[i]...), l[i+1]...))
			n = append(n, h[:])
		}
		l = n
	}
	return string(l[0])
}

// DiffActive compares the active entries with the model's live keys.
func (a *Audit) DiffActive(m *Model) string {
	seen := map[string]bool{}
	for _, s := range a.Shards {
		sns := make([]int64, 0, len(s.Active))
		for sn := range s.Active {
			sns = append(sns, sn)
		}
		sort.Slice(sns, func(i, j int) bool { return sns[i] < sns[j] })
		for _, sn := range sns {
			r := s.Active[sn]
			me, ok := m.M[r.Key]
			if !ok {
				return fmt.Sprintf("shard %d: entry %d of the absent key %x is active", s.ID, sn, r.Key)
			}
			if seen[r.Key] {
				return fmt.Sprintf("shard %d: key %x has two active entries (one is %d)", s.ID, r.Key, sn)
			}
			seen[r.Key] = true
			if r.Val != me.Val || r.Next != me.Next || r.H != me.H || r.LH != me.LH {
				return fmt.Sprintf("shard %d: active entry %d of key %x: value %x next %x heights %d/%d, expected %x %x %d/%d", s.ID, sn, r.Key, r.Val, r.Next, r.H, r.LH, me.Val, me.Next, me.H, me.LH)
			}
			if ShardOf(r.Key) != s.ID {
				return fmt.Sprintf("key %x is in shard %d", r.Key, s.ID)
			}
		}
	}
	for k := range m.M {
		if !seen[k] {
			return fmt.Sprintf("live key %x has no active entry", k)
		}
	}
	return ""
}

func ShardOf(k string) int {
	if len(k) != 8 {
		return 0
	}
	return int(k[7]) / 32
}

// Clone copies the auditor's state.
func (a *Audit) Clone() *Audit {
	n := &Audit{}
	for i, s := range a.Shards {
		c := *s
		c.Active = make(map[int64]*Rec, len(s.Active))
		for k, v := range s.Active {
			c.Active[k] = v
		}
		c.twigs = make([]*twig, len(s.twigs))
		for j, t := range s.twigs {
			u := *t
			c.twigs[j] = &u
		}
		n.Shards[i] = &c
	}
	return n
}

// OldestActive is the twig of the shard's oldest active entry (guards included).
func (sh *Shard) OldestActive() int64 {
	min := sh.nextSN
	for sn := range sh.Active {
		if sn < min {
			min = sn
		}
	}
	return min / twigLeaves
}

// KeepFrom is the position of the first record of the first twig that holds a
// live entry, is not complete, or has a record of this height or above.
func (sh *Shard) KeepFrom(height int64) int64 {
	for _, t := range sh.twigs {
		if t.live > 0 || t.n < twigLeaves || t.maxH >= height {
			if t.n == 0 {
				return sh.pos
			}
			return t.pos
		}
	}
	return sh.pos
}

// PrunedTooMuch compares what is left on w with what a prune below the height
// may remove; the auditor has seen the unpruned files.
func (a *Audit) PrunedTooMuch(w *vw.World, height int64) string {
	for i, sh := range a.Shards {
		if p, k := FirstPos(w, sh.dir), sh.KeepFrom(height); p > k {
			return fmt.Sprintf("shard %d: the records before position %d are gone, but the twig that starts at %d holds a live entry or one of height %d or above", i, p, k, height)
		}
	}
	return ""
}

// DiffRead compares the serial number of the entry the database returns for
// every active entry's key with the active one.
func (a *Audit) DiffRead(d *DB) string {
	for _, s := range a.Shards {
		for sn, r := range s.Active {
			e := d.A.GetEntry([]byte(r.Key))
			if e == nil || e.SerialNum != sn {
				return fmt.Sprintf("shard %d: the active entry of key %x is %d, the entry returned for the key is %v", s.ID, r.Key, sn, e)
			}
		}
	}
	return ""
}

// Leaks compares what is on w with what has to be gone after a prune below the
// height: done[s][t] is the height of the block that completed twig t of shard s,
// keep the number of twigs a shard may keep because of its live entries, slack
// the number of further twigs that a prune may leave. The auditor has seen the
// unpruned files.
func (a *Audit) Leaks(w *vw.World, height int64, done [][]int64, keep, slack int64) (n int64, msg string) {
	for i, sh := range a.Shards {
		e := sh.mustGo(height, done[i], keep, slack)
		if e == 0 {
			continue
		}
		n += e
		s, err := readSegs(w, sh.dir, math.MaxInt64)
		if err != nil {
			return n, err.Error()
		}
		for _, id := range s.ids {
			if (id+1)*s.bs <= sh.twigs[e].pos {
				return n, fmt.Sprintf("shard %d: entry segment %d still exists; the %d twigs before position %d hold no live entry, were complete below height %d, and %d of them were to go", i, id, e+slack, sh.twigs[e].pos, height, e)
			}
		}
		dir := strings.Replace(sh.dir, "entries", "twigmt", 1)
		if s, err = readSegs(w, dir, math.MaxInt64); err != nil {
			return n, err.Error()
		}
		for _, id := range s.ids {
			if (id+1)*s.bs <= (e-2)*73708 {
				return n, fmt.Sprintf("shard %d: twig segment %d still exists; it holds only records of twigs below %d of %d that hold no live entry and were complete below height %d", i, id, e, e+slack, height)
			}
		}
	}
	return n, ""
}

// Overfull tells when a shard keeps more twigs than compaction has to leave.
func (a *Audit) Overfull(keep int64) string {
	for i, sh := range a.Shards {
		if o, y := sh.OldestActive(), sh.Youngest(); y-o > keep {
			return fmt.Sprintf("shard %d keeps live entries in twig %d while twig %d is being filled; compaction has to keep them in the last %d", i, o, y, keep)
		}
	}
	return ""
}

func (sh *Shard) mustGo(height int64, done []int64, keep, slack int64) (e int64) {
	for e < int64(len(done)) && done[e] < height && e < sh.Youngest()-keep {
		e++
	}
	if e -= slack; e < 0 {
		return 0
	}
	return e
}

// MustGo counts the twigs that Leaks looks for.
func (a *Audit) MustGo(height int64, done [][]int64, keep, slack int64) (n int64) {
	for i, sh := range a.Shards {
		n += sh.mustGo(height, done[i], keep, slack)
	}
	return n
}
