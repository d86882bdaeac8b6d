package dbx

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	"github.com/smartbch/moeingads/datatree"
)

// Verify recomputes a serialised membership proof without using moeingads:
// serial number | leaf | 11 siblings | activity word | 3 siblings | upper
// siblings | root.
func Verify(bz []byte) (sn int64, leaf hsh, word hsh, root hsh, msg string) {
	n := len(bz) - 8
	up := n/32 - 17
	if n < 0 || n%32 != 0 || up < 1 {
		msg = fmt.Sprintf("proof has %d bytes", len(bz))
		return
	}
	sn = int64(binary.LittleEndian.Uint64(bz))
	if sn < 0 || up < 52 && sn>>uint(11+up) != 0 {
		msg = fmt.Sprintf("serial number %d does not fit a path of %d upper levels", sn, up)
		return
	}
	at := func(i int) (h hsh) { copy(h[:], bz[8+32*i:]); return }
	fold := func(level int, cur, peer hsh, bit int64) hsh {
		if bit&1 == 1 {
			return hash2(level, peer[:], cur[:])
		}
		return hash2(level, cur[:], peer[:])
	}
	leaf = at(0)
	left := leaf
	for i := 0; i < 11; i++ {
		left = fold(i, left, at(1+i), sn>>uint(i))
	}
	word = at(12)
	right := word
	for i := 0; i < 3; i++ {
		right = fold(8+i, right, at(13+i), sn>>uint(8+i))
	}
	cur := hash2(11, left[:], right[:])
	for i := 0; i < up; i++ {
		cur = fold(12+i, cur, at(16+i), sn>>uint(11+i))
	}
	root = at(16 + up)
	if cur != root {
		msg = "the recomputed root differs from the root in the proof"
	}
	return
}

// Entry bytes as returned with a proof: 1 byte count, 3 bytes length, marker
// positions, payload, deactivation list.
func ParseEntryBz(b []byte) (r *Rec, err error) {
	s := &segs{bs: 1 << 40, ids: []int64{0}, data: map[int64][]byte{0: append(append([]byte{}, magic...), b...)}}
	r, _, err = s.parse(0)
	return
}

// DiffProof asks for the proof of one live key and checks everything about it.
func (d *DB) DiffProof(k string, me MEnt, sh *Shard) string {
	ebz, pbz, err := d.A.GetProof([]byte(k))
	if err != nil {
		return fmt.Sprintf("no proof for live key %x: %v", k, err)
	}
	r, err := ParseEntryBz(ebz)
	if err != nil {
		return fmt.Sprintf("entry bytes of key %x: %v", k, err)
	}
	if r.Key != k || r.Val != me.Val || r.Next != me.Next || r.H != me.H || r.LH != me.LH {
		return fmt.Sprintf("entry bytes of key %x hold key %x value %x next %x heights %d/%d", k, r.Key, r.Val, r.Next, r.H, r.LH)
	}
	var want *hsh
	if sh != nil {
		h := sh.Root()
		want = &h
		a := sh.Active[r.SN]
		if a == nil || a.Key != k {
			return fmt.Sprintf("proof of key %x is for serial number %d, which is not its active entry", k, r.SN)
		}
		if !bytes.Equal(a.Raw, ebz) {
			return fmt.Sprintf("entry bytes returned for key %x are not the stored ones", k)
		}
	}
	return CheckGenuine(pbz, ebz, r.SN, want)
}

// CheckGenuine checks a proof that must be valid for an active entry.
func CheckGenuine(pbz, ebz []byte, sn int64, want *hsh) string {
	psn, leaf, word, root, msg := Verify(pbz)
	if msg != "" {
		return fmt.Sprintf("proof for serial number %d: %s", sn, msg)
	}
	if psn != sn {
		return fmt.Sprintf("proof for serial number %d carries %d", sn, psn)
	}
	if ebz != nil && leaf != sha256.Sum256(ebz) {
		return fmt.Sprintf("proof for serial number %d has a leaf that is not the hash of the entry bytes", sn)
	}
	if word[(sn&255)>>3]>>uint(sn&7)&1 != 1 {
		return fmt.Sprintf("proof for serial number %d shows the entry as inactive", sn)
	}
	if want != nil && root != *want {
		return fmt.Sprintf("proof for serial number %d has root %x, the shard root is %x", sn, root, *want)
	}
	pp, err := datatree.BytesToProofPath(pbz)
	if err != nil {
		return fmt.Sprintf("genuine proof does not parse: %v", err)
	}
	if err := pp.Check(true); err != nil {
		return fmt.Sprintf("genuine proof for serial number %d is rejected: %v", sn, err)
	}
	if err := pp.Check(false); err != nil {
		return fmt.Sprintf("completed proof for serial number %d is rejected: %v", sn, err)
	}
	if !bytes.Equal(pp.ToBytes(), pbz) {
		return fmt.Sprintf("proof for serial number %d changes in serialisation", sn)
	}
	b2, err := datatree.CheckProof(pp)
	if err != nil || !bytes.Equal(b2, pbz) {
		return fmt.Sprintf("CheckProof of a genuine proof: %v, bytes equal %v", err, bytes.Equal(b2, pbz))
	}
	return ""
}

// DiffProofs checks the proof of every live key (guards included).
func (d *DB) DiffProofs(m *Model, a *Audit) string {
	for _, k := range m.Keys() {
		var sh *Shard
		if a != nil {
			sh = a.Shards[ShardOf(k)]
		}
		if s := d.DiffProof(k, m.M[k], sh); s != "" {
			return s
		}
	}
	return ""
}
