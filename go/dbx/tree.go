package dbx

import (
	"fmt"
	"sort"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
	"verif.local/w/vw"
)

// TreeRig drives one shard tree directly, with the independent auditor beside it.
type TreeRig struct {
	W      *vw.World
	T      *datatree.Tree
	Buf    int
	Blk    int
	Suffix string
	SN     int64 // next serial number
	H      int64
	Pos    map[int64]int64 // position of every entry written
	A      *Shard
	Root   [32]byte
}

func NewTreeRig(buf, blk int, suffix string) *TreeRig {
	w := vw.New()
	w.MkdirIn("")
	r := &TreeRig{W: w, Buf: buf, Blk: blk, Suffix: suffix, Pos: map[int64]int64{}}
	r.T = datatree.NewEmptyTree(buf, blk, w.Root, suffix)
	r.A = NewShard("entries"+suffix, 0)
	return r
}

func (r *TreeRig) Append(key, val string) int64 {
	sn := r.SN
	r.SN++
	p := r.T.AppendEntry(&types.Entry{Key: []byte(key), Value: []byte(val), NextKey: []byte("next-" + key), Height: r.H, LastHeight: r.H - 1, SerialNum: sn})
	r.Pos[sn] = p
	return sn
}

func (r *TreeRig) Dummy() int64 {
	sn := r.SN
	r.SN++
	r.Pos[sn] = r.T.AppendEntry(datatree.DummyEntry(sn))
	return sn
}

// Deact deactivates and writes a carrier entry when the list is full.
func (r *TreeRig) Deact(sn int64) {
	if r.T.DeactiviateEntry(sn) > datatree.DeactivedSNListMaxLen {
		r.Flush()
	}
}

// Flush writes the pending deactivations with a dummy entry, as the database does.
func (r *TreeRig) Flush() {
	r.T.DeactiviateEntry(r.SN)
	r.Dummy()
}

func (r *TreeRig) EndBlock() [32]byte {
	if r.T.DeactivedSNListSize() != 0 {
		r.Flush()
	}
	r.Root = r.T.EndBlock()
	r.T.WaitForFlushing()
	r.H++
	return r.Root
}

func (r *TreeRig) Sizes() []int64 {
	a, b := r.T.GetFileSizes()
	return []int64{a, b}
}

// Audited compares the root with the auditor's.
func (r *TreeRig) Audited() string {
	if err := r.A.Feed(r.W); err != nil {
		return err.Error()
	}
	if x := r.A.Root(); x != r.Root {
		return fmt.Sprintf("root %x, recomputed from the files %x", r.Root, x)
	}
	return ""
}

func (r *TreeRig) Done() {
	r.T.Close()
	r.W.Drop()
}

// Compact moves the active entries of a twig to the end and evicts it, the way
// the database's compaction does.
func (r *TreeRig) Compact(twig int64) int {
	n := 0
	for bz := range r.T.GetActiveEntriesInTwig(twig) {
		old := datatree.ExtractSerialNum(bz)
		r.Deact(old)
		sn := r.SN
		r.SN++
		datatree.UpdateSerialNum(bz, sn)
		r.Pos[sn] = r.T.AppendEntryRawBytes(bz, sn)
		n++
	}
	r.T.EvictTwig(twig)
	return n
}

// ActiveSNs lists the active serial numbers according to the auditor, ascending.
func (r *TreeRig) ActiveSNs() []int64 { return r.A.ActiveSNs() }

func (sh *Shard) ActiveSNs() []int64 {
	s := make([]int64, 0, len(sh.Active))
	for sn := range sh.Active {
		s = append(s, sn)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}

// Clone copies the auditor's state.
func (sh *Shard) Clone() *Shard {
	n := *sh
	n.Active = make(map[int64]*Rec, len(sh.Active))
	for k, v := range sh.Active {
		n.Active[k] = v
	}
	n.twigs = make([]*twig, len(sh.twigs))
	for i, t := range sh.twigs {
		c := *t
		n.twigs[i] = &c
	}
	return &n
}

// DiffTree compares everything observable of a tree with the auditor's view.
// base is the lowest twig still in memory; entries below pruned may be gone.
func (r *TreeRig) DiffTree(sns []int64, proofs bool) string {
	want := r.A.Root()
	if want != r.Root {
		return fmt.Sprintf("root %x, recomputed %x", r.Root, want)
	}
	for _, sn := range sns {
		a := r.A.Active[sn]
		if a == nil {
			if r.T.GetActiveBit(sn) {
				return fmt.Sprintf("entry %d is active in the tree, but was deactivated", sn)
			}
			continue
		}
		if !r.T.GetActiveBit(sn) {
			return fmt.Sprintf("entry %d is inactive in the tree", sn)
		}
		e := r.T.ReadEntry(a.Pos)
		if string(e.Key) != a.Key || string(e.Value) != a.Val || e.SerialNum != sn {
			return fmt.Sprintf("entry %d reads as key %x value %x sn %d", sn, e.Key, e.Value, e.SerialNum)
		}
		if proofs {
			ebz := r.T.ReadEntryBytesForProof(a.Pos)
			p, err := r.T.GetProofBytesAndCheck(sn, ebz)
			if err != nil {
				return fmt.Sprintf("no proof for entry %d: %v", sn, err)
			}
			if s := CheckGenuine(p, ebz, sn, &want); s != "" {
				return s
			}
		}
	}
	return ""
}
