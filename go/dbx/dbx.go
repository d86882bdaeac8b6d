// Package dbx drives the real MoeingADS database over an in-memory machine and
// holds the reference model its answers are compared with.
package dbx

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	moeingads "github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/types"
	"verif.local/w/vw"
)

var (
	StartKey = string([]byte{0, 0, 0, 0, 0, 0, 0, 0})
	EndKey   = string([]byte{255, 255, 255, 255, 255, 255, 255, 255})
)

func Guards() [][]byte { return [][]byte{[]byte(StartKey), []byte(EndKey)} }

type OpKind byte

const (
	Set OpKind = iota
	Del
	PrepU // prepare for update only
	PrepD // prepare for deletion only
)

type Op struct {
	Kind OpKind
	Key  string
	Val  string
}

func (o Op) String() string {
	switch o.Kind {
	case Set:
		return fmt.Sprintf("Set(%x,%d bytes)", o.Key, len(o.Val))
	case Del:
		return fmt.Sprintf("Del(%x)", o.Key)
	case PrepU:
		return fmt.Sprintf("PrepU(%x)", o.Key)
	}
	return fmt.Sprintf("PrepD(%x)", o.Key)
}

type Block struct {
	H   int64
	Ops []Op
}

func (b Block) String() string {
	s := make([]string, len(b.Ops))
	for i, o := range b.Ops {
		s[i] = o.String()
	}
	return fmt.Sprintf("block %d {%s}", b.H, strings.Join(s, " "))
}

func Trace(bs []Block) string {
	s := make([]string, len(bs))
	for i, b := range bs {
		s[i] = b.String()
	}
	return strings.Join(s, "\n")
}

// ---- the model ----

type MEnt struct {
	Val  string
	Next string
	H    int64
	LH   int64
}

type Model struct {
	M map[string]MEnt // guards included
	H int64
}

func NewModel() *Model {
	return &Model{H: -1, M: map[string]MEnt{
		StartKey: {Next: EndKey, H: -1, LH: -1},
		EndKey:   {Next: EndKey, H: -1, LH: -1},
	}}
}

func (m *Model) Clone() *Model {
	n := &Model{H: m.H, M: make(map[string]MEnt, len(m.M))}
	for k, v := range m.M {
		n.M[k] = v
	}
	return n
}

func (m *Model) Keys() []string {
	ks := make([]string, 0, len(m.M))
	for k := range m.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *Model) Live() []string {
	ks := m.Keys()
	return ks[1 : len(ks)-1]
}

// Apply applies a block: the last operation on a key wins.
func (m *Model) Apply(b Block) {
	net := map[string]Op{}
	for _, o := range b.Ops {
		if o.Kind == Set || o.Kind == Del {
			net[o.Key] = o
		}
	}
	wrote := map[string]bool{}
	fresh := map[string]bool{}
	for k, o := range net {
		e, had := m.M[k]
		if o.Kind == Set {
			e.Val = o.Val
			if !had {
				fresh[k] = true
			}
			wrote[k] = true
			m.M[k] = e
		} else if had {
			delete(m.M, k)
		}
	}
	m.H = b.H
	ks := m.Keys()
	for i, k := range ks {
		next := EndKey
		if i+1 < len(ks) {
			next = ks[i+1]
		}
		e := m.M[k]
		switch {
		case fresh[k]:
			e.LH, e.H, e.Next = 0, b.H, next
		case wrote[k] || e.Next != next:
			e.LH, e.H, e.Next = e.H, b.H, next
		}
		m.M[k] = e
	}
}

// ---- the database under test ----

type DB struct {
	W    *vw.World
	A    *moeingads.MoeingADS
	Hist bool
}

// Create makes a new database in a fresh world.
func Create(hist bool) *DB {
	w := vw.New()
	return Open(w, hist)
}

func Open(w *vw.World, hist bool) *DB {
	a, err := moeingads.NewMoeingADS(w.Root, hist, Guards())
	if err != nil {
		panic(fmt.Sprintf("NewMoeingADS: %v", err))
	}
	return &DB{W: w, A: a, Hist: hist}
}

var images = map[string]*vw.World{}

// Fresh returns a newly created database (cloned from one creation per process).
func Fresh(hist bool) *DB {
	key := fmt.Sprint("fresh", hist)
	im := images[key]
	if im == nil {
		db := Create(hist)
		im = db.W.Clone()
		images[key] = im
		db.A.Close()
		db.W.Drop()
	}
	return Open(im.Clone(), hist)
}

// Image caches a prepared world by name.
func Image(name string, mk func() *vw.World) *vw.World {
	im := images[name]
	if im == nil {
		im = mk()
		images[name] = im
	}
	return im
}

// Mock makes the library's in-memory stand-in of a database (its key-value
// store lies in the current directory).
func Mock() *DB {
	w := vw.New()
	vw.Cwd = w
	defer func() { vw.Cwd = nil }()
	return &DB{W: w, A: moeingads.NewMoeingADS4Mock(Guards())}
}

// Done closes the database and forgets its world.
func (d *DB) Done() {
	d.A.Close()
	d.W.Drop()
}

// Fork clones the machine as it is now and reopens the database on the clone.
func (d *DB) Fork() *DB { return Open(d.W.Clone(), d.Hist) }

// Reopen closes and opens the database.
func (d *DB) Reopen() {
	d.A.Close()
	d.A = Open(d.W, d.Hist).A
}

// ReopenNoClose continues on a clone of the machine without closing (the old
// object is closed afterwards, on its own world).
func (d *DB) ReopenNoClose() {
	n := d.W.Clone()
	d.A.Close()
	d.W.Drop()
	d.W = n
	d.A = Open(n, d.Hist).A
}

func (d *DB) Prepare(ops []Op) {
	for _, o := range ops {
		switch o.Kind {
		case Set, PrepU:
			d.A.PrepareForUpdate([]byte(o.Key))
		case Del, PrepD:
			d.A.PrepareForDeletion([]byte(o.Key))
		}
	}
}

func (d *DB) Write(b Block) {
	d.A.BeginWrite(b.H)
	for _, o := range b.Ops {
		switch o.Kind {
		case Set:
			d.A.Set([]byte(o.Key), []byte(o.Val))
		case Del:
			d.A.Delete([]byte(o.Key))
		}
	}
	d.A.EndWrite()
}

func (d *DB) Run(b Block) {
	d.Prepare(b.Ops)
	d.Write(b)
}

func (d *DB) Root() string { return string(d.A.GetRootHash()) }

// ---- comparisons: each returns "" or what differs ----

// DiffMap compares the map view (values, scan order, counts).
func (d *DB) DiffMap(m *Model, universe []string) string {
	live := m.Live()
	i := len(live) - 1
	bad := ""
	d.A.ScanAll(func(k, v []byte) {
		if bad != "" {
			return
		}
		if i < 0 {
			bad = fmt.Sprintf("scan returns extra key %x", k)
			return
		}
		if string(k) != live[i] {
			bad = fmt.Sprintf("scan returns key %x where %x is expected", k, live[i])
			return
		}
		if string(v) != m.M[live[i]].Val {
			bad = fmt.Sprintf("scan returns value %x for key %x, expected %x", v, k, m.M[live[i]].Val)
		}
		i--
	})
	if bad != "" {
		return bad
	}
	if i >= 0 {
		return fmt.Sprintf("scan misses key %x", live[i])
	}
	if n := d.A.ActiveCount(); n != len(m.M) {
		return fmt.Sprintf("ActiveCount %d, expected %d (live keys plus 2 guards)", n, len(m.M))
	}
	if h := d.A.GetCurrHeight(); h != m.H {
		return fmt.Sprintf("height %d, expected %d", h, m.H)
	}
	for _, k := range universe {
		e := d.A.GetEntry([]byte(k))
		me, ok := m.M[k]
		if !ok {
			if e != nil {
				return fmt.Sprintf("absent key %x is returned with value %x", k, e.Value)
			}
			continue
		}
		if e == nil {
			return fmt.Sprintf("live key %x is not found", k)
		}
		if string(e.Value) != me.Val || string(e.Key) != k {
			return fmt.Sprintf("key %x returned as %x with value %x, expected %x", k, e.Key, e.Value, me.Val)
		}
	}
	return ""
}

// DiffChain compares successor links and heights of every live entry.
func (d *DB) DiffChain(m *Model) string {
	for _, k := range m.Keys() {
		e := d.A.GetEntry([]byte(k))
		if e == nil {
			return fmt.Sprintf("live key %x has no entry", k)
		}
		if s := diffEnt(e, k, m.M[k]); s != "" {
			return s
		}
	}
	// the walk itself, as a client does it
	k := StartKey
	n := 0
	for k != EndKey {
		e := d.A.GetEntry([]byte(k))
		if e == nil {
			return fmt.Sprintf("next-key chain reaches missing key %x", k)
		}
		if string(e.NextKey) <= k {
			return fmt.Sprintf("next key of %x is %x, not larger", k, e.NextKey)
		}
		k = string(e.NextKey)
		n++
		if n > len(m.M)+1 {
			return "next-key chain is longer than the set of live keys"
		}
	}
	if n != len(m.M)-1 {
		return fmt.Sprintf("next-key chain visits %d keys, expected %d", n, len(m.M)-1)
	}
	return ""
}

func diffEnt(e *types.Entry, k string, me MEnt) string {
	if string(e.Key) != k || string(e.Value) != me.Val {
		return fmt.Sprintf("entry of key %x has key %x value %x, expected value %x", k, e.Key, e.Value, me.Val)
	}
	if string(e.NextKey) != me.Next {
		return fmt.Sprintf("entry of key %x has next key %x, expected %x", k, e.NextKey, me.Next)
	}
	if e.Height != me.H || e.LastHeight != me.LH {
		return fmt.Sprintf("entry of key %x has height %d last height %d, expected %d and %d", k, e.Height, e.LastHeight, me.H, me.LH)
	}
	return ""
}

// State is a full observable dump: every live entry with all fields, scan
// order, count, height, root.
func (d *DB) State(universe []string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "root %x height %d active %d\n", d.A.GetRootHash(), d.A.GetCurrHeight(), d.A.ActiveCount())
	d.A.ScanAll(func(k, v []byte) { fmt.Fprintf(&b, "scan %x=%x\n", k, v) })
	for _, k := range universe {
		if e := d.A.GetEntry([]byte(k)); e == nil {
			fmt.Fprintf(&b, "%x absent\n", k)
		} else {
			fmt.Fprintf(&b, "%x: %x %x %x %d %d %d\n", k, e.Key, e.Value, e.NextKey, e.Height, e.LastHeight, e.SerialNum)
		}
	}
	return b.String()
}

// Proofs dumps entry bytes and proof of every given key.
func (d *DB) Proofs(keys []string) string {
	var b bytes.Buffer
	for _, k := range keys {
		e, p, err := d.A.GetProof([]byte(k))
		fmt.Fprintf(&b, "%x %x %x %v\n", k, e, p, err)
	}
	return b.String()
}

// FirstDiff shows the first differing line of two dumps.
func FirstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "", ""
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			if len(x) > 400 {
				x = x[:400]
			}
			if len(y) > 400 {
				y = y[:400]
			}
			return fmt.Sprintf("line %d: %q vs %q", i, x, y)
		}
	}
	return ""
}
