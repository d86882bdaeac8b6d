// Package vw is the in-memory "machine" the real moeingads code runs on when it
// is built through the verification overlay: a registry of worlds, each with a
// file system and key-value stores, an event log of everything that reaches the
// disk, and cheap copy-on-write clones.
package vw

import (
	"fmt"
	"hash/maphash"
	"path"
	"sort"
	"strings"
	"sync"
)

type EvKind int

const (
	EvCreate EvKind = iota
	EvWrite
	EvTrunc
	EvSync
	EvRemove
	EvMkdir
	EvKV
	EvMark
	EvRename
)

func (k EvKind) String() string {
	return [...]string{"create", "write", "trunc", "sync", "remove", "mkdir", "kv", "mark", "rename"}[k]
}

type KVOp struct {
	Key string
	Val []byte // nil => delete
	Del bool
}

type Event struct {
	Kind EvKind
	Path string // file or db
	Off  int64
	Data []byte
	Size int64
	Ops  []KVOp
	Sync bool
	Note string
}

func (e Event) String() string {
	switch e.Kind {
	case EvWrite:
		return fmt.Sprintf("write %s @%d +%d", e.Path, e.Off, len(e.Data))
	case EvTrunc:
		return fmt.Sprintf("trunc %s %d", e.Path, e.Size)
	case EvKV:
		return fmt.Sprintf("kv %s ops=%d sync=%v", e.Path, len(e.Ops), e.Sync)
	case EvMark:
		return "mark " + e.Note
	}
	return e.Kind.String() + " " + e.Path
}

type Node struct {
	Data   []byte
	shared int // bytes [0,shared) may be referenced by a clone
	Path   string
}

func (n *Node) writeAt(off int64, b []byte) {
	end := off + int64(len(b))
	if off < int64(n.shared) {
		d := make([]byte, len(n.Data), maxi(int(end), len(n.Data))+64)
		copy(d, n.Data)
		n.Data = d
		n.shared = 0
	}
	if end > int64(cap(n.Data)) {
		nc := 2 * cap(n.Data)
		if int64(nc) < end {
			nc = int(end) + 256
		}
		d := make([]byte, len(n.Data), nc)
		copy(d, n.Data)
		n.Data = d
		n.shared = 0
	}
	if end > int64(len(n.Data)) {
		old := len(n.Data)
		n.Data = n.Data[:end]
		for i := old; int64(i) < off; i++ {
			n.Data[i] = 0
		}
	}
	copy(n.Data[off:end], b)
}

func (n *Node) truncate(size int64) {
	if size <= int64(len(n.Data)) {
		d := make([]byte, size)
		copy(d, n.Data[:size])
		n.Data = d
		n.shared = 0
		return
	}
	n.writeAt(size, nil)
	if int64(len(n.Data)) < size {
		d := make([]byte, size)
		copy(d, n.Data)
		n.Data = d
		n.shared = 0
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// KV is one ordered key-value store.
type KV struct {
	M      map[string][]byte
	sorted []Pair
	Open   int // number of open handles
	Filter func(key, val []byte) (bool, []byte)
}

type Pair struct {
	K string
	V []byte
}

func (kv *KV) Sorted() []Pair {
	if kv.sorted == nil {
		s := make([]Pair, 0, len(kv.M))
		for k, v := range kv.M {
			s = append(s, Pair{k, v})
		}
		sort.Slice(s, func(i, j int) bool { return s[i].K < s[j].K })
		kv.sorted = s
	}
	return kv.sorted
}

func (kv *KV) apply(ops []KVOp) {
	for _, op := range ops {
		if op.Del {
			delete(kv.M, op.Key)
		} else {
			kv.M[op.Key] = op.Val
		}
	}
	kv.sorted = nil
}

type World struct {
	Mu    sync.Mutex
	Root  string
	Files map[string]*Node // path relative to Root
	Dirs  map[string]bool
	KVs   map[string]*KV
	Log   []Event
	LogOn bool
	// Hook, when set, is called (outside Mu) before every disk event.
	Hook func(kind EvKind, path string)
	// Dead: when true every mutation is ignored (the machine has stopped).
	Dead bool
	// Fault, when set, may turn an operation into an error.
	Fault func(kind EvKind, path string) error
	// OpenHandles counts live file handles
	OpenHandles int
}

var (
	regMu  sync.RWMutex
	worlds = map[string]*World{}
	seq    int
)

const Prefix = "/vworld/"

// New makes and registers an empty world; its Root directory does not exist yet
// (so that databases can be created in it).
func New() *World {
	regMu.Lock()
	defer regMu.Unlock()
	seq++
	w := &World{Root: fmt.Sprintf("%s%d", Prefix, seq), Files: map[string]*Node{}, Dirs: map[string]bool{}, KVs: map[string]*KV{}}
	worlds[w.Root] = w
	return w
}

// Drop unregisters the world.
func (w *World) Drop() {
	regMu.Lock()
	delete(worlds, w.Root)
	regMu.Unlock()
}

// Cwd, when set, is the world in which relative paths lie.
var Cwd *World

// Lookup finds the world a path belongs to, and the path inside it.
func Lookup(p string) (*World, string) {
	if c := Cwd; c != nil && !strings.HasPrefix(p, "/") {
		p = c.Root + "/" + p
	}
	if !strings.HasPrefix(p, Prefix) {
		return nil, ""
	}
	p = path.Clean(p)
	rest := p[len(Prefix):]
	i := strings.IndexByte(rest, '/')
	root, in := p, ""
	if i >= 0 {
		root, in = p[:len(Prefix)+i], rest[i+1:]
	}
	regMu.RLock()
	w := worlds[root]
	regMu.RUnlock()
	return w, in
}

// Clone copies the durable and volatile file contents into a new world (no log).
func (w *World) Clone() *World {
	n := New()
	w.Mu.Lock()
	defer w.Mu.Unlock()
	for p, f := range w.Files {
		if len(f.Data) > f.shared {
			f.shared = len(f.Data)
		}
		l := len(f.Data)
		n.Files[p] = &Node{Data: f.Data[:l:l], shared: l, Path: p}
	}
	for d := range w.Dirs {
		n.Dirs[d] = true
	}
	for p, kv := range w.KVs {
		m := make(map[string][]byte, len(kv.M))
		for k, v := range kv.M {
			m[k] = v
		}
		n.KVs[p] = &KV{M: m}
	}
	return n
}

func (w *World) StartLog() {
	w.Mu.Lock()
	w.Log = nil
	w.LogOn = true
	w.Mu.Unlock()
}

func (w *World) StopLog() []Event {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	l := w.Log
	w.Log = nil
	w.LogOn = false
	return l
}

// LogLen is the number of events logged so far.
func (w *World) LogLen() int {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	return len(w.Log)
}

var digestSeed = maphash.MakeSeed()

// Digest identifies the contents of all files and stores (within this process).
func (w *World) Digest() string {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	var h maphash.Hash
	h.SetSeed(digestSeed)
	var ps []string
	for p := range w.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&h, "%s %d ", p, len(w.Files[p].Data))
		h.Write(w.Files[p].Data)
	}
	ps = ps[:0]
	for p := range w.KVs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&h, "kv %s ", p)
		for _, x := range w.KVs[p].Sorted() {
			h.WriteByte(byte(len(x.K)))
			h.WriteString(x.K)
			h.WriteByte(byte(len(x.V)))
			h.Write(x.V)
		}
	}
	return fmt.Sprintf("%x", h.Sum64())
}

func (w *World) Mark(note string) {
	w.Mu.Lock()
	w.logLocked(Event{Kind: EvMark, Note: note})
	w.Mu.Unlock()
}

func (w *World) logLocked(e Event) {
	if w.LogOn {
		w.Log = append(w.Log, e)
	}
}

// Pre runs the hook; every mutator calls it before taking the lock.
func (w *World) Pre(kind EvKind, p string) {
	if h := w.Hook; h != nil {
		h(kind, p)
	}
}

// Apply replays an event on this world (used to build crash images). n limits
// the number of bytes of a write (-1: all).
func (w *World) Apply(e Event, n int) {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	switch e.Kind {
	case EvCreate:
		if w.Files[e.Path] == nil {
			w.Files[e.Path] = &Node{Path: e.Path}
		}
	case EvWrite:
		f := w.Files[e.Path]
		if f == nil {
			f = &Node{Path: e.Path}
			w.Files[e.Path] = f
		}
		d := e.Data
		if n >= 0 && n < len(d) {
			d = d[:n]
		}
		f.writeAt(e.Off, d)
	case EvTrunc:
		if f := w.Files[e.Path]; f != nil {
			f.truncate(e.Size)
		}
	case EvRemove:
		delete(w.Files, e.Path)
		delete(w.Dirs, e.Path)
	case EvMkdir:
		w.Dirs[e.Path] = true
	case EvRename:
		if f := w.Files[e.Path]; f != nil {
			delete(w.Files, e.Path)
			w.Files[e.Note] = f
		}
	case EvKV:
		kv := w.KVs[e.Path]
		if kv == nil {
			kv = &KV{M: map[string][]byte{}}
			w.KVs[e.Path] = kv
		}
		kv.apply(e.Ops)
	}
}

// ---- operations used by vos and the fake key-value store ----

func (w *World) MkdirIn(in string) bool {
	w.Pre(EvMkdir, in)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if w.Dirs[in] {
		return false
	}
	if w.Dead {
		return true
	}
	w.Dirs[in] = true
	w.logLocked(Event{Kind: EvMkdir, Path: in})
	return true
}

func (w *World) CreateIn(in string) *Node {
	w.Pre(EvCreate, in)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if f := w.Files[in]; f != nil {
		return f
	}
	f := &Node{Path: in}
	if w.Dead {
		return f
	}
	w.Files[in] = f
	w.logLocked(Event{Kind: EvCreate, Path: in})
	return f
}

func (w *World) RemoveIn(in string) bool {
	w.Pre(EvRemove, in)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	_, okf := w.Files[in]
	_, okd := w.Dirs[in]
	if !okf && !okd {
		return false
	}
	if w.Dead {
		return true
	}
	delete(w.Files, in)
	delete(w.Dirs, in)
	w.logLocked(Event{Kind: EvRemove, Path: in})
	return true
}

func (w *World) RenameIn(a, b string) bool {
	w.Pre(EvRename, a)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	f := w.Files[a]
	if f == nil {
		return false
	}
	delete(w.Files, a)
	w.Files[b] = f
	f.Path = b
	w.logLocked(Event{Kind: EvRename, Path: a, Note: b})
	return true
}

func (w *World) WriteNode(f *Node, off int64, b []byte) {
	w.Pre(EvWrite, f.Path)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if w.Dead {
		return
	}
	f.writeAt(off, b)
	if w.LogOn {
		w.logLocked(Event{Kind: EvWrite, Path: f.Path, Off: off, Data: append([]byte(nil), b...)})
	}
}

func (w *World) AppendNode(f *Node, b []byte) int64 {
	w.Pre(EvWrite, f.Path)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	off := int64(len(f.Data))
	if w.Dead {
		return off
	}
	f.writeAt(off, b)
	if w.LogOn {
		w.logLocked(Event{Kind: EvWrite, Path: f.Path, Off: off, Data: append([]byte(nil), b...)})
	}
	return off
}

func (w *World) TruncNode(f *Node, size int64) {
	w.Pre(EvTrunc, f.Path)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if w.Dead {
		return
	}
	f.truncate(size)
	w.logLocked(Event{Kind: EvTrunc, Path: f.Path, Size: size})
}

func (w *World) SyncNode(f *Node) {
	w.Pre(EvSync, f.Path)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if w.Dead {
		return
	}
	w.logLocked(Event{Kind: EvSync, Path: f.Path})
}

func (w *World) ReadNode(f *Node, off int64, b []byte) int {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if off >= int64(len(f.Data)) {
		return 0
	}
	return copy(b, f.Data[off:])
}

func (w *World) SizeNode(f *Node) int64 {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	return int64(len(f.Data))
}

func (w *World) KVOpen(in string, create bool) *KV {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	kv := w.KVs[in]
	if kv == nil {
		if !create {
			return nil
		}
		kv = &KV{M: map[string][]byte{}}
		w.KVs[in] = kv
	}
	kv.Open++
	return kv
}

func (w *World) KVWrite(in string, kv *KV, ops []KVOp, sync bool) {
	w.Pre(EvKV, in)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if w.Dead {
		return
	}
	kv.apply(ops)
	w.logLocked(Event{Kind: EvKV, Path: in, Ops: ops, Sync: sync})
}

func (w *World) KVGet(kv *KV, key string) ([]byte, bool) {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	v, ok := kv.M[key]
	return v, ok
}

func (w *World) KVSnapshot(kv *KV) []Pair {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	return kv.Sorted()
}

// Compact applies the store's compaction filter to every record.
func (w *World) KVCompact(in string, kv *KV, filter func(key, val []byte) (bool, []byte)) {
	if filter == nil {
		return
	}
	var ops []KVOp
	for _, p := range w.KVSnapshot(kv) {
		rm, nv := filter([]byte(p.K), p.V)
		if rm {
			ops = append(ops, KVOp{Key: p.K, Del: true})
		} else if nv != nil && string(nv) != string(p.V) {
			ops = append(ops, KVOp{Key: p.K, Val: append([]byte{}, nv...)})
		}
	}
	w.KVWrite(in, kv, ops, true)
}

// List returns the names directly under dir (relative path), sorted.
func (w *World) List(dir string) (names []string, isDir []bool, ok bool) {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if !w.Dirs[dir] {
		return nil, nil, false
	}
	seen := map[string]bool{}
	add := func(p string, d bool) {
		if dir != "" {
			if !strings.HasPrefix(p, dir+"/") {
				return
			}
			p = p[len(dir)+1:]
		}
		if p == "" {
			return
		}
		if i := strings.IndexByte(p, '/'); i >= 0 {
			p, d = p[:i], true
		}
		if _, s := seen[p]; !s {
			seen[p] = d
			names = append(names, p)
		}
	}
	for p := range w.Files {
		add(p, false)
	}
	for p := range w.Dirs {
		add(p, true)
	}
	for p := range w.KVs {
		add(p, true)
	}
	sort.Strings(names)
	for _, n := range names {
		isDir = append(isDir, seen[n])
	}
	return names, isDir, true
}

// SortedFiles lists all file paths.
func (w *World) SortedFiles() []string {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	var s []string
	for p := range w.Files {
		s = append(s, p)
	}
	sort.Strings(s)
	return s
}

// Bytes returns a copy of a file's content.
func (w *World) Bytes(in string) []byte {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	f := w.Files[in]
	if f == nil {
		return nil
	}
	return append([]byte(nil), f.Data...)
}
