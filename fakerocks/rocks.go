// Package gorocksdb is a pure-Go stand-in for the cgo binding of RocksDB, with
// the part of its API that a key-value wrapper can reasonably use. The store
// lives in the in-memory world (verif.local/w/vw) its path belongs to, and
// every write goes through the world's event log. Its agreement with the real
// RocksDB is checked by cmd/kvconf (exhaustive short operation sequences on both).
package gorocksdb

import (
	"errors"
	"sort"

	"verif.local/w/vw"
)

type CompressionType uint
type CompactionStyle uint
type CompactionAccessPattern uint
type InfoLogLevel uint
type WALRecoveryMode int
type ReadTier uint
type UniversalCompactionStopStyle uint
type IndexType uint

const (
	NoCompression     = CompressionType(0x0)
	SnappyCompression = CompressionType(0x1)
	ZLibCompression   = CompressionType(0x2)
	Bz2Compression    = CompressionType(0x3)
	LZ4Compression    = CompressionType(0x4)
	LZ4HCCompression  = CompressionType(0x5)
	XpressCompression = CompressionType(0x6)
	ZSTDCompression   = CompressionType(0x7)

	LevelCompactionStyle     = CompactionStyle(0)
	UniversalCompactionStyle = CompactionStyle(1)
	FIFOCompactionStyle      = CompactionStyle(2)

	TolerateCorruptedTailRecordsRecovery = WALRecoveryMode(0)
	AbsoluteConsistencyRecovery          = WALRecoveryMode(1)
	PointInTimeRecovery                  = WALRecoveryMode(2)
	SkipAnyCorruptedRecordsRecovery      = WALRecoveryMode(3)
)

type FilterPolicy interface {
	CreateFilter(keys [][]byte) []byte
	KeyMayMatch(key []byte, filter []byte) bool
	Name() string
}
type bloom struct{}

func (bloom) CreateFilter(keys [][]byte) []byte          { return nil }
func (bloom) KeyMayMatch(key []byte, filter []byte) bool { return true }
func (bloom) Name() string                               { return "bloom" }
func NewBloomFilter(bitsPerKey int) FilterPolicy         { return bloom{} }
func NewBloomFilterFull(bitsPerKey int) FilterPolicy     { return bloom{} }

type Cache struct{}

func NewLRUCache(capacity uint64) *Cache { return &Cache{} }
func (c *Cache) Destroy()                {}
func (c *Cache) GetUsage() uint64        { return 0 }
func (c *Cache) GetPinnedUsage() uint64  { return 0 }

type Env struct{}

func NewDefaultEnv() *Env                             { return &Env{} }
func (e *Env) SetBackgroundThreads(n int)             {}
func (e *Env) SetHighPriorityBackgroundThreads(n int) {}
func (e *Env) Destroy()                               {}

type BlockBasedTableOptions struct{}

func NewDefaultBlockBasedTableOptions() *BlockBasedTableOptions              { return &BlockBasedTableOptions{} }
func (o *BlockBasedTableOptions) Destroy()                                   {}
func (o *BlockBasedTableOptions) SetCacheIndexAndFilterBlocks(b bool)        {}
func (o *BlockBasedTableOptions) SetPinL0FilterAndIndexBlocksInCache(b bool) {}
func (o *BlockBasedTableOptions) SetBlockSize(n int)                         {}
func (o *BlockBasedTableOptions) SetBlockSizeDeviation(n int)                {}
func (o *BlockBasedTableOptions) SetBlockRestartInterval(n int)              {}
func (o *BlockBasedTableOptions) SetFilterPolicy(fp FilterPolicy)            {}
func (o *BlockBasedTableOptions) SetNoBlockCache(b bool)                     {}
func (o *BlockBasedTableOptions) SetBlockCache(c *Cache)                     {}
func (o *BlockBasedTableOptions) SetBlockCacheCompressed(c *Cache)           {}
func (o *BlockBasedTableOptions) SetWholeKeyFiltering(b bool)                {}
func (o *BlockBasedTableOptions) SetIndexType(v IndexType)                   {}

type CompactionFilter interface {
	Filter(level int, key, val []byte) (remove bool, newVal []byte)
	Name() string
}

type Options struct {
	create  bool
	errIfEx bool
	filter  CompactionFilter
}

func NewDefaultOptions() *Options                                      { return &Options{} }
func (o *Options) Destroy()                                            {}
func (o *Options) SetCreateIfMissing(b bool)                           { o.create = b }
func (o *Options) SetErrorIfExists(b bool)                             { o.errIfEx = b }
func (o *Options) SetCompactionFilter(f CompactionFilter)              { o.filter = f }
func (o *Options) SetBlockBasedTableFactory(b *BlockBasedTableOptions) {}
func (o *Options) SetMaxOpenFiles(n int)                               {}
func (o *Options) SetMaxFileOpeningThreads(n int)                      {}
func (o *Options) IncreaseParallelism(n int)                           {}
func (o *Options) OptimizeLevelStyleCompaction(n uint64)               {}
func (o *Options) OptimizeUniversalStyleCompaction(n uint64)           {}
func (o *Options) OptimizeForPointLookup(n uint64)                     {}
func (o *Options) PrepareForBulkLoad()                                 {}
func (o *Options) SetCompression(c CompressionType)                    {}
func (o *Options) SetCompressionPerLevel(c []CompressionType)          {}
func (o *Options) SetWriteBufferSize(n int)                            {}
func (o *Options) SetMaxWriteBufferNumber(n int)                       {}
func (o *Options) SetMinWriteBufferNumberToMerge(n int)                {}
func (o *Options) SetTargetFileSizeBase(n uint64)                      {}
func (o *Options) SetTargetFileSizeMultiplier(n int)                   {}
func (o *Options) SetMaxBytesForLevelBase(n uint64)                    {}
func (o *Options) SetMaxBytesForLevelMultiplier(n float64)             {}
func (o *Options) SetLevelCompactionDynamicLevelBytes(b bool)          {}
func (o *Options) SetLevel0FileNumCompactionTrigger(n int)             {}
func (o *Options) SetLevel0SlowdownWritesTrigger(n int)                {}
func (o *Options) SetLevel0StopWritesTrigger(n int)                    {}
func (o *Options) SetMaxBackgroundCompactions(n int)                   {}
func (o *Options) SetMaxBackgroundFlushes(n int)                       {}
func (o *Options) SetDisableAutoCompactions(b bool)                    {}
func (o *Options) SetUseFsync(b bool)                                  {}
func (o *Options) SetParanoidChecks(b bool)                            {}
func (o *Options) SetEnv(e *Env)                                       {}
func (o *Options) SetNumLevels(n int)                                  {}
func (o *Options) SetCompactionStyle(s CompactionStyle)                {}
func (o *Options) SetBytesPerSync(n uint64)                            {}
func (o *Options) SetWALRecoveryMode(m WALRecoveryMode)                {}
func (o *Options) SetWalDir(s string)                                  {}
func (o *Options) SetDbLogDir(s string)                                {}
func (o *Options) SetInfoLogLevel(l InfoLogLevel)                      {}
func (o *Options) SetKeepLogFileNum(n int)                             {}
func (o *Options) SetMaxManifestFileSize(n uint64)                     {}
func (o *Options) SetAllowMmapReads(b bool)                            {}
func (o *Options) SetAllowMmapWrites(b bool)                           {}
func (o *Options) SetAllowConcurrentMemtableWrites(b bool)             {}
func (o *Options) SetUseDirectReads(b bool)                            {}
func (o *Options) EnableStatistics()                                   {}
func (o *Options) SetStatsDumpPeriodSec(n uint)                        {}
func (o *Options) SetCreateIfMissingColumnFamilies(b bool)             {}

type ReadOptions struct {
	lower, upper []byte
	snap         *Snapshot
}

func NewDefaultReadOptions() *ReadOptions              { return &ReadOptions{} }
func (o *ReadOptions) Destroy()                        {}
func (o *ReadOptions) SetVerifyChecksums(b bool)       {}
func (o *ReadOptions) SetFillCache(b bool)             {}
func (o *ReadOptions) SetTailing(b bool)               {}
func (o *ReadOptions) SetReadaheadSize(n uint64)       {}
func (o *ReadOptions) SetPinData(b bool)               {}
func (o *ReadOptions) SetReadTier(t ReadTier)          {}
func (o *ReadOptions) SetPrefixSameAsStart(b bool)     {}
func (o *ReadOptions) SetIterateUpperBound(key []byte) { o.upper = append([]byte(nil), key...) }
func (o *ReadOptions) SetSnapshot(s *Snapshot)         { o.snap = s }

type WriteOptions struct{ sync bool }

func NewDefaultWriteOptions() *WriteOptions  { return &WriteOptions{} }
func (o *WriteOptions) Destroy()             {}
func (o *WriteOptions) SetSync(b bool)       { o.sync = b }
func (o *WriteOptions) DisableWAL(b bool)    {}
func (o *WriteOptions) SetNoSlowdown(b bool) {}
func (o *WriteOptions) SetLowPri(b bool)     {}

type FlushOptions struct{}

func NewDefaultFlushOptions() *FlushOptions { return &FlushOptions{} }
func (o *FlushOptions) Destroy()            {}
func (o *FlushOptions) SetWait(b bool)      {}

type Slice struct {
	d  []byte
	ok bool
}
type Slices []*Slice

func (s Slices) Destroy()     {}
func (s *Slice) Data() []byte { return s.d }
func (s *Slice) Size() int    { return len(s.d) }
func (s *Slice) Exists() bool { return s.ok }
func (s *Slice) Free()        {}

type PinnableSliceHandle struct{ s *Slice }

func (h *PinnableSliceHandle) Data() []byte { return h.s.d }
func (h *PinnableSliceHandle) Destroy()     {}
func (h *PinnableSliceHandle) Exists() bool { return h.s.ok }

type Snapshot struct{ p []vw.Pair }
type Range struct{ Start, Limit []byte }

type DB struct {
	w      *vw.World
	in     string
	kv     *vw.KV
	filter CompactionFilter
	closed bool
	name   string
}

func OpenDb(opts *Options, name string) (*DB, error) {
	w, in := vw.Lookup(name)
	if w == nil {
		return nil, errors.New("fake rocksdb: path is outside every world: " + name)
	}
	kv := w.KVOpen(in, opts.create)
	if kv == nil {
		return nil, errors.New("Invalid argument: " + name + ": does not exist (create_if_missing is false)")
	}
	kv.Filter = nil
	if f := opts.filter; f != nil {
		kv.Filter = func(k, v []byte) (bool, []byte) { return f.Filter(0, k, v) }
	}
	return &DB{w: w, in: in, kv: kv, filter: opts.filter, name: name}, nil
}

func (db *DB) use() {
	if db.closed {
		panic("fake rocksdb: use after close")
	}
}
func (db *DB) Name() string { return db.name }

func (db *DB) Get(o *ReadOptions, key []byte) (*Slice, error) {
	db.use()
	v, ok := db.w.KVGet(db.kv, string(key))
	return &Slice{v, ok}, nil
}
func (db *DB) GetBytes(o *ReadOptions, key []byte) ([]byte, error) {
	db.use()
	v, ok := db.w.KVGet(db.kv, string(key))
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (db *DB) GetPinned(o *ReadOptions, key []byte) (*PinnableSliceHandle, error) {
	s, err := db.Get(o, key)
	return &PinnableSliceHandle{s}, err
}
func (db *DB) MultiGet(o *ReadOptions, keys ...[]byte) (Slices, error) {
	var r Slices
	for _, k := range keys {
		s, _ := db.Get(o, k)
		r = append(r, s)
	}
	return r, nil
}
func (db *DB) Put(o *WriteOptions, key, value []byte) error {
	db.use()
	db.w.KVWrite(db.in, db.kv, []vw.KVOp{{Key: string(key), Val: append([]byte{}, value...)}}, o.sync)
	return nil
}
func (db *DB) Delete(o *WriteOptions, key []byte) error {
	db.use()
	db.w.KVWrite(db.in, db.kv, []vw.KVOp{{Key: string(key), Del: true}}, o.sync)
	return nil
}
func (db *DB) Write(o *WriteOptions, b *WriteBatch) error {
	db.use()
	b.use()
	ops := append([]vw.KVOp(nil), b.ops...)
	var out []vw.KVOp
	for _, op := range ops {
		if op.Del && op.Val != nil { // range delete: Key..Val
			for _, p := range db.w.KVSnapshot(db.kv) {
				if p.K >= op.Key && p.K < string(op.Val) {
					out = append(out, vw.KVOp{Key: p.K, Del: true})
				}
			}
			for _, q := range out {
				if !q.Del && q.Key >= op.Key && q.Key < string(op.Val) {
					out = append(out, vw.KVOp{Key: q.Key, Del: true})
				}
			}
			continue
		}
		out = append(out, op)
	}
	db.w.KVWrite(db.in, db.kv, out, o.sync)
	return nil
}
func (db *DB) NewIterator(o *ReadOptions) *Iterator {
	db.use()
	p := db.w.KVSnapshot(db.kv)
	if o.snap != nil {
		p = o.snap.p
	}
	if o.upper != nil {
		i := sort.Search(len(p), func(i int) bool { return p[i].K >= string(o.upper) })
		p = p[:i]
	}
	return &Iterator{p: p, i: -1}
}
func (db *DB) NewSnapshot() *Snapshot      { return &Snapshot{db.w.KVSnapshot(db.kv)} }
func (db *DB) ReleaseSnapshot(s *Snapshot) {}
func (db *DB) GetProperty(n string) string { return "" }
func (db *DB) Flush(o *FlushOptions) error { db.use(); return nil }
func (db *DB) CompactRange(r Range) {
	db.use()
	if db.filter == nil {
		return
	}
	db.w.KVCompact(db.in, db.kv, func(k, v []byte) (bool, []byte) {
		if r.Start != nil && string(k) < string(r.Start) || r.Limit != nil && string(k) >= string(r.Limit) {
			return false, v
		}
		return db.filter.Filter(0, k, v)
	})
}
func (db *DB) Close() {
	db.use()
	db.closed = true
	db.w.Mu.Lock()
	db.kv.Open--
	db.w.Mu.Unlock()
}
func DestroyDb(name string, opts *Options) error { return nil }
func RepairDb(name string, opts *Options) error  { return nil }

type WriteBatch struct {
	ops  []vw.KVOp
	dead bool
}

func NewWriteBatch() *WriteBatch { return &WriteBatch{} }
func (b *WriteBatch) use() {
	if b.dead {
		panic("fake rocksdb: write batch used after Destroy")
	}
}
func (b *WriteBatch) Put(key, value []byte) {
	b.use()
	b.ops = append(b.ops, vw.KVOp{Key: string(key), Val: append([]byte{}, value...)})
}
func (b *WriteBatch) Delete(key []byte) {
	b.use()
	b.ops = append(b.ops, vw.KVOp{Key: string(key), Del: true})
}
func (b *WriteBatch) DeleteRange(s, e []byte) {
	b.use()
	b.ops = append(b.ops, vw.KVOp{Key: string(s), Val: append([]byte{}, e...), Del: true})
}
func (b *WriteBatch) Clear()     { b.use(); b.ops = nil }
func (b *WriteBatch) Count() int { b.use(); return len(b.ops) }
func (b *WriteBatch) Data() []byte {
	b.use()
	return make([]byte, 12+len(b.ops))
}
func (b *WriteBatch) Destroy() { b.dead = true; b.ops = nil }

type Iterator struct {
	p []vw.Pair
	i int
}

func (it *Iterator) Valid() bool { return it.i >= 0 && it.i < len(it.p) }
func (it *Iterator) ValidForPrefix(prefix []byte) bool {
	return it.Valid() && len(it.p[it.i].K) >= len(prefix) && it.p[it.i].K[:len(prefix)] == string(prefix)
}
func (it *Iterator) Key() *Slice {
	if !it.Valid() {
		return nil
	}
	return &Slice{[]byte(it.p[it.i].K), true}
}
func (it *Iterator) Value() *Slice {
	if !it.Valid() {
		return nil
	}
	return &Slice{it.p[it.i].V, true}
}
func (it *Iterator) Next() {
	if it.Valid() {
		it.i++
	}
}
func (it *Iterator) Prev() {
	if it.Valid() {
		it.i--
	}
}
func (it *Iterator) SeekToFirst() { it.i = 0 }
func (it *Iterator) SeekToLast()  { it.i = len(it.p) - 1 }
func (it *Iterator) Seek(key []byte) {
	it.i = sort.Search(len(it.p), func(i int) bool { return it.p[i].K >= string(key) })
}
func (it *Iterator) SeekForPrev(key []byte) {
	it.i = sort.Search(len(it.p), func(i int) bool { return it.p[i].K > string(key) }) - 1
}
func (it *Iterator) Err() error { return nil }
func (it *Iterator) Close()     { it.p = nil; it.i = -1 }
