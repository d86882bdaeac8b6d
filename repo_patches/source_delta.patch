From ddd35dac0426f7f1a667fe92b764930d2b57c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 01/12] fix: ignore keys inserted and deleted within the same
 block

A fresh key that was Set and then Delete'd before EndWrite has an OpDelete
operation and no serial number. update() treated it as a deletion of an
existing entry, marked it modified, and then appended it as a live entry.
---
 moeingads.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moeingads.go b/moeingads.go
index 827df28..6d96d8a 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -539,6 +539,9 @@ func (mads *MoeingADS) update() {
 		if isFakeInserted(hotEntry) {
 			continue
 		}
+		if hotEntry.Operation == types.OpDelete && hotEntry.EntryPtr.SerialNum == -1 {
+			continue // inserted and deleted in the same block: it never existed
+		}
 		if hotEntry.Operation == types.OpDelete {
 			hotEntry.IsModified = true
 			next := getNext(mads.cachedEntries, i)
-- 
2.43.0


From 70135d97ed7fff59bf7e05fa79b54ef87bc1c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 02/12] fix: reject proofs without upper nodes instead of
 panicking

BytesToProofPath accepts a byte string with an empty upper path, and Check
then indexed UpperPath[0].
---
 datatree/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..3b90a79 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -79,6 +79,9 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 }
 
 func (pp *ProofPath) Check(complete bool) error {
+	if len(pp.UpperPath) == 0 { // there is always at least one level above the twigs
+		return errors.New("Upper path is empty")
+	}
 	for i := 0; i < len(pp.LeftOfTwig)-1; i++ {
 		var res []byte
 		if pp.LeftOfTwig[i].PeerAtLeft {
-- 
2.43.0


From 63f96ede06ab8d05f4766562bd593aa80a819df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 03/12] fix: reject proofs whose serial number exceeds their
 path

The bits of SerialNum above the number of levels in the path do not take part
in the hash computation, so a proof with any of them flipped was accepted.
---
 datatree/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datatree/proof.go b/datatree/proof.go
index 3b90a79..32c331a 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -54,6 +54,9 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 	}
 	pp.UpperPath = make([]ProofNode, upperCount)
 	pp.SerialNum = int64(binary.LittleEndian.Uint64(bz[:8]))
+	if pp.SerialNum>>(FirstLevelAboveTwig-2+upperCount) != 0 { // these bits cannot be authenticated by this path
+		return nil, fmt.Errorf("Serial number %d is out of the range of a path with %d upper nodes", pp.SerialNum, upperCount)
+	}
 	bz = bz[8:]
 	copy(pp.LeftOfTwig[0].SelfHash[:], bz[:32])
 	bz = bz[32:]
-- 
2.43.0


From c76f808fc8f7a546288637941a6f523b8d0746ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 04/12] fix: drop the read-ahead buffer when a file is
 truncated

HPFile.Truncate left PreReader's content in place, so data appended after the
truncation could be shadowed by the stale bytes fetched before it.
---
 datatree/hpfile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 487d29e..db9ea1a 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -107,6 +107,7 @@ func (hpf *HPFile) Size() int64 {
 }
 
 func (hpf *HPFile) Truncate(size int64) error {
+	hpf.preReader.fileID = -1 // the data fetched before may be cut off and replaced
 	for size < int64(hpf.largestID)*int64(hpf.blockSize) {
 		f := hpf.fileMap[hpf.largestID]
 		err := f.Close()
-- 
2.43.0


From cbd9157420f9603d448bfe4819cb3ab25c92b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 05/12] fix: keep the twig hashes that recovery reads when
 pruning

---
 datatree/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..7c83502 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -409,7 +409,8 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
+	// RecoverTree still reads the twig before endID and its left sibling
+	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
 	return tree.ReapNodes(startID, endID)
 }
 
-- 
2.43.0


From 37b1d97751e68b4e7de3ea37e903bd1d8de45c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 06/12] fix: commit the last pruned twig when pruning

---
 moeingads.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeingads.go b/moeingads.go
index 6d96d8a..a7d383a 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -745,6 +745,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.Commit() // LastPrunedTwig must be durable together with EdgeNodes
 	mads.kvdb.CloseOldBatch()
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
-- 
2.43.0


From 58b2fd5570d7bdf0afc08f23e3fd0eb515de6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 07/12] fix: remove pruned files only after the edge nodes are
 durable

---
 datatree/mock_datatree.go | 7 +++++++
 datatree/tree.go          | 8 +++++++-
 moeingads.go              | 8 +++++++-
 types/types.go            | 2 ++
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 797eeda..378c2d5 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -116,6 +116,13 @@ func (dt *MockDataTree) PruneTwigs(startID, endID int64) []byte {
 	return nil
 }
 
+func (dt *MockDataTree) ReapNodes(start, end int64) []byte {
+	return nil
+}
+
+func (dt *MockDataTree) PruneFiles(endID int64) {
+}
+
 func (dt *MockDataTree) GetFileSizes() (int64, int64) {
 	return 0, 0
 }
diff --git a/datatree/tree.go b/datatree/tree.go
index 7c83502..b4db042 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -406,12 +406,18 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	if endID-startID < MinPruneCount {
 		panic(fmt.Sprintf("The count of pruned twigs is too small: %d", endID-startID))
 	}
+	tree.PruneFiles(endID)
+	return tree.ReapNodes(startID, endID)
+}
+
+// PruneFiles removes the disk data of the twigs before endID. The edge nodes returned by
+// ReapNodes must have been saved before calling it.
+func (tree *Tree) PruneFiles(endID int64) {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
 	// RecoverTree still reads the twig before endID and its left sibling
 	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
-	return tree.ReapNodes(startID, endID)
 }
 
 func (tree *Tree) ReapNodes(start, end int64) []byte {
diff --git a/moeingads.go b/moeingads.go
index a7d383a..409f4c4 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -737,7 +737,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		start, end := starts[shardID], ends[shardID]
 		if end > start+datatree.MinPruneCount {
-			edgeNodesBytes := mads.datTree[shardID].PruneTwigs(start, end)
+			edgeNodesBytes := mads.datTree[shardID].ReapNodes(start, end)
 			mads.meta.SetEdgeNodes(shardID, edgeNodesBytes)
 			for twig := start; twig < end; twig++ {
 				mads.meta.DeleteTwigHeight(shardID, twig)
@@ -747,6 +747,12 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	}
 	mads.meta.Commit() // LastPrunedTwig must be durable together with EdgeNodes
 	mads.kvdb.CloseOldBatch()
+	// Only after the edge nodes are durable can the files holding the pruned twigs be removed
+	for shardID := 0; shardID < types.ShardCount; shardID++ {
+		if start, end := starts[shardID], ends[shardID]; end > start+datatree.MinPruneCount {
+			mads.datTree[shardID].PruneFiles(end)
+		}
+	}
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
diff --git a/types/types.go b/types/types.go
index 83f1153..69eb4da 100644
--- a/types/types.go
+++ b/types/types.go
@@ -99,6 +99,8 @@ type DataTree interface {
 	ScanEntriesLite(oldestActiveTwigID int64, outChan chan KeyAndPos)
 	TwigCanBePruned(twigID int64) bool
 	PruneTwigs(startID, endID int64) []byte
+	ReapNodes(start, end int64) []byte
+	PruneFiles(endID int64)
 	GetFileSizes() (int64, int64)
 	EndBlock() [32]byte
 	WaitForFlushing()
-- 
2.43.0


From 4ec26e1d463b9a1ccbb70a117aff7fc8b81b8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 08/12] fix: remember the prune height across restarts

Without it lookups at pruned heights were answered again after a restart
(with old versions, or a panic when the segment file was gone).
---
 metadb/metadb.go | 22 ++++++++++++++++++++++
 moeingads.go     |  6 +++++-
 types/types.go   |  4 ++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/metadb/metadb.go b/metadb/metadb.go
index d99c0f7..978740e 100644
--- a/metadb/metadb.go
+++ b/metadb/metadb.go
@@ -21,6 +21,7 @@ const (
 	ByteOldestActiveTwigID = byte(0x17)
 	ByteIsRunning          = byte(0x18) //Not Used
 	ByteRootHash           = byte(0x19)
+	BytePruneHeight        = byte(0x1A)
 )
 
 type MetaDB struct {
@@ -200,6 +201,27 @@ func (db *MetaDB) SetEdgeNodes(shardID int, bz []byte) {
 	db.kvdb.CurrBatch().Set([]byte{ByteEdgeNodes, byte(shardID)}, bz)
 }
 
+func (db *MetaDB) GetPruneHeight() int64 {
+	bz := db.kvdb.Get([]byte{BytePruneHeight})
+	if bz != nil {
+		return int64(binary.LittleEndian.Uint64(bz))
+	}
+	return -1
+}
+
+func (db *MetaDB) SetPruneHeight(height int64) {
+	if height <= db.GetPruneHeight() {
+		return
+	}
+	db.mtx.Lock()
+	defer db.mtx.Unlock()
+	var buf [8]byte
+	binary.LittleEndian.PutUint64(buf[:], uint64(height))
+	db.kvdb.LockBatch()
+	defer db.kvdb.UnlockBatch()
+	db.kvdb.CurrBatch().Set([]byte{BytePruneHeight}, buf[:])
+}
+
 func (db *MetaDB) GetMaxSerialNum(shardID int) int64 {
 	return db.maxSerialNum[shardID]
 }
diff --git a/moeingads.go b/moeingads.go
index 409f4c4..22f4b75 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -105,6 +105,9 @@ func NewMoeingADS(dirName string, canQueryHistory bool, startEndKeys [][]byte) (
 	mads.meta = metadb.NewMetaDB(mads.kvdb)
 	if !dirNotExists {
 		mads.meta.ReloadFromKVDB()
+		if pruneHeight := mads.meta.GetPruneHeight(); pruneHeight >= 0 {
+			mads.kvdb.SetPruneHeight(uint64(pruneHeight))
+		}
 		//mads.meta.PrintInfo()
 	}
 
@@ -745,15 +748,16 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.SetPruneHeight(height)
 	mads.meta.Commit() // LastPrunedTwig must be durable together with EdgeNodes
 	mads.kvdb.CloseOldBatch()
+	mads.kvdb.SetPruneHeight(uint64(height))
 	// Only after the edge nodes are durable can the files holding the pruned twigs be removed
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		if start, end := starts[shardID], ends[shardID]; end > start+datatree.MinPruneCount {
 			mads.datTree[shardID].PruneFiles(end)
 		}
 	}
-	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
 func (mads *MoeingADS) CheckHashConsistency() {
diff --git a/types/types.go b/types/types.go
index 69eb4da..834a1e0 100644
--- a/types/types.go
+++ b/types/types.go
@@ -134,6 +134,10 @@ type MetaDB interface {
 	SetEdgeNodes(shardID int, bz []byte)
 	GetEdgeNodes(shardID int) []byte
 
+	// PruneHeight is the largest height ever passed to PruneBeforeHeight, -1 if there was none
+	SetPruneHeight(height int64)
+	GetPruneHeight() int64
+
 	// MaxSerialNum is the maximum serial num among all the entries
 	GetMaxSerialNum(shardID int) int64
 	IncrMaxSerialNum(shardID int) // It should call setTwigHeight(twigID int64, height int64)
-- 
2.43.0


From 5a8f44aba16dfa9dc9dedd349a7cae9b62c56501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 09/12] fix: skip foreign records when rebuilding the index

Init did not advance the iterator on a record of another kind and looped
forever on any store that also holds metadata.
---
 indextree/indextree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index ef3fadb..92a1108 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -137,6 +137,7 @@ func (tree *NVTreeMem) Init(repFn func([]byte)) (err error) {
 		k := iter.Key()
 		v := iter.Value()
 		if k[0] != 0 {
+			iter.Next()
 			continue // the first byte must be zero
 		}
 		k = k[1:]
-- 
2.43.0


From fd8138036d5736f9fceeae9bd24214d34d6935db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 10/12] fix: keep the largest prune height also within one
 batch

The prune height is kept in memory like the other scalar items and written
by Commit, so a lower height set before the commit cannot replace it.
---
 metadb/metadb.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/metadb/metadb.go b/metadb/metadb.go
index 978740e..6474c5f 100644
--- a/metadb/metadb.go
+++ b/metadb/metadb.go
@@ -27,6 +27,7 @@ const (
 type MetaDB struct {
 	kvdb               indextree.IKVDB
 	currHeight         int64
+	pruneHeight        int64
 	lastPrunedTwig     [types.ShardCount]int64
 	maxSerialNum       [types.ShardCount]int64
 	oldestActiveTwigID [types.ShardCount]int64
@@ -37,7 +38,7 @@ type MetaDB struct {
 var _ types.MetaDB = (*MetaDB)(nil)
 
 func NewMetaDB(kvdb indextree.IKVDB) *MetaDB {
-	return &MetaDB{kvdb: kvdb}
+	return &MetaDB{kvdb: kvdb, pruneHeight: -1}
 }
 
 func (db *MetaDB) Close() {
@@ -57,6 +58,12 @@ func (db *MetaDB) ReloadFromKVDB() {
 		db.currHeight = int64(binary.LittleEndian.Uint64(bz))
 	}
 
+	db.pruneHeight = -1
+	bz = db.kvdb.Get([]byte{BytePruneHeight})
+	if bz != nil {
+		db.pruneHeight = int64(binary.LittleEndian.Uint64(bz))
+	}
+
 	for i := 0; i < types.ShardCount; i++ {
 		bz = db.kvdb.Get([]byte{ByteLastPrunedTwig, byte(i)})
 		if bz != nil {
@@ -91,6 +98,11 @@ func (db *MetaDB) Commit() {
 
 	db.kvdb.CurrBatch().Set([]byte{ByteCurrHeight}, buf[:])
 
+	if db.pruneHeight >= 0 {
+		binary.LittleEndian.PutUint64(buf[:], uint64(db.pruneHeight))
+		db.kvdb.CurrBatch().Set([]byte{BytePruneHeight}, buf[:])
+	}
+
 	for i := 0; i < types.ShardCount; i++ {
 		binary.LittleEndian.PutUint64(buf[:], uint64(db.lastPrunedTwig[i]))
 		db.kvdb.CurrBatch().Set([]byte{ByteLastPrunedTwig, byte(i)}, buf[:])
@@ -202,24 +214,13 @@ func (db *MetaDB) SetEdgeNodes(shardID int, bz []byte) {
 }
 
 func (db *MetaDB) GetPruneHeight() int64 {
-	bz := db.kvdb.Get([]byte{BytePruneHeight})
-	if bz != nil {
-		return int64(binary.LittleEndian.Uint64(bz))
-	}
-	return -1
+	return db.pruneHeight
 }
 
 func (db *MetaDB) SetPruneHeight(height int64) {
-	if height <= db.GetPruneHeight() {
-		return
+	if db.pruneHeight < height {
+		db.pruneHeight = height
 	}
-	db.mtx.Lock()
-	defer db.mtx.Unlock()
-	var buf [8]byte
-	binary.LittleEndian.PutUint64(buf[:], uint64(height))
-	db.kvdb.LockBatch()
-	defer db.kvdb.UnlockBatch()
-	db.kvdb.CurrBatch().Set([]byte{BytePruneHeight}, buf[:])
 }
 
 func (db *MetaDB) GetMaxSerialNum(shardID int) int64 {
@@ -256,6 +257,7 @@ func (db *MetaDB) IncrOldestActiveTwigID(shardID int) {
 
 func (db *MetaDB) Init() {
 	db.currHeight = 0
+	db.pruneHeight = -1
 	for i := 0; i < types.ShardCount; i++ {
 		db.lastPrunedTwig[i] = -1
 		db.maxSerialNum[i] = 0
-- 
2.43.0


From d7de5da2523687eceb02f6fad34de1f4362aa883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 11/12] fix: the stand-in data tree never closed the channel of
 active entries, so the first compaction on it waited for ever

---
 datatree/mock_datatree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 378c2d5..417cdf1 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -95,6 +95,7 @@ func (dt *MockDataTree) GetActiveEntriesInTwig(twigID int64) chan []byte {
 				res <- EntryToBytes(entry, nil)
 			}
 		}
+		close(res) // or the compaction would wait for more entries for ever
 	}()
 	return res
 }
-- 
2.43.0


From f175f0b0bfa4a462e61d98c133626179d33f5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 12/12] fix: the stand-in data tree skipped four bytes too many
 when it decoded a masked entry, so moving one panicked or stored garbage

---
 datatree/mock_datatree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 417cdf1..2079060 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -42,7 +42,7 @@ func EntryFromRawBytes(b []byte) *Entry {
 	}
 	bb = append([]byte{}, b[4:]...)
 	n := recoverMagicBytes(bb)
-	e, _ := EntryFromBytes(bb[n+4:], 0)
+	e, _ := EntryFromBytes(bb[n:], 0) // n is behind the end mark
 	return e
 }
 
-- 
2.43.0

