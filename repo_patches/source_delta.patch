From 5f1943b948a6d9727f16f2e637888acc303bc919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 01/38] fix: find returns newest generation not newer than the
 requested one

The lookup returned the first generation following the requested one, even
if an older one that satisfies the request is present, and panicked for keys
that sort after the metadata key.
---
 pkg/btrfs/index/index_store.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..f2ee473 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -292,12 +292,17 @@ func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	search := newIndexKey(owner, k, generation)
 	var found keyV2
 	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
+	if bytes.Equal(found, search) {
 		return found, v
 	}
-	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
-		found[:keyV2Generation], search[:keyV2Generation]) {
+	// No exact match, prefer the newest of the older generations
+	if prev, pv := c.Prev(); len(prev) > 0 && bytes.Equal(
+		prev[:keyV2Generation], search[:keyV2Generation]) {
+		return prev, pv
+	}
+	// Otherwise fall back to the earliest generation
+	if len(found) > 0 && bytes.Equal(found[:keyV2Generation],
+		search[:keyV2Generation]) {
 		return found, v
 	}
 	return nil, nil
-- 
2.43.0


From b37ddc47819c2483dd6e50a4e8ce6a0597bb9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 02/38] fix: ranges visit every key once at the selected
 generation

Iterating stopped at the first key that has no item at exactly the same
generation as its predecessor and could return stale versions or the same
key forever.
---
 pkg/btrfs/index/index_store.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index f2ee473..e0b5d17 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -308,19 +308,18 @@ func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	return nil, nil
 }
 
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
+func findNext(c *bbolt.Cursor, ik, end keyV2, generation uint64) (keyV2,
+	btrfs.Item) {
 	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
 	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
+	if found, _ = c.Seek(search); bytes.Equal(found, search) {
+		// Still a version of the current key
+		found, _ = c.Next()
 	}
-	return nil, nil
+	if found == nil || bytes.Compare(found, end) > 0 {
+		return nil, nil
+	}
+	return find(c, found.Owner(), found.Key(), generation)
 }
 
 // Range encapsulates a generic index range. Internally, it holds a cursor of
@@ -341,7 +340,8 @@ func (r *Range) HasNext() bool {
 }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
+	if r.key, r.value = findNext(r.cursor, r.key, r.end,
+		r.ix.Generation); r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -357,7 +357,7 @@ func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(owner, last, ix.Generation),
+		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
 	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
 		keyV2Offset)
-- 
2.43.0


From 9b6a543681bf8b439daf5c7d170e28731f9d55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 03/38] fix: honor the lower bound of index ranges

Ranges ignored the key offset of their first key and came out empty if the
object of the first key had no items. Subvolumes() returned nothing if the
subvolume with the lowest id was missing, for example.
---
 pkg/btrfs/index/index_store.go | 37 +++++++++-------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index e0b5d17..1f42bac 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -259,32 +259,16 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
+// lowerBound finds the first FS key under a given owner that is not smaller
+// than k, regardless of its generation.
+func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key) btrfs.Key {
+	var cur keyV2
+	search := newIndexKey(owner, k, 0)
 	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
+	if cur == nil || !bytes.Equal(cur[:keyV2Type], search[:keyV2Type]) {
 		return KL()
 	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
+	return cur.Key()
 }
 
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
@@ -352,17 +336,16 @@ func (r *Range) Key() btrfs.Key     { return r.key.Key() }
 func (r *Range) Generation() uint64 { return r.key.Generation() }
 func (r *Range) Item() btrfs.Item   { return r.value }
 
-// Range returns an index range [first, last) for the given keys.
+// Range returns an index range [first, last] for the given keys.
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
 		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
+	lowerFirst := lowerBound(r.cursor, owner, first)
 	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
-	if r.key != nil {
+	if r.HasNext() {
 		return r, r.value.Data()
 	}
 	return r, nil
-- 
2.43.0


From 72c9b4fa1a46d78c8de405d003c0479f79da5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 04/38] fix: do not return the index metadata as an item

FullRange() returned the metadata record as its last item and panicked for
indices without any items.
---
 pkg/btrfs/index/index_store.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 1f42bac..992ca47 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -361,24 +361,31 @@ type FullRange struct {
 }
 
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+	if r.key, r.value = r.cursor.Next(); r.HasNext() {
 		return r.value.Data()
 	}
 	return nil
 }
 
+// HasNext returns whether the range is positioned at an item. The index
+// metadata is not an item and always comes last.
+func (r *FullRange) HasNext() bool {
+	return r.key != nil && !bytes.Equal(r.key, r.end)
+}
+
 // FullRange returns an index range for all items in the index regardless of
 // generation. This is mainly useful for debugging.
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
+		end:    metadataKey,
 	}}
 	// No check, since openIndex should fail if there's no data
-	r.key, r.value = r.cursor.First()
-	return r, r.value.Data()
+	if r.key, r.value = r.cursor.First(); r.HasNext() {
+		return r, r.value.Data()
+	}
+	return r, nil
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From c95f8fbe8091ef8263b839b8611b8138a39454ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 05/38] fix: do not panic when mapping addresses without any
 chunk items

Also remove the debug output that mixed with the regular output.
---
 pkg/btrfs/index/index_store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 992ca47..566e4ba 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -21,8 +21,6 @@ import (
 	"go.etcd.io/bbolt"
 )
 
-func init() { fmt.Printf("") } //DBG!!!
-
 // Fake FS key used for metadata. Also acts as a sentinel value for
 // non-existing FS objects. Since it always sorts lexicographically last,
 // Seek() on the "index" bucket will never return nil.
@@ -469,11 +467,14 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 				logical: r.Key().Offset,
 				devID:   s.DevID(),
 				offset:  s.Offset()})
-			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
 	}
 
 	stripeMapLen := len(ix.stripeMap)
+	if stripeMapLen == 0 {
+		// No chunks to map with
+		return 0, logical
+	}
 	// Index structure entries are sorted
 	i := sort.Search(stripeMapLen, func(i int) bool {
 		return ix.stripeMap[i].logical >= logical
-- 
2.43.0


From 34eee9c378890977b3a1dbcb6eaa4935610cf792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 06/38] fix: guard the lazy initialization of the stripe map

Concurrent file reads on a mounted filesystem could observe a partial map.
---
 pkg/btrfs/index/index_store.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 566e4ba..f4919a1 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"sort"
 	"strings"
+	"sync"
 
 	"fmt"
 
@@ -51,7 +52,8 @@ type Index struct {
 	txNum      int
 	Generation uint64
 
-	stripeMap []stripeMapEntry
+	stripeMap     []stripeMapEntry
+	stripeMapOnce sync.Once
 }
 
 // Options sets options for opening a metadata index.
@@ -455,7 +457,8 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 // Note: No attempt is made to deal with "holes", missing chunk entries, or
 // logical addresses not mapping to any chunk.
 func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
-	if ix.stripeMap == nil {
+	// Read-only indices may be used concurrently, i.e. when mounted
+	ix.stripeMapOnce.Do(func() {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
 			if c.NumStripes() == 0 {
@@ -468,7 +471,7 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 				devID:   s.DevID(),
 				offset:  s.Offset()})
 		}
-	}
+	})
 
 	stripeMapLen := len(ix.stripeMap)
 	if stripeMapLen == 0 {
-- 
2.43.0


From 25ce000d016282253dc3dc8360e923e5c70c6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 07/38] fix: stay within the leaf for corrupted item counts,
 offsets and sizes

---
 pkg/btrfs/leaf.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..be7df49 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -60,7 +60,16 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+
+// Data returns the data of this item. If the size of the item is corrupted,
+// only returns what was actually stored.
+func (i Item) Data() []byte {
+	end := uint64(len(i))
+	if e := ItemLen + uint64(i.Size()); e < end {
+		end = e
+	}
+	return i[ItemLen:end]
+}
 
 type Leaf []byte
 
@@ -69,7 +78,7 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	maxItems := (len(l) - HeaderLen) / ItemLen
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
@@ -96,10 +105,13 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
+	o := HeaderLen + uint64(item.Offset())
+	// Guard against invalid Item offsets and lengths.
+	leafLen := uint64(len(l))
+	if o > leafLen {
+		o = leafLen
+	}
+	e := o + uint64(item.Size())
 	if e > leafLen {
 		e = leafLen
 	}
-- 
2.43.0


From 154ebcc4c630b89259e4f3ac33be8da483ad9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 08/38] fix: do not panic on items that are too short for their
 type

---
 pkg/btrfs/leaf.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index be7df49..0976b42 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -62,13 +62,39 @@ func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
 
 // Data returns the data of this item. If the size of the item is corrupted,
-// only returns what was actually stored.
+// only returns what was actually stored, padded with zeros to what accessing
+// its fields requires.
 func (i Item) Data() []byte {
 	end := uint64(len(i))
 	if e := ItemLen + uint64(i.Size()); e < end {
 		end = e
 	}
-	return i[ItemLen:end]
+	data := i[ItemLen:end]
+	if minLen := i.minDataLen(data); len(data) < minLen {
+		padded := make([]byte, minLen)
+		copy(padded, data)
+		return padded
+	}
+	return data
+}
+
+// minDataLen returns how much data an undamaged item has at least.
+func (i Item) minDataLen(data []byte) int {
+	switch i.Key().Type {
+	case InodeItemKey:
+		return InodeItemLen
+	case XAttrItemKey, DirItemKey, DirIndexKey:
+		return dirItemName
+	case ExtentDataKey:
+		if len(data) > fileExtentItemType &&
+			data[fileExtentItemType] != FileExtentInline {
+			return FileExtentItemEnd
+		}
+		return fileExtentItemDiskByteNr
+	case ChunkItemKey:
+		return chunkStripes + stripeEnd
+	}
+	return 0
 }
 
 type Leaf []byte
-- 
2.43.0


From 9a35d51a3b91e08e4b5ea8652ffdfcd517f1d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 09/38] fix: clamp corrupted lengths of names and inline data

Inline data longer than the default block size is no longer cut off.
---
 pkg/btrfs/btrfs.go | 17 ++++++++---------
 pkg/btrfs/slice.go | 12 ++++++++++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..e9bd249 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -517,7 +517,7 @@ func (i InodeRefItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(i[inodeRefItemName : inodeRefItemName+l])
+	return sliceString(i, inodeRefItemName, l)
 }
 
 // Directory item type
@@ -557,12 +557,11 @@ func (d DirItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(d[dirItemName : dirItemName+l])
+	return sliceString(d, dirItemName, l)
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	return sliceString(d, dirItemName+int(d.NameLen()), int(d.DataLen()))
 }
 
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
@@ -664,11 +663,11 @@ func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
-	if l > DefaultBlockSize {
-		l = DefaultBlockSize
+	l := len(i)
+	if n := i.RAMBytes(); n < uint64(l) {
+		l = int(n)
 	}
-	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
+	return sliceString(i, fileExtentItemDiskByteNr, l)
 }
 
 type CSumItem []byte
@@ -794,7 +793,7 @@ func (r RootRef) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(r[rootRefName : rootRefName+l])
+	return sliceString(r, rootRefName, l)
 }
 
 // Extent item flags
diff --git a/pkg/btrfs/slice.go b/pkg/btrfs/slice.go
index edcb022..ea171bb 100644
--- a/pkg/btrfs/slice.go
+++ b/pkg/btrfs/slice.go
@@ -22,6 +22,18 @@ func SliceUUID(b []byte) uuid.UUID {
 	return u
 }
 
+// sliceString returns up to n bytes starting at offset o, less if there are
+// not as many.
+func sliceString(b []byte, o, n int) string {
+	if o > len(b) {
+		o = len(b)
+	}
+	if n > len(b)-o {
+		n = len(b) - o
+	}
+	return string(b[o : o+n])
+}
+
 func SliceKey(b []byte) Key {
 	return Key{SliceUint64LE(b), uint8(b[8]), SliceUint64LE(b[9:])}
 }
-- 
2.43.0


From 23e8fbded4bf2a4b3abe58aacab1d52bc0b8566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 10/38] fix: ReadBlockAt reports exactly whether the block was
 filled

A short read without an error was reported as success, a full read together
with EOF as a failure.
---
 pkg/ioutil/ioutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/ioutil/ioutil.go b/pkg/ioutil/ioutil.go
index 4be2863..bd89bd5 100644
--- a/pkg/ioutil/ioutil.go
+++ b/pkg/ioutil/ioutil.go
@@ -13,10 +13,12 @@ import (
 //
 // It always either reads a full block or reports an error.
 func ReadBlockAt(r io.ReaderAt, block []byte, offset uint64) error {
-	if read, err := r.ReadAt(block, int64(offset)); err != nil {
-		return err
-	} else if read == len(block) {
+	read, err := r.ReadAt(block, int64(offset))
+	if read == len(block) && err == io.EOF {
 		return nil // Never return EOF if read succeeded
 	}
-	return nil
+	if read < len(block) && err == nil {
+		return io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From a6d3f22fe92d59ccee2e035b858c08beef341e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 11/38] fix: recon does not mistake superblock copies for
 leaves

---
 cmd/recon.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index bd4585d..dbfc9b7 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -20,6 +20,9 @@ import (
 	"blichmann.eu/code/btrfscue/pkg/uuid"
 )
 
+// Offset of the magic number in a superblock
+const superMagicOffset = 64
+
 type scanFSOptions struct {
 	id     uuid.UUID
 	append bool
@@ -96,6 +99,11 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		if h.FSID() != options.id || h.NrItems() == 0 {
 			continue
 		}
+		// A superblock copy has the same FSID and if it contains a log tree,
+		// its remaining fields look like those of a leaf.
+		if btrfs.SliceUint64LE(buf[superMagicOffset:]) == btrfs.Magic {
+			continue
+		}
 		// Also skip all non-leaves (= nodes)
 		if !h.IsLeaf() {
 			//cliutil.Warnf("non-leaf %d at offset %d, level %d\n", h.ByteNr(),
-- 
2.43.0


From cb71b34390d01ff27fa591d9ea409526b966ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 12/38] fix: path lookup handles colliding names and
 non-directories

Entries whose names have the same hash share one item, but only the first
was considered. Also, path components after one that is not a directory were
looked up nevertheless.
---
 pkg/btrfs/btrfs.go             | 10 ++++++++++
 pkg/btrfs/index/index_store.go | 19 +++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index e9bd249..a9d8276 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -564,6 +564,16 @@ func (d DirItem) Data() string {
 	return sliceString(d, dirItemName+int(d.NameLen()), int(d.DataLen()))
 }
 
+// Next returns the directory item following this one or nil if there is none.
+// Items whose names have the same hash are stored back to back.
+func (d DirItem) Next() DirItem {
+	end := dirItemName + int(d.NameLen()) + int(d.DataLen())
+	if len(d) < end+dirItemName {
+		return nil
+	}
+	return d[end:]
+}
+
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index f4919a1..e82b9e4 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -508,23 +508,30 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		// (dirID, BTRFS_DIR_ITEM, CRC32(comp))
 		if v := ix.FindItem(owner, KF(btrfs.DirItemKey, dirID,
 			uint64(NameHash(comp)))); v != nil {
-			d = v.Data()
-			if found = d.Name() == comp; found {
-				result = d
+			for d = v.Data(); d != nil; d = d.Next() {
+				if found = d.Name() == comp; found {
+					result = d
+					break
+				}
 			}
 		}
 		if !found {
 			// Slow path: Lookup items in directory (dirID, BTRFS_DIR_INDEX, ?)
 			var r Range
 			for r, d = ix.DirItems(owner, dirID); r.HasNext(); d = r.Next() {
-				if found = d.Name() == comp && (d.IsDir() || last); found {
-					result = d
+				for ; d != nil; d = d.Next() {
+					if found = d.Name() == comp; found {
+						result = d
+						break
+					}
+				}
+				if found {
 					break
 				}
 			}
 		}
 
-		if !found {
+		if !found || !(d.IsDir() || last) {
 			return nil
 		}
 		if !d.IsSubvolume() {
-- 
2.43.0


From a532ce85ca256c9e5aff791e62ac6ab71ec1a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 13/38] fix: ls follows subvolumes, terminates on loops and
 lists colliding names

---
 cmd/ls.go                      | 57 +++++++++++++++++++++++++++-------
 pkg/btrfs/index/index_store.go | 16 ++++++++--
 2 files changed, 60 insertions(+), 13 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..ec60810 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path"
 	"sort"
+	"strings"
 	"text/tabwriter"
 	"time"
 
@@ -61,9 +62,33 @@ func shortTime(t time.Time) string {
 	return t.Format("Jan _2 15:04")
 }
 
+// dirItemTarget returns the tree and the inode that a directory item in the
+// tree of the given owner refers to. For subvolumes, this is the top-level
+// directory of another tree.
+func dirItemTarget(owner uint64, di btrfs.DirItem) (uint64, uint64) {
+	if di.IsSubvolume() {
+		return di.Location().ObjectID, btrfs.FirstFreeObjectID
+	}
+	return owner, di.Location().ObjectID
+}
+
+// printableName returns a name with all bytes escaped that would otherwise
+// break up the table: control characters and the escape byte of tabwriter.
+func printableName(name string) string {
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		if c := name[i]; c < ' ' || c == 0x7F || c == tabwriter.Escape {
+			fmt.Fprintf(&b, "\\%03o", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
-	inode := di.Location().ObjectID
+	owner, inode := dirItemTarget(owner, di)
 	if showInode {
 		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
 	}
@@ -75,7 +100,7 @@ func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 			ii.Nlink(), ii.UID(), ii.GID(), ii.Size(), shortTime(ii.Ctime()))
 	}
 
-	fmt.Fprintf(w, "\t%s\n", di.Name())
+	fmt.Fprintf(w, "\t%s\n", printableName(di.Name()))
 	// TODO(cblichmann): Print symlinks
 }
 
@@ -95,24 +120,32 @@ func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
+	recursive, showInode bool, visited map[[2]uint64]bool) {
+	visited[[2]uint64{owner, dirID}] = true
 	dis := dirItemSlice{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
+		// Entries whose names have the same hash share an item
+		for ; v != nil; v = v.Next() {
+			dis = append(dis, v)
+		}
 	}
 	sort.Sort(dis)
 	todo := dirItemSlice{}
 	for _, di := range dis {
 		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
 
 	for _, di := range todo {
-		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		subOwner, subDirID := dirItemTarget(owner, di)
+		if visited[[2]uint64{subOwner, subDirID}] {
+			// Damaged metadata may contain loops
+			continue
+		}
+		fmt.Fprintf(w, "%s:\n", printableName(di.Name()))
+		listDirectory(w, ix, subOwner, subDirID, true, showInode, visited)
 	}
 }
 
@@ -166,21 +199,23 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		if di, diOwner := ix.FindOwnedDirItemForPath(owner, p); di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
-			listDirItem(w, ix, owner, di, options.Inode)
+			listDirItem(w, ix, diOwner, di, options.Inode)
 			continue
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			subOwner, subDirID := dirItemTarget(diOwner, di)
+			todo = append(todo, Todo{subOwner, subDirID})
 		}
 	}
 	w.Flush()
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
+			make(map[[2]uint64]bool))
 	}
 	w.Flush()
 }
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index e82b9e4..a47e37c 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -497,6 +497,15 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
 // the path is clean, as returned by path.Clean().
 func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
+	d, _ := ix.FindOwnedDirItemForPath(owner, path)
+	return d
+}
+
+// FindOwnedDirItemForPath is like FindDirItemForPath() and also returns the
+// tree that contains the DirItem. It differs from the specified owner if the
+// path leads through subvolumes.
+func (ix *Index) FindOwnedDirItemForPath(owner uint64, path string) (
+	btrfs.DirItem, uint64) {
 	result := btrfs.DirItem(nil)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 	pathComps := strings.Split(strings.TrimLeft(path, "/"), "/")
@@ -532,7 +541,10 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		}
 
 		if !found || !(d.IsDir() || last) {
-			return nil
+			return nil, 0
+		}
+		if last {
+			break
 		}
 		if !d.IsSubvolume() {
 			dirID = d.Location().ObjectID
@@ -541,7 +553,7 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			dirID = btrfs.FirstFreeObjectID
 		}
 	}
-	return result
+	return result, owner
 }
 
 func keyFirst(k *btrfs.Key, args []uint64) {
-- 
2.43.0


From dad85cef48d0aa814fef08e64fbc444dc9e7b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 14/38] fix: recover does not follow links or hostile names out
 of the destination

---
 cmd/recover.go | 80 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 11 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..7a1e250 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -6,6 +6,7 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -57,6 +58,9 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 	if err := os.MkdirAll(destDir, 0755); err != nil {
 		cliutil.Fatalf("failed to create destination directory: %v\n", err)
 	}
+	// The destination itself may be a symbolic link, but none is followed below
+	destDir, err = filepath.EvalSymlinks(destDir)
+	cliutil.ReportError(err)
 
 	visited := make(map[[2]uint64]bool)
 
@@ -84,6 +88,49 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 	}
 }
 
+// makeDir creates a directory. In contrast to os.MkdirAll(), it does not accept
+// a symbolic link in its place.
+func makeDir(path string) error {
+	err := os.Mkdir(path, 0755)
+	if os.IsExist(err) {
+		if fi, lerr := os.Lstat(path); lerr == nil && fi.IsDir() {
+			return nil
+		}
+	}
+	return err
+}
+
+// mayCreate returns whether to create a file or symbolic link, i.e. that there
+// is no existing entry that should be kept.
+func mayCreate(path string, options recoverFilesOptions) (bool, error) {
+	fi, err := os.Lstat(path)
+	if os.IsNotExist(err) {
+		return true, nil
+	}
+	if err != nil {
+		return false, err
+	}
+	if options.clobber && fi.IsDir() {
+		return false, errors.New("existing directory is in the way")
+	}
+	return options.clobber, nil
+}
+
+// removeExisting removes a file or symbolic link. These are not overwritten
+// in place, as they may refer to other files.
+func removeExisting(path string) error {
+	if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	return nil
+}
+
+func isValidName(name string) bool {
+	return name != "" && name != "." && name != ".." &&
+		!strings.ContainsRune(name, '/') &&
+		!strings.ContainsRune(name, os.PathSeparator)
+}
+
 func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentDest string, options recoverFilesOptions, visited map[[2]uint64]bool) error {
 	key := [2]uint64{owner, dirID}
 	if visited[key] {
@@ -91,7 +138,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	}
 	visited[key] = true
 
-	if err := os.MkdirAll(currentDest, 0755); err != nil {
+	if err := makeDir(currentDest); err != nil {
 		return err
 	}
 
@@ -102,7 +149,8 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	for _, di := range dis {
 		name := di.Name()
-		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if !isValidName(name) {
+			cliutil.Warnf("skipping entry with invalid name %q in %s\n", name, currentDest)
 			continue
 		}
 
@@ -134,7 +182,9 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 }
 
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
+	if ok, err := mayCreate(targetPath, options); err != nil {
+		return err
+	} else if !ok {
 		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
 		return nil
 	}
@@ -145,7 +195,10 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	if err := removeExisting(targetPath); err != nil {
+		return err
+	}
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
@@ -223,12 +276,11 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 }
 
 func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Lstat(targetPath); err == nil {
-		if !options.clobber {
-			cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
-			return nil
-		}
-		_ = os.Remove(targetPath)
+	if ok, err := mayCreate(targetPath, options); err != nil {
+		return err
+	} else if !ok {
+		cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
+		return nil
 	}
 
 	e := ix.FindFileExtentItem(owner, inode)
@@ -255,5 +307,11 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 	}
 
 	cliutil.Verbosef("recovering symlink: %s -> %s\n", targetPath, target)
-	return os.Symlink(target, targetPath)
+	err := os.Symlink(target, targetPath)
+	if os.IsExist(err) {
+		if err = removeExisting(targetPath); err == nil {
+			err = os.Symlink(target, targetPath)
+		}
+	}
+	return err
 }
-- 
2.43.0


From 61c9c80e5a0ecef76bb764bb8af3c133e4e45a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 15/38] fix: recover keeps colliding and otherwise unreachable
 entries and reports what it skips

---
 cmd/recover.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 7a1e250..e12bf09 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -73,7 +73,7 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 		cliutil.Warnf("failed to recover root directory: %v\n", err)
 	}
 
-		// Also find and recover any other subvolumes that weren't visited
+	// Also find and recover any other subvolumes that weren't visited
 	for r, _ := ix.Subvolumes(); r.HasNext(); _ = r.Next() {
 		subOwner := r.Key().ObjectID
 		key := [2]uint64{subOwner, btrfs.FirstFreeObjectID}
@@ -134,17 +134,19 @@ func isValidName(name string) bool {
 func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentDest string, options recoverFilesOptions, visited map[[2]uint64]bool) error {
 	key := [2]uint64{owner, dirID}
 	if visited[key] {
-		return nil
+		return errors.New("directory was already recovered elsewhere")
 	}
-	visited[key] = true
-
 	if err := makeDir(currentDest); err != nil {
 		return err
 	}
+	visited[key] = true
 
 	dis := []btrfs.DirItem{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
+		// Entries whose names have the same hash share an item
+		for ; v != nil; v = v.Next() {
+			dis = append(dis, v)
+		}
 	}
 
 	for _, di := range dis {
@@ -174,8 +176,10 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 			if err := recoverSymlink(ix, devFile, owner, di.Location().ObjectID, targetPath, options); err != nil {
 				cliutil.Warnf("failed to recover symlink %s: %v\n", targetPath, err)
 			}
+		} else if t := di.Type(); t == btrfs.FtChrdev || t == btrfs.FtBlkdev || t == btrfs.FtFifo || t == btrfs.FtSock {
+			cliutil.Verbosef("skipping special file %s of type %d\n", targetPath, t)
 		} else {
-			cliutil.Verbosef("skipping special file %s of type %d\n", targetPath, di.Type())
+			cliutil.Warnf("skipping %s of unknown type %d\n", targetPath, t)
 		}
 	}
 	return nil
-- 
2.43.0


From aeb9754956398759f3e38fb078fe050dc480b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 16/38] fix: recover writes newest data, zeros for preallocated
 ranges, and reports incomplete files

---
 cmd/recover.go                   | 150 ++++++++++++++++--------------
 pkg/btrfs/index/file_segments.go | 152 +++++++++++++++++++++++++++++++
 pkg/btrfs/index/index_store.go   |  17 ++--
 3 files changed, 244 insertions(+), 75 deletions(-)
 create mode 100644 pkg/btrfs/index/file_segments.go

diff --git a/cmd/recover.go b/cmd/recover.go
index e12bf09..2caae39 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -193,10 +193,13 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		return nil
 	}
 
+	segments := ix.FileSegments(owner, inode)
 	ii := ix.FindInodeItem(owner, inode)
 	var fileSize uint64
 	if ii != nil {
 		fileSize = ii.Size()
+	} else if n := len(segments); n > 0 {
+		fileSize = segments[n-1].Offset + segments[n-1].Length
 	}
 
 	if err := removeExisting(targetPath); err != nil {
@@ -210,71 +213,71 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 
 	cliutil.Verbosef("recovering file: %s (size: %d)\n", targetPath, fileSize)
 
-	r, e := ix.FileExtentItems(owner, inode)
-	if !r.HasNext() {
-		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
+	// Recover as much as possible and only then report that it is incomplete
+	var incomplete error
+	if ii == nil {
+		incomplete = errors.New("inode not found, file may be incomplete")
+	}
+	for _, s := range segments {
+		if s.Offset >= fileSize {
+			break
+		}
+		if n := fileSize - s.Offset; s.Length > n {
+			s.Length = n
+		}
+		if err := recoverSegment(ix, devFile, f, s); err != nil && incomplete == nil {
+			incomplete = err
 		}
-		return nil
 	}
+	if err := f.Truncate(int64(fileSize)); err != nil {
+		return fmt.Errorf("truncate failed: %w", err)
+	}
+	return incomplete
+}
 
-	for ; r.HasNext(); e = r.Next() {
-		fileOffset := r.Key().Offset
-
-		if e.IsInline() {
-			inlineData := []byte(e.Data())
-			limit := len(inlineData)
-			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
-				limit = int(fileSize - fileOffset)
-			}
-			if limit > 0 {
-				if _, err := f.WriteAt(inlineData[:limit], int64(fileOffset)); err != nil {
-					return fmt.Errorf("write inline data failed: %w", err)
-				}
-			}
-		} else {
-			numBytes := e.NumBytes()
-			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-					return fmt.Errorf("write zeros failed: %w", err)
-				}
-			} else {
-				_, physOffset := ix.Physical(e.DiskByteNr())
-				srcOffset := physOffset + e.Offset()
-
-				const chunkSize = 1024 * 1024
-				buf := make([]byte, chunkSize)
-
-				var bytesCopied uint64 = 0
-				for bytesCopied < numBytes {
-					toCopy := numBytes - bytesCopied
-					if toCopy > chunkSize {
-						toCopy = chunkSize
-					}
-
-					n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset+bytesCopied))
-					if n > 0 {
-						if _, wErr := f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr != nil {
-							return fmt.Errorf("write file data failed: %w", wErr)
-						}
-						bytesCopied += uint64(n)
-					}
-					if err != nil {
-						if err == io.EOF && bytesCopied < numBytes {
-							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
-						}
-						break
-					}
-				}
-			}
+func recoverSegment(ix *index.Index, devFile, f *os.File, s index.FileSegment) error {
+	if s.IsEncoded() {
+		return fmt.Errorf("compressed or encoded data at offset %d is not supported", s.Offset)
+	}
+	if s.Item.IsInline() {
+		data := s.InlineData()
+		if _, err := f.WriteAt([]byte(data), int64(s.Offset)); err != nil {
+			return fmt.Errorf("write inline data failed: %w", err)
+		}
+		if uint64(len(data)) < s.Length {
+			return errors.New("inline data is incomplete")
 		}
+		return nil
+	}
+	if s.IsZero() {
+		// The file is empty initially, so there is no need to write anything
+		return nil
+	}
+	srcOffset, ok := ix.SegmentOffset(&s)
+	if !ok {
+		return fmt.Errorf("no chunk contains the data at offset %d", s.Offset)
 	}
 
-	if ii != nil {
-		if err := f.Truncate(int64(fileSize)); err != nil {
-			return fmt.Errorf("truncate failed: %w", err)
+	const chunkSize = 1024 * 1024
+	buf := make([]byte, chunkSize)
+	for copied := int64(0); copied < int64(s.Length); {
+		toCopy := int64(s.Length) - copied
+		if toCopy > chunkSize {
+			toCopy = chunkSize
+		}
+		n, err := devFile.ReadAt(buf[:toCopy], srcOffset+copied)
+		if n > 0 {
+			if _, wErr := f.WriteAt(buf[:n], int64(s.Offset)+copied); wErr != nil {
+				return fmt.Errorf("write file data failed: %w", wErr)
+			}
+		}
+		if int64(n) < toCopy {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return fmt.Errorf("reading device/image failed: %w", err)
 		}
+		copied += int64(n)
 	}
 	return nil
 }
@@ -292,22 +295,31 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		return fmt.Errorf("symlink extent not found")
 	}
 
+	s := index.FileSegment{Item: e}
+	if s.IsEncoded() {
+		return errors.New("compressed or encoded symlink target is not supported")
+	}
 	var target string
 	if e.IsInline() {
 		target = e.Data()
+		if uint64(len(target)) < e.RAMBytes() {
+			return errors.New("symlink target is incomplete")
+		}
 	} else {
-		if e.DiskByteNr() > 0 && devFile != nil {
-			_, physOffset := ix.Physical(e.DiskByteNr())
-			srcOffset := physOffset + e.Offset()
-			buf := make([]byte, e.NumBytes())
-			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
-				target = string(buf)
-			} else {
-				return fmt.Errorf("failed to read symlink target: %w", err)
-			}
-		} else {
-			return fmt.Errorf("symlink target is not inline and device file is missing/invalid")
+		s.Length = e.NumBytes()
+		if ii := ix.FindInodeItem(owner, inode); ii != nil && ii.Size() < s.Length {
+			s.Length = ii.Size()
+		}
+		const maxTarget = 64 * 1024
+		srcOffset, ok := ix.SegmentOffset(&s)
+		if !ok || s.IsZero() || s.Length > maxTarget {
+			return errors.New("invalid symlink target")
+		}
+		buf := make([]byte, s.Length)
+		if n, err := devFile.ReadAt(buf, srcOffset); n < len(buf) {
+			return fmt.Errorf("failed to read symlink target: %w", err)
 		}
+		target = string(buf)
 	}
 
 	cliutil.Verbosef("recovering symlink: %s -> %s\n", targetPath, target)
diff --git a/pkg/btrfs/index/file_segments.go b/pkg/btrfs/index/file_segments.go
new file mode 100644
index 0000000..6147357
--- /dev/null
+++ b/pkg/btrfs/index/file_segments.go
@@ -0,0 +1,152 @@
+// Copyright btrfscue authors
+// SPDX-License-Identifier: BSD-2-Clause
+
+// Layout of file data
+
+package index
+
+import (
+	"math"
+	"sort"
+
+	"blichmann.eu/code/btrfscue/pkg/btrfs"
+)
+
+// FileSegment is a part of a file that is stored in a single extent.
+type FileSegment struct {
+	Offset uint64 // Offset in the file
+	Length uint64
+	Skip   uint64 // Number of bytes to skip in the data of the extent
+	Item   btrfs.FileExtentItem
+}
+
+func (s *FileSegment) end() uint64 { return s.Offset + s.Length }
+
+// IsEncoded returns whether the data is compressed or otherwise encoded.
+func (s *FileSegment) IsEncoded() bool {
+	return s.Item.Compression() != 0 || s.Item.Encryption() != 0 ||
+		s.Item.OtherEncoding() != 0
+}
+
+// IsZero returns whether the segment reads as zeros, that is, whether it is a
+// hole or was preallocated but not written to.
+func (s *FileSegment) IsZero() bool {
+	return !s.Item.IsInline() && (s.Item.DiskByteNr() == 0 ||
+		s.Item.Type() == btrfs.FileExtentPreAlloc)
+}
+
+// InlineData returns the data of a segment that is stored inline. It returns
+// less than the length of the segment if the item was cut short.
+func (s *FileSegment) InlineData() string {
+	data := s.Item.Data()
+	if s.Skip >= uint64(len(data)) {
+		return ""
+	}
+	data = data[s.Skip:]
+	if s.Length < uint64(len(data)) {
+		data = data[:s.Length]
+	}
+	return data
+}
+
+// FileSegments returns the parts of a file in ascending order and without
+// overlaps. Extents of different generations may overlap each other, as an
+// index also contains leaves that are no longer in use. In this case, the
+// newest extent wins.
+func (ix *Index) FileSegments(owner, id uint64) []FileSegment {
+	type extent struct {
+		FileSegment
+		generation uint64
+	}
+	var extents []extent
+	for r, e := ix.FileExtentItems(owner, id); r.HasNext(); e = r.Next() {
+		s := FileSegment{Offset: r.Key().Offset, Item: e}
+		if e.IsInline() {
+			s.Length = uint64(len(e.Data()))
+			if n := e.RAMBytes(); n > s.Length {
+				s.Length = n
+			}
+		} else {
+			s.Length = e.NumBytes()
+		}
+		// File sizes are limited to 63 bits
+		if s.Offset > math.MaxInt64 {
+			continue
+		}
+		if max := math.MaxInt64 - s.Offset; s.Length > max {
+			s.Length = max
+		}
+		if s.Length > 0 {
+			extents = append(extents, extent{s, r.Generation()})
+		}
+	}
+	sort.SliceStable(extents, func(i, j int) bool {
+		return extents[i].generation < extents[j].generation
+	})
+	segments := make([]FileSegment, 0, len(extents))
+	for _, e := range extents {
+		segments = overlay(segments, e.FileSegment)
+	}
+	return segments
+}
+
+// overlay adds a segment to a list of segments and replaces all parts that
+// overlap with it.
+func overlay(segments []FileSegment, s FileSegment) []FileSegment {
+	// Segments in [i, j) overlap with the new one
+	i := sort.Search(len(segments), func(n int) bool {
+		return segments[n].end() > s.Offset
+	})
+	j := i + sort.Search(len(segments)-i, func(n int) bool {
+		return segments[i+n].Offset >= s.end()
+	})
+	parts := make([]FileSegment, 0, 3)
+	if i < j && segments[i].Offset < s.Offset {
+		first := segments[i]
+		first.Length = s.Offset - first.Offset
+		parts = append(parts, first)
+	}
+	parts = append(parts, s)
+	if i < j && segments[j-1].end() > s.end() {
+		last := segments[j-1]
+		n := s.end() - last.Offset
+		last.Offset += n
+		last.Skip += n
+		last.Length -= n
+		parts = append(parts, last)
+	}
+	if i == len(segments) {
+		return append(segments, parts...)
+	}
+	tail := append(parts, segments[j:]...)
+	return append(segments[:i], tail...)
+}
+
+// SegmentOffset maps a segment that is stored in a regular extent to its
+// physical, on-disk offset. It returns false if there is no chunk that contains
+// all of its data.
+func (ix *Index) SegmentOffset(s *FileSegment) (int64, bool) {
+	ix.ensureStripeMap()
+	logical := s.Item.DiskByteNr()
+	for _, n := range []uint64{s.Item.Offset(), s.Skip} {
+		if logical += n; logical < n {
+			return 0, false
+		}
+	}
+	i := sort.Search(len(ix.stripeMap), func(n int) bool {
+		return ix.stripeMap[n].logical > logical
+	}) - 1
+	if i < 0 {
+		return 0, false
+	}
+	c := ix.stripeMap[i]
+	delta := logical - c.logical
+	if delta > c.length || s.Length > c.length-delta {
+		return 0, false
+	}
+	if c.offset > math.MaxInt64 || delta > math.MaxInt64-c.offset ||
+		s.Length > math.MaxInt64-c.offset-delta {
+		return 0, false
+	}
+	return int64(c.offset + delta), true
+}
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index a47e37c..0eed605 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -36,6 +36,7 @@ const (
 
 type stripeMapEntry struct {
 	logical uint64
+	length  uint64
 	devID   uint64
 	offset  uint64
 }
@@ -453,10 +454,8 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 	return nil
 }
 
-// Physical maps a filesystem logical address to a physical, on-disk address.
-// Note: No attempt is made to deal with "holes", missing chunk entries, or
-// logical addresses not mapping to any chunk.
-func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
+// ensureStripeMap builds the table to map logical addresses with.
+func (ix *Index) ensureStripeMap() {
 	// Read-only indices may be used concurrently, i.e. when mounted
 	ix.stripeMapOnce.Do(func() {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
@@ -468,10 +467,18 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 			s := c.Stripe(0)
 			ix.stripeMap = append(ix.stripeMap, stripeMapEntry{
 				logical: r.Key().Offset,
+				length:  c.Length(),
 				devID:   s.DevID(),
 				offset:  s.Offset()})
 		}
 	})
+}
+
+// Physical maps a filesystem logical address to a physical, on-disk address.
+// Note: No attempt is made to deal with "holes", missing chunk entries, or
+// logical addresses not mapping to any chunk. Use SegmentOffset() for these.
+func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
+	ix.ensureStripeMap()
 
 	stripeMapLen := len(ix.stripeMap)
 	if stripeMapLen == 0 {
@@ -489,8 +496,6 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 		i--
 	}
 	s := ix.stripeMap[i]
-	// TODO(cblichmann): We can check for the failure case if we store the
-	//                   stripe length in the cache and do a range check here.
 	return s.devID, s.offset + logical - s.logical
 }
 
-- 
2.43.0


From f5e8e922d9e346b9d45ab57e9ef99eca0aab44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 17/38] fix: identify derives block size from all leaves and
 sorts reproducibly

---
 internal/identify/collector.go | 27 +++++++++++++++++++--------
 pkg/coding/entropy.go          | 14 +++++++-------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/internal/identify/collector.go b/internal/identify/collector.go
index 3026fa8..da814b1 100644
--- a/internal/identify/collector.go
+++ b/internal/identify/collector.go
@@ -14,6 +14,9 @@ import (
 	"blichmann.eu/code/btrfscue/pkg/uuid"
 )
 
+// superMagicOffset is the offset of the magic in a superblock
+const superMagicOffset = 64
+
 type FSEntry struct {
 	FSID      uuid.UUID
 	Count     uint
@@ -40,6 +43,7 @@ func (a fsEntries) Sort()         { sort.Sort(a) }
 
 type histEntry struct {
 	Count        uint
+	NumSizes     uint // Number of leaves that BlockSizeSum consists of
 	BlockSizeSum uint64
 }
 
@@ -66,13 +70,17 @@ func (c *FSIDCollecter) CollectBlock(block []byte) {
 	if !ok {
 		entry = &histEntry{}
 		c.hist[fsid] = entry
-	} else if h.NrItems() > 0 {
+	}
+	isSuper := btrfs.SliceUint64LE(block[superMagicOffset:]) == btrfs.Magic
+	if h.NrItems() > 0 && !isSuper {
 		item := btrfs.Item(block[btrfs.HeaderLen:])
-		// Since item headers and their data grow towards each other, the
-		// first item's offset will be the largest. In order to guess the
-		// actual block size, sum offsets for all entries belonging to an
+		// Since item headers and their data grow towards each other, the data
+		// of the first item ends where the block does. In order to guess the
+		// actual block size, sum these ends for all entries belonging to an
 		// FSID to compute the average later.
-		entry.BlockSizeSum += uint64(item.Offset())
+		entry.BlockSizeSum += btrfs.HeaderLen + uint64(item.Offset()) +
+			uint64(item.Size())
+		entry.NumSizes++
 	}
 	entry.Count++
 }
@@ -84,9 +92,12 @@ func (c *FSIDCollecter) Entries(minOccurrence uint) []FSEntry {
 	for uuid, entry := range c.hist {
 		if entry.Count >= minOccurrence {
 			// Compute average and round to nearest 4KiB.
-			guess := uint32(float64(entry.BlockSizeSum)/float64(entry.Count)+
-				btrfs.X86RegularPageSize) / btrfs.X86RegularPageSize *
-				btrfs.X86RegularPageSize
+			guess := uint32(btrfs.X86RegularPageSize)
+			if entry.NumSizes > 0 {
+				guess = uint32(float64(entry.BlockSizeSum)/
+					float64(entry.NumSizes)+btrfs.X86RegularPageSize/2) /
+					btrfs.X86RegularPageSize * btrfs.X86RegularPageSize
+			}
 			occ = append(occ, FSEntry{uuid, entry.Count,
 				coding.ShannonEntropy(uuid[:]), guess})
 		}
diff --git a/pkg/coding/entropy.go b/pkg/coding/entropy.go
index 2b9a262..0bfe354 100644
--- a/pkg/coding/entropy.go
+++ b/pkg/coding/entropy.go
@@ -10,18 +10,18 @@ import (
 )
 
 func ShannonEntropy(b []byte) float64 {
-	hist := make(map[byte]uint)
+	var hist [256]uint
 	for _, v := range b {
 		hist[v]++
 	}
-	p := make(map[byte]float64)
 	l := float64(len(b))
-	for v, c := range hist {
-		p[v] = float64(c) / l
-	}
 	e := float64(0)
-	for _, v := range p {
-		e += v * math.Log2(v)
+	// Sum in a fixed order, so that the result is always the same
+	for _, c := range hist {
+		if c > 0 {
+			p := float64(c) / l
+			e += p * math.Log2(p)
+		}
 	}
 	return -e
 }
-- 
2.43.0


From d013ef7ecdfe7e779f484a739b1c58d4c93c10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 18/38] fix: sample offsets stay on the device, terminate and
 cover all superblock copies

---
 internal/identify/identify.go | 37 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..50084e3 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -30,31 +30,30 @@ func (a Uint64Array) Sort()              { sort.Sort(a) }
 
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
 	sampleSet := make(map[uint64]bool)
-	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
-	}
-	if devSize >= btrfs.SuperInfoOffset3 {
-		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
-		}
-		if devSize >= btrfs.SuperInfoOffset4 {
-			// For completeness, handle huge devices
-			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
+	// Sample 100 blocks in the vicinity of all superblock copies that are on
+	// the device.
+	for i, o := range []uint64{btrfs.SuperInfoOffset, btrfs.SuperInfoOffset2,
+		btrfs.SuperInfoOffset3, btrfs.SuperInfoOffset4} {
+		for j := 0; j < 100; j++ {
+			end := o + uint64(i*100+j+1)*blockSize
+			if end <= devSize {
+				sampleSet[end-blockSize] = true
 			}
 		}
 	}
-	numBlocks := int64(devSize / blockSize)
-	for uint64(len(sampleSet)) < numSamples {
-		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
+	numBlocks := devSize / blockSize
+	if numSamples >= numBlocks {
+		for i := uint64(0); i < numBlocks; i++ {
+			sampleSet[i*blockSize] = true
+		}
+	}
+	for uint64(len(sampleSet)) < numSamples && numSamples < numBlocks {
+		sampleSet[uint64(rand.Int63n(int64(numBlocks)))*blockSize] = true
 	}
 	// Sort samples vector to access device in one direction only
-	samples := make(Uint64Array, numSamples)
-	i := 0
+	samples := make(Uint64Array, 0, len(sampleSet))
 	for o := range sampleSet {
-		samples[i] = o
-		i++
+		samples = append(samples, o)
 	}
 	samples.Sort()
 	return samples
-- 
2.43.0


From 595ee5ebc23a6c066df78570de856aa986433941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 19/38] fix: unreadable blocks do not abort recon and identify

---
 cmd/recon.go                  | 4 +++-
 internal/identify/identify.go | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/recon.go b/cmd/recon.go
index dbfc9b7..9c2e658 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -89,7 +89,9 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		if err = ioutil.ReadBlockAt(f, buf, off); err == io.EOF {
 			break
 		} else if err != nil {
-			cliutil.ReportError(err)
+			// Keep going, the other blocks may still be readable
+			cliutil.Warnf("failed to read block at offset %d: %v\n", off, err)
+			continue
 		}
 		bar.SetCurrent(int64(off))
 		l := btrfs.Leaf(buf)
diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index 50084e3..158bc1f 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -105,7 +105,11 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 	coll := FSIDCollecter{}
 	for i, offset := range samples {
 		bar.SetCurrent(int64(i + 1))
-		cliutil.ReportError(ioutil.ReadBlockAt(dev, buf, offset))
+		if err := ioutil.ReadBlockAt(dev, buf, offset); err != nil {
+			// Keep going, the other blocks may still be readable
+			cliutil.Warnf("failed to read block at offset %d: %v\n", offset, err)
+			continue
+		}
 		coll.CollectBlock(buf)
 	}
 	bar.Finish()
-- 
2.43.0


From 8464ac4c248890eec3ea4103ba88d4f26a5aaed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 20/38] fix: refused opens release the metadata file

and opening for reading does not create missing files; records that are
too short to be metadata are refused instead of crashing
---
 pkg/btrfs/index/index_store.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 0eed605..a1f3357 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -99,9 +99,6 @@ func Open(path string, m os.FileMode, o *Options) (*Index, error) {
 
 // OpenReadOnly opens a metadata index for reading/querying.
 func OpenReadOnly(path string) (*Index, error) {
-	if _, err := os.Stat(path); err != nil {
-		return nil, err
-	}
 	return openIndex(path, 0644 /* Mode */, nil)
 }
 
@@ -109,16 +106,24 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 	if o == nil {
 		o = &Options{ReadOnly: true, Generation: ^uint64(0)}
 	}
+	if o.ReadOnly {
+		// Opening the database creates missing files
+		if _, err := os.Stat(path); err != nil {
+			return nil, err
+		}
+	}
 	ix := &Index{Generation: o.Generation}
 	var err error
 	if ix.db, err = bbolt.Open(path, m, &bbolt.Options{
 		ReadOnly: o.ReadOnly}); err != nil {
 		return nil, err
 	}
-	if err = ix.checkUpdateMetadata(o); err != nil {
-		return nil, err
+	if err = ix.checkUpdateMetadata(o); err == nil {
+		err = ix.ensureTx(!o.ReadOnly)
 	}
-	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+	if err != nil {
+		// Release the lock on the file
+		ix.db.Close()
 		return nil, err
 	}
 	return ix, nil
@@ -152,6 +157,9 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 			return nil
 		}
 
+		if len(m) < indexMetadataEnd {
+			return errors.New("invalid metadata")
+		}
 		if !o.AllowOldVersion && m.Version() < MetadataVersion {
 			return fmt.Errorf("metadata version v%d too old, upgrade using "+
 				"upgrade-index", m.Version())
-- 
2.43.0


From 33d8e5fb96955a41db7461b70e076027f433686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 21/38] fix: the rescue directory of a mount stays after the
 kernel forgets it

---
 internal/rescuefs/nodefs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..35e982b 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -130,6 +130,14 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	return fuse.OK
 }
 
+// Deletable returns whether the node can be dropped when the kernel forgets it.
+// This is not the case for the top-level directory, as it cannot be looked up
+// again.
+func (n *rescueNode) Deletable() bool {
+	return n.owner != btrfs.FSTreeObjectID ||
+		n.ixInode != btrfs.FirstFreeObjectID
+}
+
 func (n *rescueNode) ensureDirItems() {
 	if len(n.dirItems) > 0 {
 		return
-- 
2.43.0


From 7e8f6e0b52ca7cf32621781fabbdb960948eb922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 22/38] fix: directory listings of a mount report the types of
 all entries

---
 internal/rescuefs/nodefs.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 35e982b..2a0ba92 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -167,16 +167,31 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	return ch, node.GetAttr(out, nil, context)
 }
 
+func dirEntryMode(di btrfs.DirItem) uint32 {
+	switch di.Type() {
+	case btrfs.FtDir:
+		return fuse.S_IFDIR
+	case btrfs.FtChrdev:
+		return syscall.S_IFCHR
+	case btrfs.FtBlkdev:
+		return syscall.S_IFBLK
+	case btrfs.FtFifo:
+		return fuse.S_IFIFO
+	case btrfs.FtSock:
+		return syscall.S_IFSOCK
+	case btrfs.FtSymlink:
+		return fuse.S_IFLNK
+	default:
+		return fuse.S_IFREG
+	}
+}
+
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
 	n.ensureDirItems()
 	var s []fuse.DirEntry
 	for _, di := range n.dirItems {
-		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
-		if di.IsDir() {
-			entry.Mode = fuse.S_IFDIR
-		}
-		s = append(s, entry)
+		s = append(s, fuse.DirEntry{Name: di.Name(), Mode: dirEntryMode(di)})
 	}
 	return s, fuse.OK
 }
-- 
2.43.0


From a2bf769f1599121513978e939bdfe137efca18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 23/38] fix: names with the same hash are all visible in a
 mount

---
 internal/rescuefs/nodefs.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 2a0ba92..633bb2f 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -143,7 +143,10 @@ func (n *rescueNode) ensureDirItems() {
 		return
 	}
 	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
-		n.dirItems[d.Name()] = d
+		// Entries whose names have the same hash share an item
+		for ; d != nil; d = d.Next() {
+			n.dirItems[d.Name()] = d
+		}
 	}
 }
 
@@ -218,8 +221,10 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 	data []byte, code fuse.Status) {
 	// TODO(cblichmann): This should use btrfs.NameHash() for lookup
 	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
-		if x.Name() == attribute {
-			return []byte(x.Data()), fuse.OK
+		for ; x != nil; x = x.Next() {
+			if x.Name() == attribute {
+				return []byte(x.Data()), fuse.OK
+			}
 		}
 	}
 	return nil, fuse.ENOATTR
@@ -228,7 +233,9 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 	attrs := []string{}
 	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
-		attrs = append(attrs, x.Name())
+		for ; x != nil; x = x.Next() {
+			attrs = append(attrs, x.Name())
+		}
 	}
 	return attrs, fuse.OK
 }
-- 
2.43.0


From bb3200c40397f977804b468c06aa1c6947ae30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 24/38] fix: files in a mount can be read in full and at any
 offset

---
 internal/rescuefs/files.go  | 162 ++++++++++++++++--------------------
 internal/rescuefs/nodefs.go |  15 +---
 2 files changed, 72 insertions(+), 105 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..99b28a0 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,56 +8,31 @@
 package rescuefs
 
 import (
+	"errors"
 	"io"
 
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 )
 
-type extentMapEntry struct {
-	fileOffset uint64
-	length     uint64
-	physOffset uint64
-	diskByteNr uint64
-	devID      uint64
-}
-
 type extentFile struct {
 	nodefs.File
-	fs        *rescueFS
-	owner     uint64
-	inode     uint64
-	extentMap []extentMapEntry
+	fs       *rescueFS
+	owner    uint64
+	inode    uint64
+	segments []index.FileSegment
 }
 
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
-	r, e := fs.ix.FileExtentItems(owner, id)
-	if !r.HasNext() {
-		return nil
-	}
-	f := &extentFile{
-		File:      nodefs.NewReadOnlyFile(nodefs.NewDefaultFile()),
-		fs:        fs,
-		owner:     owner,
-		inode:     id,
-		extentMap: make([]extentMapEntry, 0, 1),
+	return &extentFile{
+		File:     nodefs.NewReadOnlyFile(nodefs.NewDefaultFile()),
+		fs:       fs,
+		owner:    owner,
+		inode:    id,
+		segments: fs.ix.FileSegments(owner, id),
 	}
-	for ; r.HasNext(); e = r.Next() {
-		var phys uint64
-		var dev uint64
-		if e.DiskByteNr() > 0 {
-			dev, phys = fs.ix.Physical(e.DiskByteNr())
-		}
-		f.extentMap = append(f.extentMap, extentMapEntry{
-			fileOffset: r.Key().Offset,
-			length:     e.NumBytes(),
-			physOffset: phys + e.Offset(),
-			diskByteNr: e.DiskByteNr(),
-			devID:      dev,
-		})
-	}
-	return f
 }
 
 func (f *extentFile) String() string {
@@ -83,12 +58,10 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 
 	// Fallback if inode item is not found in metadata
 	out.Mode = fuse.S_IFREG | 0644
-	var size uint64
-	if len(f.extentMap) > 0 {
-		last := f.extentMap[len(f.extentMap)-1]
-		size = last.fileOffset + last.length
+	if n := len(f.segments); n > 0 {
+		last := f.segments[n-1]
+		out.Size = last.Offset + last.Length
 	}
-	out.Size = size
 	return fuse.OK
 }
 
@@ -97,63 +70,70 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		return nil, fuse.EINVAL
 	}
 
-	bytesRead := 0
-	bufLen := len(buf)
-
-	for _, entry := range f.extentMap {
-		if off >= int64(entry.fileOffset+entry.length) {
-			continue
-		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
-			break
-		}
+	// Never read past the end of the file
+	var attr fuse.Attr
+	f.GetAttr(&attr)
+	if uint64(off) >= attr.Size {
+		return fuse.ReadResultData(nil), fuse.OK
+	}
+	if n := attr.Size - uint64(off); n < uint64(len(buf)) {
+		buf = buf[:n]
+	}
 
-		// Calculate overlap between the requested range and the current extent
-		extentStart := int64(entry.fileOffset)
-		extentEnd := int64(entry.fileOffset + entry.length)
+	// Holes and everything in between extents reads as zeros
+	for i := range buf {
+		buf[i] = 0
+	}
 
-		readStart := off
-		if readStart < extentStart {
-			readStart = extentStart
+	first, last := uint64(off), uint64(off)+uint64(len(buf))
+	for i := range f.segments {
+		s := &f.segments[i]
+		start, end := s.Offset, s.Offset+s.Length
+		if start < first {
+			start = first
 		}
-
-		readEnd := off + int64(bufLen-bytesRead)
-		if readEnd > extentEnd {
-			readEnd = extentEnd
+		if end > last {
+			end = last
 		}
-
-		if readEnd <= readStart {
+		if start >= end {
 			continue
 		}
-
-		chunkSize := readEnd - readStart
-		destOffset := readStart - off
-
-		if entry.diskByteNr == 0 {
-			// Sparse hole: fill with zeros
-			for i := int64(0); i < chunkSize; i++ {
-				buf[destOffset+i] = 0
-			}
-		} else {
-			// Read from physical device
-			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
-			if f.fs.dev == nil {
-				// No device file provided: return zeroes
-				for i := int64(0); i < chunkSize; i++ {
-					buf[destOffset+i] = 0
-				}
-			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
-					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
-					return nil, fuse.EIO
-				}
-			}
+		if err := f.readSegment(buf[start-first:end-first], s,
+			start-s.Offset); err != nil {
+			cliutil.Warnf("read error in inode %d at offset %d: %v\n",
+				f.inode, start, err)
+			return nil, fuse.EIO
 		}
-		bytesRead += int(chunkSize)
 	}
+	return fuse.ReadResultData(buf), fuse.OK
+}
 
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
+// readSegment reads data from a segment, starting at a relative offset. The
+// data needs to be completely inside of the segment.
+func (f *extentFile) readSegment(buf []byte, s *index.FileSegment,
+	off uint64) error {
+	switch {
+	case s.IsEncoded():
+		return errors.New("compressed or encrypted data is not supported")
+	case s.IsZero():
+		return nil // The buffer is zero-filled
+	case s.Item.IsInline():
+		data := s.InlineData()
+		if off+uint64(len(buf)) > uint64(len(data)) {
+			return io.ErrUnexpectedEOF
+		}
+		copy(buf, data[off:])
+		return nil
 	}
-	return fuse.ReadResultData(buf), fuse.OK
+	phys, ok := f.fs.ix.SegmentOffset(s)
+	if !ok {
+		return errors.New("no mapping to a device")
+	}
+	if f.fs.dev == nil {
+		return errors.New("no device file given")
+	}
+	if n, err := f.fs.dev.ReadAt(buf, phys+int64(off)); n < len(buf) {
+		return err
+	}
+	return nil
 }
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 633bb2f..8a276ca 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -201,20 +201,7 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 
 func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	// TODO(cblichmann): HACK HACK HACK!
-	r, e := n.ix.FileExtentItems(n.owner, n.ixInode)
-	if !r.HasNext() {
-		return nil, fuse.ENOENT
-	}
-	if e.IsInline() {
-		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
-			[]byte(e.Data()))), fuse.OK
-	}
-
-	if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
-		return f, fuse.OK
-	}
-	return nil, fuse.ENOENT
+	return newExtentFile(n.fs, n.owner, n.ixInode), fuse.OK
 }
 
 func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
-- 
2.43.0


From d242ea825b3fa18453659a4f1a190d2c45779651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 25/38] fix: opening the metadata file of a mount does not
 modify it

---
 internal/rescuefs/nodefs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 8a276ca..bffc5a4 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -75,7 +75,11 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	if f, err := os.OpenFile(n.fs.metadata, int(flags), 0555); err != nil {
+	// The metadata is only ever read, other flags would modify it here already
+	if flags&(syscall.O_ACCMODE|syscall.O_TRUNC) != syscall.O_RDONLY {
+		return nil, fuse.EROFS
+	}
+	if f, err := os.Open(n.fs.metadata); err != nil {
 		return nil, fuse.ToStatus(err)
 	} else {
 		return nodefs.NewReadOnlyFile(nodefs.NewLoopbackFile(f)), fuse.OK
-- 
2.43.0


From f87694828f1b2bf2b4c78dd8e8840309e0525e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 26/38] fix: recover --clobber does not replace the image or
 the metadata

---
 cmd/recover.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/recover.go b/cmd/recover.go
index 2caae39..dcac913 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -23,6 +23,9 @@ import (
 
 type recoverFilesOptions struct {
 	clobber bool
+
+	// The image and metadata, never overwritten
+	inputs []os.FileInfo
 }
 
 func init() {
@@ -54,6 +57,11 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 	f, err := os.Open(imagePath)
 	cliutil.ReportError(err)
 	defer f.Close()
+	for _, p := range []string{imagePath, metadata} {
+		if fi, err := os.Stat(p); err == nil {
+			options.inputs = append(options.inputs, fi)
+		}
+	}
 
 	if err := os.MkdirAll(destDir, 0755); err != nil {
 		cliutil.Fatalf("failed to create destination directory: %v\n", err)
@@ -113,6 +121,11 @@ func mayCreate(path string, options recoverFilesOptions) (bool, error) {
 	if options.clobber && fi.IsDir() {
 		return false, errors.New("existing directory is in the way")
 	}
+	for _, input := range options.inputs {
+		if options.clobber && os.SameFile(fi, input) {
+			return false, errors.New("image or metadata file is in the way")
+		}
+	}
 	return options.clobber, nil
 }
 
-- 
2.43.0


From 6e9b55927a81fdd95e9ad7ab8b50025d1ed29b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 27/38] fix: directory listings of a mount skip names that
 cannot exist

---
 internal/rescuefs/nodefs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index bffc5a4..eb9a8e9 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,6 +9,7 @@ package rescuefs
 
 import (
 	"os"
+	"strings"
 	"syscall"
 	"time"
 
@@ -198,6 +199,10 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	n.ensureDirItems()
 	var s []fuse.DirEntry
 	for _, di := range n.dirItems {
+		// The kernel does not list anything after an impossible name
+		if name := di.Name(); name == "" || strings.Contains(name, "/") {
+			continue
+		}
 		s = append(s, fuse.DirEntry{Name: di.Name(), Mode: dirEntryMode(di)})
 	}
 	return s, fuse.OK
-- 
2.43.0


From 936ee2f306a3850fdea4377c7ba374fa94a9b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 28/38] fix: concurrent requests for a node of a mount do not
 race

Cached attributes and directory entries were filled without a lock, so
that concurrent requests could see some of the entries or crash.
---
 internal/rescuefs/nodefs.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index eb9a8e9..bb4eca2 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -10,6 +10,7 @@ package rescuefs
 import (
 	"os"
 	"strings"
+	"sync"
 	"syscall"
 	"time"
 
@@ -93,23 +94,26 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
+
+	mu       sync.Mutex // Guards the fields below, requests are concurrent
 	attr     *fuse.Attr // Cached attributes
 	dirItems map[string]btrfs.DirItem
 }
 
 func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 	return &rescueNode{
-		Node:     nodefs.NewDefaultNode(),
-		fs:       fs,
-		ix:       fs.ix,
-		owner:    owner,
-		ixInode:  inode,
-		dirItems: make(map[string]btrfs.DirItem),
+		Node:    nodefs.NewDefaultNode(),
+		fs:      fs,
+		ix:      fs.ix,
+		owner:   owner,
+		ixInode: inode,
 	}
 }
 
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
 	if n.attr == nil {
 		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
 		if ii == nil {
@@ -143,22 +147,27 @@ func (n *rescueNode) Deletable() bool {
 		n.ixInode != btrfs.FirstFreeObjectID
 }
 
-func (n *rescueNode) ensureDirItems() {
-	if len(n.dirItems) > 0 {
-		return
+// ensureDirItems returns the entries of a directory. The result is never
+// modified.
+func (n *rescueNode) ensureDirItems() map[string]btrfs.DirItem {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	if n.dirItems != nil {
+		return n.dirItems
 	}
+	n.dirItems = make(map[string]btrfs.DirItem)
 	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
 		// Entries whose names have the same hash share an item
 		for ; d != nil; d = d.Next() {
 			n.dirItems[d.Name()] = d
 		}
 	}
+	return n.dirItems
 }
 
 func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	context *fuse.Context) (*nodefs.Inode, fuse.Status) {
-	n.ensureDirItems()
-	d, ok := n.dirItems[name]
+	d, ok := n.ensureDirItems()[name]
 	if !ok {
 		return nil, fuse.ENOENT
 	}
@@ -196,9 +205,8 @@ func dirEntryMode(di btrfs.DirItem) uint32 {
 
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
-	n.ensureDirItems()
 	var s []fuse.DirEntry
-	for _, di := range n.dirItems {
+	for _, di := range n.ensureDirItems() {
 		// The kernel does not list anything after an impossible name
 		if name := di.Name(); name == "" || strings.Contains(name, "/") {
 			continue
-- 
2.43.0


From dce1e77f09b039a78e2da529d056c8a6586b75e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 29/38] fix: cursors of a read-only index may be created
 concurrently

bbolt counts the cursors of a transaction without synchronization.
---
 pkg/btrfs/index/index_store.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index a1f3357..a18fdcf 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -53,6 +53,8 @@ type Index struct {
 	txNum      int
 	Generation uint64
 
+	cursorMu sync.Mutex
+
 	stripeMap     []stripeMapEntry
 	stripeMapOnce sync.Once
 }
@@ -216,6 +218,14 @@ func (ix *Index) ensureTx(writable bool) error {
 	return err
 }
 
+// newCursor returns a cursor for the index. Transactions count their cursors
+// and read-only indices may be used concurrently, i.e. when mounted.
+func (ix *Index) newCursor() *bbolt.Cursor {
+	ix.cursorMu.Lock()
+	defer ix.cursorMu.Unlock()
+	return ix.bucket.Cursor()
+}
+
 // InsertItem inserts a filesystem item into the index, referenceable by its
 // BTRFS key. Also stores the item's owner and generation number, as well as
 // its inline data.
@@ -349,7 +359,7 @@ func (r *Range) Item() btrfs.Item   { return r.value }
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.newCursor(),
 		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
 	lowerFirst := lowerBound(r.cursor, owner, first)
@@ -387,7 +397,7 @@ func (r *FullRange) HasNext() bool {
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.newCursor(),
 		end:    metadataKey,
 	}}
 	// No check, since openIndex should fail if there's no data
@@ -436,7 +446,7 @@ func (ix *Index) DevItems() (Range, btrfs.DevItem) {
 // to the current index generation. If the index generation is smaller than
 // any existing generation, the data at the earliest generatation is returned.
 func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
-	_, i := find(ix.bucket.Cursor(), owner, k, ix.Generation)
+	_, i := find(ix.newCursor(), owner, k, ix.Generation)
 	return i
 }
 
-- 
2.43.0


From ca34c952f2451159811e523bf90d73d7548e9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 30/38] fix: Refuse block sizes that cannot hold a metadata
 leaf

A block size of zero ended recon and identify with a division by zero, and
sizes smaller than a leaf header with an access out of range.
---
 pkg/btrfs/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/btrfs/util.go b/pkg/btrfs/util.go
index 7a30acb..7951a36 100644
--- a/pkg/btrfs/util.go
+++ b/pkg/btrfs/util.go
@@ -11,6 +11,9 @@ import (
 )
 
 func CheckDeviceSize(rs io.ReadSeeker, blockSize uint64) (uint64, error) {
+	if blockSize < HeaderLen+ItemLen {
+		return 0, fmt.Errorf("block size too small: %d", blockSize)
+	}
 	size, err := rs.Seek(0, io.SeekEnd)
 	if err == nil {
 		if uint64(size) < blockSize {
-- 
2.43.0


From 062404011e265dd78b3d01d6ceda96798e4bc893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:56 +0000
Subject: [PATCH 31/38] fix: show device numbers of device files in mounts
 correctly

BTRFS stores the kernel's internal representation with 20 bits for the minor
number, FUSE expects the one used by system calls.
---
 internal/rescuefs/files.go  | 2 +-
 internal/rescuefs/nodefs.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 99b28a0..6981b46 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -52,7 +52,7 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 		out.Ctimensec = uint32(ii.Ctime().Nanosecond())
 		out.Nlink = ii.Nlink()
 		out.Owner = fuse.Owner{Uid: ii.UID(), Gid: ii.GID()}
-		out.Rdev = uint32(ii.Rdev())
+		out.Rdev = encodeDev(ii.Rdev())
 		return fuse.OK
 	}
 
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index bb4eca2..42b7325 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -110,6 +110,13 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 	}
 }
 
+// encodeDev converts a device number from the on-disk format, with 20 bits for
+// the minor number, to the one used by FUSE.
+func encodeDev(rdev uint64) uint32 {
+	major, minor := uint32(rdev>>20), uint32(rdev&0xFFFFF)
+	return minor&0xFF | major<<8 | (minor&^0xFF)<<12
+}
+
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
 	n.mu.Lock()
@@ -132,7 +139,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 			Mode:      ii.Mode(),
 			Nlink:     ii.Nlink(),
 			Owner:     fuse.Owner{Uid: ii.UID(), Gid: ii.GID()},
-			Rdev:      uint32(ii.Rdev()),
+			Rdev:      encodeDev(ii.Rdev()),
 		}
 	}
 	*fi = *n.attr
-- 
2.43.0


From 5392c9d8f824492b4e7d521f5f61aecfa28bb179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 32/38] fix: show different inode numbers for inodes of
 different subvolumes in mounts

---
 internal/rescuefs/nodefs.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 42b7325..f4fc549 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -72,6 +72,7 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 	n.info.FromStat(fi)
 	n.info.Mode = n.info.Mode&0555 | fuse.S_IFREG
+	n.info.Ino = 2 // Not used in the rescued filesystem, the root has 1
 	return n
 }
 
@@ -110,6 +111,15 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 	}
 }
 
+// encodeIno returns the inode number to show. Those on disk are only unique in
+// their subvolume, but all subvolumes are part of the same mounted filesystem.
+func encodeIno(owner, inode uint64) uint64 {
+	if owner == btrfs.FSTreeObjectID {
+		return inode
+	}
+	return owner<<40 ^ inode
+}
+
 // encodeDev converts a device number from the on-disk format, with 20 bits for
 // the minor number, to the one used by FUSE.
 func encodeDev(rdev uint64) uint32 {
@@ -128,7 +138,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 			return fuse.ENOATTR
 		}
 		n.attr = &fuse.Attr{
-			Ino:       n.ixInode,
+			Ino:       encodeIno(n.owner, n.ixInode),
 			Size:      ii.Size(),
 			Atime:     uint64(ii.Atime().Unix()),
 			Mtime:     uint64(ii.Mtime().Unix()),
-- 
2.43.0


From 8ad7f5e9952f76dab2f3d6ca667f35962bbf2e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 33/38] fix: show the number of stored blocks of files in
 mounts

---
 internal/rescuefs/files.go  | 1 +
 internal/rescuefs/nodefs.go | 1 +
 pkg/btrfs/btrfs.go          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 6981b46..abe41f6 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -44,6 +44,7 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 	if ii != nil {
 		out.Mode = ii.Mode()
 		out.Size = ii.Size()
+		out.Blocks = (ii.NBytes() + 511) / 512
 		out.Atime = uint64(ii.Atime().Unix())
 		out.Mtime = uint64(ii.Mtime().Unix())
 		out.Ctime = uint64(ii.Ctime().Unix())
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index f4fc549..5f668bb 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -140,6 +140,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 		n.attr = &fuse.Attr{
 			Ino:       encodeIno(n.owner, n.ixInode),
 			Size:      ii.Size(),
+			Blocks:    (ii.NBytes() + 511) / 512,
 			Atime:     uint64(ii.Atime().Unix()),
 			Mtime:     uint64(ii.Mtime().Unix()),
 			Ctime:     uint64(ii.Ctime().Unix()),
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index a9d8276..436440d 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -481,6 +481,7 @@ const (
 func (i InodeItem) Generation() uint64 { return SliceUint64LE(i[inodeItemGeneration:]) }
 func (i InodeItem) TransID() uint64    { return SliceUint64LE(i[inodeItemTransID:]) }
 func (i InodeItem) Size() uint64       { return SliceUint64LE(i[inodeItemSize:]) }
+func (i InodeItem) NBytes() uint64     { return SliceUint64LE(i[inodeItemNbytes:]) }
 func (i InodeItem) BlockGroup() uint64 { return SliceUint64LE(i[inodeItemBlockGroup:]) }
 func (i InodeItem) Nlink() uint32      { return SliceUint32LE(i[inodeItemNlink:]) }
 func (i InodeItem) UID() uint32        { return SliceUint32LE(i[inodeItemUID:]) }
-- 
2.43.0


From d98c4d402e1f2e4d4646d07d413aa704fd9d5e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 34/38] fix: parse buffers must not read behind their end

---
 pkg/btrfs/parse_buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/parse_buffer.go b/pkg/btrfs/parse_buffer.go
index 8b00dcf..7bd94f1 100644
--- a/pkg/btrfs/parse_buffer.go
+++ b/pkg/btrfs/parse_buffer.go
@@ -50,7 +50,8 @@ func (b *ParseBuffer) Unread() int {
 // advancing it. Panics if there are fewer than n bytes in the buffer.
 // The slice is only valid until the next call to one of the next methods.
 func (b *ParseBuffer) Next(n int) []byte {
-	data := b.buf[b.offset : b.offset+n]
+	// Limit the capacity, as slices may be extended up to it
+	data := b.buf[b.offset:len(b.buf):len(b.buf)][:n]
 	b.offset += n
 	return data
 }
-- 
2.43.0


From 065982ca3ba9a73fdfc7eb8b746c87ac1da90ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 35/38] fix: warn about recovered files that cannot be closed

Some file systems only report when a file is closed that its data could not be
written.
---
 cmd/recover.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/recover.go b/cmd/recover.go
index dcac913..a660b9d 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -245,6 +245,10 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	if err := f.Truncate(int64(fileSize)); err != nil {
 		return fmt.Errorf("truncate failed: %w", err)
 	}
+	// Some file systems only report here that data could not be written
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("closing file failed: %w", err)
+	}
 	return incomplete
 }
 
-- 
2.43.0


From 8db3bfc489d6197dd7fd7eb2973adf31e1c2d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 36/38] fix: report output that cannot be written

Listings, dumps, identification results and completions were cut off without
an error if the standard output was a full device.
---
 cmd/completion.go             | 4 +++-
 cmd/dump_index.go             | 8 ++++++--
 cmd/ls.go                     | 7 +++++--
 internal/identify/identify.go | 5 ++++-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmd/completion.go b/cmd/completion.go
index 102354f..6e8f30d 100644
--- a/cmd/completion.go
+++ b/cmd/completion.go
@@ -8,6 +8,8 @@ package cmd
 import (
 	"os"
 
+	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+
 	"github.com/spf13/cobra"
 )
 
@@ -28,7 +30,7 @@ To configure your bash shell to load completions for each session add to your
 . <(btrfscue completion)
 `,
 		Run: func(cmd *cobra.Command, args []string) {
-			rootCmd.GenBashCompletion(os.Stdout)
+			cliutil.ReportError(rootCmd.GenBashCompletion(os.Stdout))
 		},
 	}
 
diff --git a/cmd/dump_index.go b/cmd/dump_index.go
index 34deb00..97bfca5 100644
--- a/cmd/dump_index.go
+++ b/cmd/dump_index.go
@@ -6,7 +6,9 @@
 package cmd
 
 import (
+	"bufio"
 	"fmt"
+	"os"
 
 	"blichmann.eu/code/btrfscue/cmd/btrfscue/app"
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
@@ -36,14 +38,16 @@ func doDumpIndex(metadata string) {
 	cliutil.ReportError(err)
 	defer ix.Close()
 
+	w := bufio.NewWriter(os.Stdout)
 	last := ^uint64(0)
 	for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
 		if o := r.Owner(); o != last {
-			fmt.Printf("owner %d\n", o)
+			fmt.Fprintf(w, "owner %d\n", o)
 			last = o
 		}
 		k := r.Key()
-		fmt.Printf("%s @ %d\n", k, r.Generation())
+		fmt.Fprintf(w, "%s @ %d\n", k, r.Generation())
 		_ = v
 	}
+	cliutil.ReportError(w.Flush())
 }
diff --git a/cmd/ls.go b/cmd/ls.go
index ec60810..84208c7 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -6,6 +6,7 @@
 package cmd
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -189,7 +190,8 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	owner := uint64(btrfs.FSTreeObjectID)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 
-	w := tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
+	out := bufio.NewWriter(os.Stdout)
+	w := tabwriter.NewWriter(out, 1, 4, 1, ' ', 0)
 	type Todo struct{ owner, dirID uint64 }
 	var todo []Todo
 	for _, p := range args {
@@ -212,10 +214,11 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	}
 	w.Flush()
 
-	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
+	w = tabwriter.NewWriter(out, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
 		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
 			make(map[[2]uint64]bool))
 	}
 	w.Flush()
+	cliutil.ReportError(out.Flush())
 }
diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index 158bc1f..dbc24ad 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -6,6 +6,7 @@
 package identify
 
 import (
+	"bufio"
 	"fmt"
 	"math/rand"
 	"os"
@@ -126,7 +127,8 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 	} else {
 		c = ' '
 	}
-	w := tabwriter.NewWriter(os.Stdout, 1, 4, 1, c, 0)
+	out := bufio.NewWriter(os.Stdout)
+	w := tabwriter.NewWriter(out, 1, 4, 1, c, 0)
 	if !app.Global.Machine {
 		fmt.Fprintln(w, "fsid\tcount\tentropy\tblock size")
 	}
@@ -135,4 +137,5 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 			entry.Entropy, entry.BlockSize)
 	}
 	w.Flush()
+	cliutil.ReportError(out.Flush())
 }
-- 
2.43.0


From 0a915dc89217caa530469ff7ee6aec8d2e0bc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 37/38] fix: unmount if told to end while still mounting

Signals that arrived before the server listened to them left behind a mount
that nobody served.
---
 cmd/mount.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 29b496f..e8dd8d0 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -56,14 +56,16 @@ func doMountRescueFS(args []string, metadata string) {
 			"visible\n")
 	}
 
+	// Break and unmount on CTRL+C or TERM signal. Listen to these beforehand, as
+	// otherwise they leave behind a mount that nobody serves.
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
+
 	fs := rescuefs.New(app.Global.Metadata, ix, dev)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
 	go fs.Serve()
 
-	// Break and unmount on CTRL+C or TERM signal
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
 	<-ch
 	cliutil.Warnf("got signal, unmounting...\n")
 	cliutil.ReportError(fs.Unmount())
-- 
2.43.0


From 2032a7fc10ee6ad10e804d6e4b880c620bcf983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 38/38] fix: end the mount command when its filesystem was
 unmounted

It went on to wait for a signal and to lock the metadata otherwise.
---
 cmd/mount.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index e8dd8d0..d5be3e8 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -64,9 +64,18 @@ func doMountRescueFS(args []string, metadata string) {
 	fs := rescuefs.New(app.Global.Metadata, ix, dev)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
-	go fs.Serve()
+	done := make(chan struct{})
+	go func() {
+		fs.Serve()
+		close(done)
+	}()
 
-	<-ch
+	select {
+	case <-done:
+		// Was unmounted by others
+		return
+	case <-ch:
+	}
 	cliutil.Warnf("got signal, unmounting...\n")
 	cliutil.ReportError(fs.Unmount())
 }
-- 
2.43.0

