From a0c9ddb42366d030fc2acb1c4bf18dbe13784bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 01/56] fix: memory-shadowed word file reports reading past the
 end instead of panicking

---
 wordfile/memshadowedwordfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index ae276cb..54311af 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -2,6 +2,7 @@ package wordfile
 
 import (
 	"github.com/KitchenMishap/pudding-shed/memfile"
+	"io"
 	"os"
 )
 
@@ -25,6 +26,9 @@ func NewMemShadowedWordFile(file memfile.AppendableLookupFileReadAll, underlying
 }
 
 func (wf *MemShadowedWordFile) ReadWordAt(off int64) (int64, error) {
+	if off < 0 || off >= int64(len(wf.shadow)) {
+		return -1, io.EOF
+	}
 	// Just read the shadow
 	return wf.shadow[off], nil
 }
-- 
2.43.0


From 0e4fd4b942660f9947f6d04949fc0160ac7b1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 02/56] fix: reading a whole word file includes unflushed words
 and does not depend on the file position

---
 wordfile/wordfile.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..d509fff 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -84,14 +84,13 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
-	info, _ := wf.underlying.Stat()
-	size := info.Size()
-	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
-	if err != nil {
+	// Read by way of file (not underlying), as it may hold appended words not yet written to disk
+	items := wf.wordCount
+	data := make([]byte, items*wf.wordSize)
+	_, err := wf.file.ReadAt(data, 0)
+	if err != nil && !(err == io.EOF && items == 0) {
 		return nil, err
 	}
-	items := size / wf.wordSize
 	data64 := make([]int64, items)
 	for i := int64(0); i < items; i++ {
 		var intBytes [8]byte
-- 
2.43.0


From 9f6ddf467fbc15121e510e2101a9f485bc0387ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 03/56] fix: FileWithSize.ReadAll no longer calls itself for
 ever

---
 memfile/filewithsize.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..c7e99d9 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -1,6 +1,9 @@
 package memfile
 
-import "os"
+import (
+	"io"
+	"os"
+)
 
 type FileWithSize struct {
 	file *os.File
@@ -31,4 +34,10 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	stat, err := fws.file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	return io.ReadAll(io.NewSectionReader(fws.file, 0, stat.Size()))
+}
-- 
2.43.0


From f81a339220e1a8a9a0b15ff00c7153a4a6435ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 04/56] fix: ReadAll of an append-optimised file reads from the
 start of the file

---
 memfile/appendoptimized.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..1631884 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -46,14 +46,12 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	info, _ := a.file.Stat()
-	size := info.Size()
-	data := make([]byte, size)
-	_, err = io.ReadFull(a.file, data)
+	info, err := a.file.Stat()
 	if err != nil {
 		return nil, err
 	}
-	return data, nil
+	// From the start of the file, wherever the file position was left by appends
+	return io.ReadAll(io.NewSectionReader(a.file, 0, info.Size()))
 }
 
 func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
-- 
2.43.0


From 83af825a5ea4811f06ab9ab88ae041c9d848c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 05/56] fix: an empty file can be opened as a read-only memory
 map

---
 memfile/mmapfile.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/memfile/mmapfile.go b/memfile/mmapfile.go
index 20fcbe4..30b0663 100644
--- a/memfile/mmapfile.go
+++ b/memfile/mmapfile.go
@@ -18,6 +18,14 @@ var _ io.Closer = (*MmapReadOnly)(nil)
 var _ LookupFile = (*MmapReadOnly)(nil)
 
 func NewMmapReadOnly(f *os.File) (*MmapReadOnly, error) {
+	stat, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+	if stat.Size() == 0 {
+		// The operating system refuses to map an empty file
+		return &MmapReadOnly{file: f}, nil
+	}
 	// Map as read-only. 0 is the flag for default behaviour.
 	m, err := mmap.Map(f, mmap.RDONLY, 0)
 	if err != nil {
@@ -45,12 +53,18 @@ func (m *MmapReadOnly) ReadAll() ([]byte, error) {
 }
 
 func (m *MmapReadOnly) Sync() error {
+	if m.data == nil {
+		return nil
+	}
 	return m.data.Flush()
 }
 
 func (m *MmapReadOnly) Close() error {
 	// 1. Unmap the memory first
-	err := m.data.Unmap()
+	var err error
+	if m.data != nil {
+		err = m.data.Unmap()
+	}
 	// 2. Close thee underlying file
 	if fErr := m.file.Close(); fErr != nil {
 		return fErr
-- 
2.43.0


From 74ba5597ae0b377b8926fb5e63471cd7dfc030be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 06/56] fix: an array nothing was appended to reads as empty
 when its whole file is missing

---
 intarrayarray/cachedintarraymapstore.go | 3 +++
 intarrayarray/intarraymapstore.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..820d9a2 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -53,6 +53,9 @@ func (ms *CachedIntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any of this file's arrays
+	}
 	if err != nil {
 		return []int64{}, err
 	}
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..86c0ce2 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -45,6 +45,9 @@ func (ms *IntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any of this file's arrays
+	}
 	if err != nil {
 		return []int64{}, err
 	}
-- 
2.43.0


From db456eb51eeb0928a558a6c37095a9a8cd159303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 07/56] fix: create the folder of an older array file before it
 has to be saved

---
 intarrayarray/intarraymapstore.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 86c0ce2..88334a8 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -101,21 +101,20 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	} else {
 		// Save any previous "older"
 		if ms.olderFilepath != "" {
-			// Don't forget to create the folder... as it may not exist yet
-			err := os.MkdirAll(folderPath, 0755)
-			if err != nil {
-				return err
-			}
-
-			err = ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+			err := ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
 			if err != nil {
 				return err
 			}
 		}
 		// We can now safely load the required file into "older"
+		// Don't forget to create the folder... as it may not exist yet when we come to save
+		err := os.MkdirAll(folderPath, 0755)
+		if err != nil {
+			return err
+		}
 		// Make a note of the filename
 		ms.olderFilepath = filepath
-		err := ms.olderIntArrayArray.LoadFile(filepath)
+		err = ms.olderIntArrayArray.LoadFile(filepath)
 		if err != nil {
 			// We don't mind a file not found here
 		}
-- 
2.43.0


From 779a0b164200f405af29f7914cb0a05267b6fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 08/56] fix: report a failure to save the latest array file

---
 intarrayarray/intarraymapstore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 88334a8..94bd585 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -71,7 +71,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	if fileNumber > ms.latestFileNumber {
 		// Save the previous latest, if any
 		if ms.latestFilepath != "" {
-			ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			err := ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			if err != nil {
+				return err
+			}
 		}
 		// Load a "new" latest
 		// Create the folder if necessary
-- 
2.43.0


From 32c69a508e7d13b5fdcfaea6bde227a6ef7d9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 09/56] fix: trimming the array cache terminates and accounts
 for appended elements

---
 intarrayarray/cachedintarraymapstore.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 820d9a2..bbb1e59 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -91,8 +91,12 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
 	ms.cacheElementCount += cached.elementTally
 
-	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+	// (Can't trim the one we've just been asked for)
+	for ms.cacheElementCount >= ms.cacheElementCountLimit && len(ms.mapFolderFilenameToArrayArray) > 1 {
+		err = ms.trimCache(foldersFilename)
+		if err != nil {
+			return &cached, err
+		}
 	}
 	return &cached, nil
 }
@@ -102,7 +106,7 @@ func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error
 	oldestFoldersFilename := ""
 
 	for key, value := range ms.mapFolderFilenameToLastAccess {
-		if value < oldest && key != excludeFoldersFilename {
+		if value <= oldest && key != excludeFoldersFilename {
 			oldest = value
 			oldestFoldersFilename = key
 		}
@@ -134,7 +138,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 
 	cached, err := ms.loadIntoCache(folders, filename)
 	if err != nil {
-		// We don't mind being empty
+		return err
 	}
 
 	cached.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
@@ -147,6 +151,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 		sep := string(os.PathSeparator)
 		foldersFilename = folders + sep + filename
 	}
+	ms.mapFolderFilenameToArrayArray[foldersFilename] = *cached // Keep the element tally up to date
 	ms.lastAccessCounter++
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = ms.lastAccessCounter
 
-- 
2.43.0


From c785d9a0b907240a6c695c108cc6b88f34823cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 10/56] fix: the last hashes belong to the last bin when the
 number of bins is not a power of two

---
 indexedhashes3/abbreviatedhash.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/abbreviatedhash.go b/indexedhashes3/abbreviatedhash.go
index 122cf60..69ec1ea 100644
--- a/indexedhashes3/abbreviatedhash.go
+++ b/indexedhashes3/abbreviatedhash.go
@@ -10,10 +10,16 @@ func newAbbreviatedHashFromBinNumSortNum(bn binNum, sn sortNum, p *HashIndexingP
 
 func (ah *abbreviatedHash) toBinNum(p *HashIndexingParams) binNum {
 	// Integer division
-	return binNum(uint64(*ah) / p.Divider())
+	bn := uint64(*ah) / p.Divider()
+	// When the number of bins is not a power of two, the divider is rounded down, and the last
+	// few abbreviated hashes are beyond the end of the last bin. They belong in the last bin
+	if bn >= uint64(p.NumberOfBins()) {
+		bn = uint64(p.NumberOfBins()) - 1
+	}
+	return binNum(bn)
 }
 
 func (ah *abbreviatedHash) toSortNum(p *HashIndexingParams) sortNum {
 	// Remainder
-	return sortNum(uint64(*ah) % p.Divider())
+	return sortNum(uint64(*ah) - uint64(ah.toBinNum(p))*p.Divider())
 }
-- 
2.43.0


From fdcaf9b71086b29bffdfc65241f9ba3456994b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 11/56] fix: searching a bin finds the first of several entries
 with the same sort number

---
 indexedhashes3/binbytes.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..e836315 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -212,7 +212,13 @@ func (b *bin) homeInOnSortNum(startIndex int64, endIndex int64, sn sortNum, p *H
 			return startIndex, midIndex
 		} else {
 			// Equal
-			return midIndex, midIndex // END
+			// Step back to the first occurrence of sn in this sequence of equal sn's
+			for snMid == sn {
+				midIndex--
+				entryMid = b.getEntry(midIndex, p)
+				_, snMid = entryMid.getHashIndexSortNum(p)
+			}
+			return midIndex + 1, midIndex + 1 // END
 		}
 	} else {
 		// sn must be equal to snEnd
-- 
2.43.0


From 02e52c308fdfa5c4be7bbf0758b0104a677fb4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 12/56] fix: only hashes equal in every byte are dropped as
 duplicates from a bin

---
 indexedhashes3/binbytes.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index e836315..029ccef 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -317,22 +317,33 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 	// 2. Deduplicate IN-PLACE using a two-pointer sliding compaction loop.
 	writeIdx := int64(1)
 
-	// Create a pointer to the first entry's underlying slice window
+	// Two entries are duplicates if both the sortNum and the truncated hash are equal.
+	// Those with the same sortNum are together, but those of them which are duplicates need not be adjacent.
 	firstEntry := binEntryBytes(b.bytes[0:bytesPerEntry])
-	lastTH := firstEntry.getTruncatedHash() // Works perfectly with pointer receiver now
+	_, lastSN := firstEntry.getHashIndexSortNum(p)
+	runIdx := int64(0) // Where the kept entries which have sortNum lastSN start
 
 	for readIdx := int64(1); readIdx < count; readIdx++ {
 		// Slice out the current entry chunk
 		currentChunk := b.bytes[readIdx*bytesPerEntry : (readIdx+1)*bytesPerEntry]
 		currentEntry := binEntryBytes(currentChunk)
 		currentTH := currentEntry.getTruncatedHash()
+		_, currentSN := currentEntry.getHashIndexSortNum(p)
+		if currentSN != lastSN {
+			lastSN = currentSN
+			runIdx = writeIdx
+		}
+		isDuplicate := false
+		for keptIdx := runIdx; keptIdx < writeIdx && !isDuplicate; keptIdx++ {
+			keptEntry := b.getEntry(keptIdx, p)
+			isDuplicate = keptEntry.getTruncatedHash() == currentTH
+		}
 
-		if currentTH != lastTH {
+		if !isDuplicate {
 			// Found a new unique hash! Shift it forward to our write pointer position
 			if writeIdx != readIdx {
 				copy(b.bytes[writeIdx*bytesPerEntry:(writeIdx+1)*bytesPerEntry], currentChunk)
 			}
-			lastTH = currentTH
 			writeIdx++
 		}
 	}
-- 
2.43.0


From cd47dc92ff0afc6aae5b2f772a85995f87d3768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 13/56] fix: an adaptive pass with fewer bins than workers does
 not close a channel twice

---
 indexedhashes3/adaptivepass.go          | 3 +--
 indexedhashes3/adaptivepasspreloader.go | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..7a0a7f2 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -266,8 +266,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
-				continue
+				continue // No one is listening, and nothing will be sent
 			}
 
 			wg.Add(1)
diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 09d26e5..2d362e4 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -42,6 +42,9 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
+	if err != nil {
+		return err
+	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
-- 
2.43.0


From a70da047a53e4246fba0660733aab426c079c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 14/56] fix: indexing again does not pick up overflow files of
 the previous indexing

---
 indexedhashes3/adaptivepasspreloader.go | 4 ++++
 indexedhashes3/multipasspreloader.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 2d362e4..1981d2f 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -153,6 +153,10 @@ func (ap *AdaptivePassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := ap.folderPath + sep + "BinOverflows"
+	err = os.RemoveAll(ofFolderPath) // Overflows of any previous indexing don't belong to this one
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 98c2d42..4db16db 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -181,6 +181,10 @@ func (mp *MultipassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := mp.folderPath + sep + "BinOverflows"
+	err = os.RemoveAll(ofFolderPath) // Overflows of any previous indexing don't belong to this one
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From 14d2536edec2756370f191b8a58371b94e5ebcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 15/56] fix: indexing does not fail when standard output cannot
 be synced

---
 indexedhashes3/multipasspreloader.go | 5 +----
 jobs/intrinsicparallel.go            | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 4db16db..f0103e9 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -49,10 +49,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	for pass := int64(0); pass < passes; pass++ {
 		sline := fmt.Sprintf("%s: Pass %d of %d\n", mp.folderPath, pass+1, passes)
 		fmt.Print(sline)
-		err = os.Stdout.Sync()
-		if err != nil {
-			return err
-		}
+		_ = os.Stdout.Sync() // Not supported by a terminal, a pipe, or a null device
 		firstBinNum := pass * binsPerPass
 		binsThisPass := binsPerPass
 		if firstBinNum+binsThisPass > mp.params.NumberOfBins() {
diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 85a5c58..351cecf 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -678,10 +678,7 @@ func (p *Progress) Update(currentItem int64) {
 			float64(100)*float64(currentItem-p.startItem)/float64(p.endItem-p.startItem),
 			p.taskName, prediction.Format(dateFormat), int(math.Round(itemsPerSecond)))
 		fmt.Printf("%s%s          ", p.backslashR, msg)
-		err := os.Stdout.Sync()
-		if err != nil {
-			panic(err)
-		}
+		_ = os.Stdout.Sync() // Not supported by a terminal, a pipe, or a null device
 
 		p.checkpointTime = now
 		p.checkpointItem = currentItem
-- 
2.43.0


From d4e63e0da7cf02ad5a90d7c0932d3cb29bf8eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 16/56] fix: an adaptive pass waits until its reader has
 finished with the workers' channels

---
 indexedhashes3/adaptivepass.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 7a0a7f2..238c989 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -334,7 +334,9 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		} // for t = threads
 
 		// Now read the hashes and send to the workers
+		readerDone := make(chan struct{})
 		go func() {
+			defer close(readerDone)
 			hash := [32]byte{}
 
 			hashesFile, ferr := os.Open(hashesFilepath)
@@ -411,6 +413,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for out := range outChan {
 			passResults = append(passResults, out)
 		}
+		<-readerDone // The reader uses inChans until it has closed the last of them
 
 		// 2. Sort the completed results by bin number (ASCENDING)
 		sort.Slice(passResults, func(i, j int) bool {
-- 
2.43.0


From 9abba8c99c744d305a24db92f1454955ad20c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 17/56] fix: a chunk of zeroes longer than 32 bytes can be
 written to the collisions file

---
 indexedhashes/hashstore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0531636..e68ee82 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -136,7 +136,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
 			return -1, err
 		}
-		var zeroBytes [ZEROBUF]byte
+		var zeroBytes [MAXCHUNK]byte
 		_, err = hs.collisionsFile.WriteAt(zeroBytes[0:(CPC+1-2)*NBYTES], filestat.Size()+NBYTES*2)
 		if err != nil {
 			log.Println(err)
@@ -196,7 +196,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 					}
 					availableChunks := filestat.Size() / (NBYTES * (CPC + 1))
 					// Append a chunk of zeroes to the collisions file
-					var zeroBytes [ZEROBUF]byte
+					var zeroBytes [MAXCHUNK]byte
 					_, err = hs.collisionsFile.WriteAt(zeroBytes[0:NBYTES*(CPC+1)], filestat.Size())
 					if err != nil {
 						log.Println(err)
-- 
2.43.0


From 50cab3cf1e40115bfa62f1050780a6ceb28e2642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 18/56] fix: a hash store is full before the stored index
 reaches the collision flag

---
 indexedhashes/hashstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index e68ee82..1e9b457 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -55,7 +55,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 	NMASK := (int64(1) << NBITS) - 1
 	CPC := hs.collisionsPerChunk
 
-	if valnum >= MSB {
+	if valnum+1 >= MSB { // It is valnum+1 that is stored
 		err := errors.New("fatal: size of hashes file is now too large to index into")
 		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
 		return -1, err
-- 
2.43.0


From 178f5b34a4aef86d151bd02d574d6840c3e2bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 19/56] fix: a hash store which has one collision per chunk
 finds its colliding hashes

---
 indexedhashes/hashstore.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 1e9b457..36ac5a1 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -129,15 +129,30 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
 			return -1, err
 		}
+		valnumPos := filestat.Size() + NBYTES
+		zeroesCount := CPC + 1 - 2
+		if CPC == 1 {
+			// There is only room for one entry in a chunk, so the second one goes in a second chunk, linked to by the first
+			var linkBytes [8]byte
+			binary.LittleEndian.PutUint64(linkBytes[0:8], uint64(availableChunks+2))
+			_, err = hs.collisionsFile.WriteAt(linkBytes[0:NBYTES], valnumPos)
+			if err != nil {
+				log.Println(err)
+				log.Println("AppendHash: Could not WriteAt() into collisions file")
+				return -1, err
+			}
+			valnumPos += NBYTES
+			zeroesCount = 1
+		}
 		// Append valnum+1 to collisions file
-		_, err = hs.collisionsFile.WriteAt(valnumBytes[0:NBYTES], filestat.Size()+NBYTES)
+		_, err = hs.collisionsFile.WriteAt(valnumBytes[0:NBYTES], valnumPos)
 		if err != nil {
 			log.Println(err)
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
 			return -1, err
 		}
 		var zeroBytes [MAXCHUNK]byte
-		_, err = hs.collisionsFile.WriteAt(zeroBytes[0:(CPC+1-2)*NBYTES], filestat.Size()+NBYTES*2)
+		_, err = hs.collisionsFile.WriteAt(zeroBytes[0:zeroesCount*NBYTES], valnumPos+NBYTES)
 		if err != nil {
 			log.Println(err)
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
-- 
2.43.0


From ca68976e9b00714d8fb9e1f93ac2375488b507de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 20/56] fix: a hash store held in memory knows the hashes of
 its file when reopened, and finds a repeated hash at its first index

---
 .../concretehashstorecreatormemory.go         | 10 +++++++
 indexedhashes/memoryindexed.go                | 28 +++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 2753754..54c3baf 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -69,6 +69,11 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		hashesFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader, error) {
@@ -89,5 +94,10 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		hashesFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..9adc4fd 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -22,11 +22,35 @@ func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
-	mih.theMap[*hash] = mih.count
-	mih.count++
+	mih.addToMap(hash)
 	return index, nil
 }
 
+func (mih *MemoryIndexedHashes) addToMap(hash *Sha256) {
+	_, already := mih.theMap[*hash]
+	if !already { // A repeated hash is found at its first index
+		mih.theMap[*hash] = mih.count
+	}
+	mih.count++
+}
+
+// loadExisting takes in the hashes which were already in the file when it was opened
+func (mih *MemoryIndexedHashes) loadExisting() error {
+	existing, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for index := int64(0); index < existing; index++ {
+		hash := Sha256{}
+		err = mih.theStore.GetHashAtIndex(index, &hash)
+		if err != nil {
+			return err
+		}
+		mih.addToMap(&hash)
+	}
+	return nil
+}
+
 func (mih *MemoryIndexedHashes) Sync() error {
 	return mih.theStore.Sync()
 }
-- 
2.43.0


From 0acff12e19027ec3dad7d1dac81f925527b86e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 21/56] fix: of equal hashes appended one at a time, the first
 is found

---
 indexedhashes3/binbytes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 029ccef..a8175ad 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -69,6 +69,15 @@ func (b *bin) insertBinEntry(sn sortNum, hi hashIndex, th truncatedHash, p *Hash
 
 	newEntry := newBinEntryBytes(th, hi, sn, p)
 	insertionPoint := b.findIndexBasedOnSortNum(sn, p)
+	// Entries of equal sortNum stay in order of arrival, so that a repeated hash is found at its first index
+	for insertionPoint < b.length(bytesPerEntry) {
+		existingEntry := b.getEntry(insertionPoint, p)
+		_, existingSn := existingEntry.getHashIndexSortNum(p)
+		if existingSn != sn {
+			break
+		}
+		insertionPoint++
+	}
 	if insertionPoint > b.length(bytesPerEntry) {
 		panic("insertionPoint too large")
 	}
-- 
2.43.0


From b061056d33f8ff74f74c6339e5a11dbf5562fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 22/56] fix: a newly created hash store has room for all of its
 bins

---
 indexedhashes3/hashstorecreator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..76b4e46 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -127,11 +127,13 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
+	defer binStartsFile.Close()
+	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart() * c.params.NumberOfBins())
 	if err != nil {
 		return err
 	}
-	return nil
+	// A new store has no overflow files
+	return os.RemoveAll(c.folderPath + sep + "BinOverflows")
 }
 
 func (c *ConcreteHashStoreCreator) OpenHashStore() (indexedhashes.HashReadWriter, error) {
-- 
2.43.0


From 6f43e445897536c18562f50bb599caf3bd8d2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 23/56] fix: a uniform hash store has a bin for the highest
 hashes

---
 indexedhashes/multipasspreloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..2ee27a8 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -230,7 +230,7 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 }
 
 func BiggestAddressPlusOne(hashDivider uint64) int64 {
-	return int64(math.Pow(2, 64)/float64(hashDivider) + 0.5) // Round to nearest!
+	return int64(math.MaxUint64/hashDivider) + 1
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
-- 
2.43.0


From f34fd96a0bc3480f25627b4403b8524a244aeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 24/56] fix: a uniform hash store of fewer than a hundred
 hashes can test itself

---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..c38fa71 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -363,7 +363,7 @@ func (us *UniformHashStore) Test() (bool, error) {
 			}
 		}
 
-		if i%(count/100) == 0 {
+		if i%(count/100+1) == 0 {
 			percent := 100.0 * float64(i) / float64(count)
 			fmt.Println("Percentage tested:", percent)
 		}
-- 
2.43.0


From dae4fbeddf7f437ea1ec3501d196cd2cc8d4d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 25/56] fix: a uniform hash store can be created and then
 opened

---
 indexedhashes/uniform.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index c38fa71..8788297 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -126,7 +126,7 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
+	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE|os.O_WRONLY, 0755)
 	defer fileParams.Close()
 	if err != nil {
 		return err
@@ -137,7 +137,13 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 		return err
 	}
 
-	return nil
+	// All the bins start off empty
+	fileBins, err := os.Create(uc.binStartsFilePath())
+	if err != nil {
+		return err
+	}
+	defer fileBins.Close()
+	return fileBins.Truncate(int64(binStartSize) * BiggestAddressPlusOne(uc.params.HashDivider))
 }
 
 func (uc *UniformHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
-- 
2.43.0


From 969f7849e9d1aa876544250760a7adf3a40aa267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 26/56] fix: a hash appended to a uniform hash store can be
 found

---
 indexedhashes/uniform.go | 61 ++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8788297..7f7d7a9 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 )
 
 func NewUniformHashStoreCreatorAndPreloader(
@@ -223,36 +224,60 @@ func (us *UniformHashStore) AppendHash(hash *Sha256) (int64, error) {
 		return -1, err
 	}
 
-	// Appending index followed by hash
-	toAppend := [40]byte{}
-	binary.LittleEndian.PutUint64(toAppend[0:8], uint64(newIndex))
-	copy(toAppend[8:40], hash[0:32])
+	// Only the first occurrence of a hash is indexed
+	existingIndex, err := us.IndexOfHash(hash)
+	if err != nil {
+		return -1, err
+	}
+	if existingIndex != -1 {
+		return newIndex, nil
+	}
 
 	address := us.addressForHash(hash)
-	folderPath, filePath := us.folderPathFilePathForAddress(address)
-	err = os.MkdirAll(folderPath, 0755)
+	offset := int64(address * binStartSize)
+	byts := [binStartSize]byte{}
+	_, err = us.binStartsFile.ReadAt(byts[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	file, err := os.OpenFile(filePath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0755)
+	bin := binStart{}
+	bin.FromBytes(&byts)
+	if bin.entryCount < 102 {
+		bin.indexHashes[bin.entryCount].index = newIndex
+	} else {
+		err = us.writeToOverflowFile(address, bin.entryCount-102, newIndex)
+		if err != nil {
+			return -1, err
+		}
+	}
+	bin.entryCount++
+	bin.ToBytes(&byts)
+	_, err = us.binStartsFile.WriteAt(byts[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	_, err = file.Write(toAppend[:])
+
+	return newIndex, nil
+}
+
+func (us *UniformHashStore) writeToOverflowFile(address uint64, position int64, newIndex int64) error {
+	toWrite := [8]byte{}
+	binary.LittleEndian.PutUint64(toWrite[0:8], uint64(newIndex))
+	_, filePath := us.folderPathFilePathForAddress(address)
+	err := os.MkdirAll(filepath.Dir(filePath), 0755)
 	if err != nil {
-		return -1, err
+		return err
 	}
-	err = file.Sync()
+	file, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE, 0755)
 	if err != nil {
-		return -1, err
+		return err
 	}
-	err = file.Close()
+	_, err = file.WriteAt(toWrite[:], position*8)
 	if err != nil {
-		return -1, err
+		file.Close()
+		return err
 	}
-	file = nil
-
-	return newIndex, nil
+	return file.Close()
 }
 
 func (us *UniformHashStore) IndexOfHash(hash *Sha256) (int64, error) {
@@ -288,8 +313,8 @@ func (us *UniformHashStore) IndexOfHash(hash *Sha256) (int64, error) {
 	// Second look in overflow file
 	if bin.entryCount > 102 {
 		// Look in the overflow files
-		_, filepath := us.folderPathFilePathForAddress(address)
-		overflowFile, err := os.ReadFile(filepath)
+		_, filePath := us.folderPathFilePathForAddress(address)
+		overflowFile, err := os.ReadFile(filePath)
 		if err != nil {
 			return -1, err
 		}
-- 
2.43.0


From 2cd13c83f6c1091b90a719b078e7698a53139205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 27/56] fix: hashes presented after a bake can be read back by
 index

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..f7ed377 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -146,7 +146,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From 0879ac37bae49c9a7c57360de7ed856738a81d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 28/56] fix: the top tier of a cake keeps its own copy of an
 appended hash

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index f7ed377..ed8dcdd 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From d09071f50d8f93cd6f9a49db0559342e0d438e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 29/56] fix: nodes at levels ten and deeper of a baked tier are
 found again

---
 weddingcakeback/donutforestwrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..74b0d25 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -324,7 +324,7 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 		}
 		if dfw.LevelFiles[levelNum] == nil {
 			// Open for append or create if not yet opened
-			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
 			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
@@ -435,7 +435,7 @@ func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tier
 			}
 			if dfw.LevelFiles[levelNum] == nil {
 				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 				filePath := filepath.Join(tierFolderPath, filename)
 				var err error
 				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From e17ecb067b114993ce8e1a1b4ec859b920f4833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 30/56] fix: a hash alone behind its prefix can be looked up in
 a baked tier

---
 weddingcakeback/singletree.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..00dcc70 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -115,8 +115,14 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode := SingleTreeLeafNode{}
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
-		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		// The reassurance bytes are the first ones after the prefix (which is already examined),
+		// and there may be fewer of those than configured
+		reassurance := input[0].Hash[PrefixBytesN:]
+		if len(reassurance) > int(reassuranceBytes) {
+			reassurance = reassurance[:reassuranceBytes]
+		}
+		leafNode.ReassuranceHashBytes = make([]byte, len(reassurance))
+		copy(leafNode.ReassuranceHashBytes, reassurance)
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From 2477cae488b142f1853768df56320af16ef5ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 31/56] fix: a baked tier does not claim a hash that differs
 from the one stored

---
 weddingcakeback/tierbelow.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..50b1367 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -239,8 +240,16 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 
 			if hashIndexId != HashIndexIdNoMatch {
 				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex)
+				// The leaf only vouches for some bytes of the hash; check the whole of it against the hashes file
+				storedHash := make([]byte, tb.Config.HashLength)
+				stored, err := tb.TryGetHashAtIndex(globalPi, storedHash)
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if stored && bytes.Equal(storedHash, hash) {
+					return globalPi, true, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From bac3751ce55cc27c7b814b558abce78139fa6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 32/56] fix: the tiers below a bake stay in the chain of tiers

---
 weddingcakeback/donutforestwrite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 74b0d25..f393cdf 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -201,7 +201,11 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		// The source tier's next tier is the destination tier, which is reopened below.
+		// It is what comes after the destination tier that is preserved.
+		if destReadable := sourceReadable.GetNextTier(); destReadable != nil {
+			preservedNextTier = destReadable.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From 5b0850cfddf8f740c14b889c290f163b5e2d5a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 33/56] fix: jump tables of more than one prefix byte are
 looked up in the order written

---
 weddingcakeback/tierbelow.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 50b1367..1adaaea 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -202,12 +202,11 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		// The jump table is written in the order of the prefix's first byte, then its second byte...
+		prefixIndex = prefixIndex<<8 + int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From 54874872232c8935d534daeeee982e8fc2cfdf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 34/56] fix: a tier of several trees is baked with its nodes
 where their ids say they are

---
 weddingcakeback/donutforestwrite.go | 57 ++++++++++++++++-------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index f393cdf..92e43f5 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,9 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// For each level, for each of its groups, where in the level's file the group's next node belongs.
+	// (A level's nodes are held group by group, each group amalgamating the nodes of all the trees)
+	GroupOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -117,7 +121,7 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			err = dfw.appendToLevelsFiles(levelsNodesBytes)
 			if err != nil {
 				// Close any level files for a clean failure
 				for _, levelFile := range dfw.LevelFiles {
@@ -327,27 +331,39 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			levelIndexBytes = append(levelIndexBytes, serializedNodeSpecBytes[:]...)
 		}
 		if dfw.LevelFiles[levelNum] == nil {
-			// Open for append or create if not yet opened
+			// Open or create if not yet opened
 			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		groupOffset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+
+		// The node bytes of the level's groups follow, one group after another
+		groupOffset += int64(len(levelIndexBytes))
+		dfw.GroupOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.GroupOffsets[levelNum][groupIndex] = groupOffset
+			groupOffset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result holds byte slices, one for each group of each level of the tree.
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -360,10 +376,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each group of each level, a byte slice
+	levelsNodesBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsNodesBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -372,7 +388,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -394,6 +409,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			levelNodesBytes := &levelsNodesBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -431,25 +447,16 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	return levelsNodesBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
+func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][][]byte) error {
 	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+		for groupIdx, groupNodesBytes := range levelNodesBytes {
+			if len(groupNodesBytes) != 0 {
+				// (The level's file was opened when its index bytes were written)
+				_, err := dfw.LevelFiles[levelNum].WriteAt(groupNodesBytes, dfw.GroupOffsets[levelNum][groupIdx])
 				if err != nil {
 					return err
 				}
-			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
-			if err != nil {
-				return err
+				dfw.GroupOffsets[levelNum][groupIdx] += int64(len(groupNodesBytes))
 			}
 		}
 	}
-- 
2.43.0


From a850e29966d5f40364d2541364421ac45cb8acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 35/56] fix: handles looked up by hash know their chain

BlockHandleByHash and TransactionHandleByHash left the handle's data nil, so
that asking such a handle for its Hash() panicked.
---
 chainstorage/concretereadablechain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..ce15403 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -292,6 +292,7 @@ func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.S
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
@@ -304,6 +305,7 @@ func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256)
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
-- 
2.43.0


From 6dba9fc0979796e91a79d4c3cc5e1bb5ff43fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 36/56] fix: a reopened hashes chain continues after the hashes
 it holds

---
 chainstorage/concretehasheschainfactory.go | 27 +++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..1144ae1 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -97,7 +97,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	count, err := countStoredHashes(file)
+	if err != nil {
+		return nil, err
+	}
+	result.blkHashList = *wordfile.NewHashFile(opt, count)
 
 	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -107,7 +111,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
+	count, err = countStoredHashes(file)
+	if err != nil {
+		return nil, err
+	}
+	result.trnHashList = *wordfile.NewHashFile(opt, count)
 
 	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -117,7 +125,20 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
+	count, err = countStoredHashes(file)
+	if err != nil {
+		return nil, err
+	}
+	result.adrHashList = *wordfile.NewHashFile(opt, count)
 
 	return &result, nil
 }
+
+// countStoredHashes returns the number of 32 byte hashes that a hash file holds already
+func countStoredHashes(file *os.File) (int64, error) {
+	info, err := file.Stat()
+	if err != nil {
+		return 0, err
+	}
+	return info.Size() / 32, nil
+}
-- 
2.43.0


From 53a977c0929d00cd0d662602ab2418afa70d4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 37/56] fix: the readable chain of an open appendable chain
 knows its parents

---
 chainstorage/concreteappendablechain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..a4de1cb 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -65,6 +65,9 @@ func (cac *concreteAppendableChain) GetAsConcreteReadableChain() *concreteReadab
 		txoSpentTxi:        cac.txoSpentTxi,
 		addrFirstTxo:       cac.addrFirstTxo,
 		addrAdditionalTxos: cac.addrAdditionalTxos,
+		parentBlockOfTrans: cac.parentBlockOfTrans,
+		parentTransOfTxi:   cac.parentTransOfTxi,
+		parentTransOfTxo:   cac.parentTransOfTxo,
 	}
 	result.blkNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
-- 
2.43.0


From e834ed5643a9ccb5e60515f8462e7b3fea23b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 38/56] fix: before an invalid transaction of the tiny chain
 there is no transaction

---
 tinychain/blockchain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinychain/blockchain.go b/tinychain/blockchain.go
index 2c51d2a..9fae7fa 100644
--- a/tinychain/blockchain.go
+++ b/tinychain/blockchain.go
@@ -60,6 +60,9 @@ func (bc *Blockchain) PreviousTransaction(t chainreadinterface.ITransHandle) cha
 		panic("Only transaction handles indexed by height are supported by this function")
 	}
 	transHeight := t.Height() - 1
+	if transHeight < 0 {
+		return bc.InvalidTrans()
+	}
 	transHandle := TransHandle{}
 	transHandle.height = transHeight
 	return &transHandle
-- 
2.43.0


From 0ef28234416c46a6866e4b4cbd5bd20fa728d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 39/56] fix: the shape of the deepest possible tree is counted

---
 weddingcake/treeshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/treeshape.go b/weddingcake/treeshape.go
index bf66bb2..3373a39 100644
--- a/weddingcake/treeshape.go
+++ b/weddingcake/treeshape.go
@@ -56,7 +56,7 @@ func (st *ShallowTree) CountLevelShapes() *TreeShape {
 		// We want to count even when activeSlotsCount is zero (ie a leaf node)
 		result.LevelShapes[node.Level].ActiveSlotCountHistogram[activeSlotsCount]++
 	})
-	for level := byte(0); level <= result.NonEmptyLevels; level++ {
+	for level := byte(0); level < result.NonEmptyLevels; level++ {
 		nodesPerLevel := NodeCountType(0)
 		// nodeCount at this level is the sum of the histogram
 		for slotsCount := 0; slotsCount <= 256; slotsCount++ {
-- 
2.43.0


From 7508ad0a8c9cfad753d26b9b3f532bba8891be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 40/56] fix: the live tier refuses a negative number

---
 weddingcake/tierzero.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index e8e9341..da950ef 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -68,7 +68,7 @@ func (tz *TierZero) IndexOfHash(hash *Sha256) (int64, error) {
 }
 
 func (tz *TierZero) GetHashAtIndex(index int64, hash *Sha256) error {
-	if index < int64(len(tz.theSlice)) {
+	if index >= 0 && index < int64(len(tz.theSlice)) {
 		*hash = tz.theSlice[index]
 		return nil
 	}
-- 
2.43.0


From 299a1a5d9cb3c6e2d6402a93f474e330c3ff6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 41/56] fix: every chunk listed is read into its own place

---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..f5f5588 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From ac777e8c26d2698ee89a40a60f109454dcd443ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 42/56] fix: chunk files read again list their chunks once

---
 weddingcake/chunkfiles.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index f5f5588..65b6554 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -93,6 +93,9 @@ func (cfw *ChunkFilesWrite) AppendChunk(chunk *Chunk) error {
 }
 
 func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
+	// Any chunks from a previous read referred to memory that has since been un-mmap'd
+	cfr.chunks = make([]Chunk, 0)
+
 	// First we find all the LevelXX.bin files we can and mmap them into memory
 	err := cfr.mmapLevelFiles()
 	if err != nil {
-- 
2.43.0


From 2ec1bce86819757f7e8f889c65bdcd1ea6e3b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 43/56] fix: a prefix-tree of no hashes can be written

---
 indexedhashestree/multiplefixednodesize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 585ee1b..73622ef 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -255,7 +255,9 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 		mapNewIdFromOld[oldNodeIndex] = uint16(newNodeIndex + 1)
 	}
 	// Store the root nodeId
-	result.rootNodeId = mapNewIdFromOld[0]
+	if nodeCount > 0 {
+		result.rootNodeId = mapNewIdFromOld[0]
+	}
 
 	// Then, finally, the actual bytes
 	nextReconfig = uint16(0)
-- 
2.43.0


From 0a6b3f85ed0f2dc9439b8a503db621c93c8c0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 44/56] fix: padding of a small node no longer hides its slot
 for byte zero

---
 indexedhashestree/multiplefixednodesize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 73622ef..3fd6c8d 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -444,7 +444,9 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 				lookup0 := nc.bytes[nodeByteOffset+1+int32(item)*3+1]
 				lookup1 := nc.bytes[nodeByteOffset+1+int32(item)*3+2]
 				lookup := uint16(lookup0) + uint16(lookup1)<<8
-				lookups[hashByteVal] = lookup
+				if lookup != 0 { // Zero is padding
+					lookups[hashByteVal] = lookup
+				}
 			}
 		} else if nodeSpecParams.nodeFormat == formatMedium {
 			// There are 256 bits of flags, each '1' indicating there is a lookup to be read
-- 
2.43.0


From e56680896e163e051a228cd87da3cc6219292974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 45/56] fix: a prefix-tree that just fits keeps nodes and
 positions apart when written

---
 indexedhashestree/shallowtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/shallowtree.go b/indexedhashestree/shallowtree.go
index fcb05d4..af05466 100644
--- a/indexedhashestree/shallowtree.go
+++ b/indexedhashestree/shallowtree.go
@@ -180,7 +180,8 @@ func (stc *shallowTreeContainer) recurseGenerateNode(inputCopy []shallowTreeHash
 
 			// If the encoded value collides with or drops below
 			// our upward-bound hash count, we have run out of 16-bit address space.
-			if encodedValue <= stc.presentationsCount {
+			// (One more is needed, as node ids start at one when the tree is written out)
+			if int(encodedValue) <= int(stc.presentationsCount)+1 {
 				stc.reset()
 				return -1, true
 			}
-- 
2.43.0


From 9811715f8ed15733240817445706601bd9811dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 46/56] fix: a repeated hash that took all 32 bytes to tell
 apart is found

---
 indexedhashestree/multiplefixednodesize.go | 13 ++++++-------
 indexedhashestree/shallowtree.go           |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 3fd6c8d..c7687ca 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -130,6 +130,8 @@ func newContainerParamsConfigA() *containerParams {
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatFull, 256))
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatDuplicate, 1))
 	}
+	// After all 32 bytes there can only be a duplicate
+	result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(32, formatDuplicate, 1))
 	// Automatically sort the specs using our canonical rule
 	sort.Slice(result.nodeSpecs, func(i, j int) bool { return result.Less(result.nodeSpecs[i], result.nodeSpecs[j]) })
 
@@ -212,7 +214,7 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	// Then the offsets to each batch of nodes having identical nodeSpecs
 	byteOffset := int32(0)
 	nextReconfig := uint16(0)
-	levelByteOffsets := make([]int32, 33)
+	levelByteOffsets := make([]int32, 34)
 	currentLevel := 0
 	for i := range cp.nodeSpecs {
 		result.nodeIdStartingEachSpec[i] = nextReconfig + 1
@@ -234,12 +236,12 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	}
 
 	// Cap off all remaining trailing unused levels
-	for lev := currentLevel + 1; lev <= 32; lev++ {
+	for lev := currentLevel + 1; lev <= 33; lev++ {
 		levelByteOffsets[lev] = byteOffset
 	}
 	result.bytes = make([]byte, byteOffset) // Allocate bytes for all the levels
-	result.nodeLevelBytes = make([][]byte, 32)
-	for level := 0; level <= 31; level++ {
+	result.nodeLevelBytes = make([][]byte, 33)
+	for level := 0; level <= 32; level++ {
 		result.nodeLevelBytes[level] = result.bytes[levelByteOffsets[level]:levelByteOffsets[level+1]]
 	}
 	result.bytes = result.bytes[:0] // Empty it (keep capacity) so we can conveniently append to it
@@ -504,8 +506,5 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 		// Must be a link to a node
 		linkIndex := uint16(65536 - uint32(encodedLookup))
 		nextNodeId = linkIndex
-		if byteBits == 0xFFFFFFFF {
-			return -1, true, byteBits // ToDo: What does this mean? Should we panic?
-		} // A link too far
 	}
 }
diff --git a/indexedhashestree/shallowtree.go b/indexedhashestree/shallowtree.go
index af05466..7532a4e 100644
--- a/indexedhashestree/shallowtree.go
+++ b/indexedhashestree/shallowtree.go
@@ -218,7 +218,7 @@ func (stc *shallowTreeContainer) lookupHash(hash [32]byte) (int64, bool) {
 	rootNodeIndex := 0
 
 	nextNodeIndex := uint16(rootNodeIndex)
-	bytesLeft := 32
+	bytesLeft := 33 // One for each byte, and one for the marker of a duplicate after the last byte
 	for {
 		node := &stc.nodesPool[nextNodeIndex]
 		hashByteIndex := node.hashByteIndex
-- 
2.43.0


From c0434614b21b9e4e89753241c3cd80c44d7186ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 47/56] fix: a phase whose last writes fail says so

---
 jobs/intrinsicparallel.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 351cecf..a5020e6 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -351,8 +351,9 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 		progress.Update(transCount)
 	}
 
+	err = hc.Sync() // Close() does not say whether everything could be written
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, transactions int64, threads int, backslashR string) error {
@@ -436,8 +437,9 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 		progress.Update(transCount)
 	}
 
+	err = hc.Sync() // Close() does not say whether everything could be written
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
@@ -531,8 +533,9 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	err = ac.Sync() // Close() does not say whether everything could be written
 	ac.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
@@ -622,8 +625,9 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	err := ac.Sync() // Close() does not say whether everything could be written
 	ac.Close()
-	return nil
+	return err
 }
 
 type Progress struct {
-- 
2.43.0


From 2b8ec8eb3d4ead37c5884777c115760f2b90057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 48/56] fix: a list that cannot be read is not replaced by an
 empty one

---
 intarrayarray/cachedintarraymapstore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index bbb1e59..bd98522 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -83,9 +83,10 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
-	if err != nil {
-		// Don't mind error here, we just stay empty
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err
 	}
+	// If there's no file yet, we just stay empty
 	ms.mapFolderFilenameToArrayArray[foldersFilename] = cached
 	ms.mapFolderFilenameToFolderPath[foldersFilename] = folderPath
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
-- 
2.43.0


From e83b34dde95067ee4331f145cf98a8eb27f1e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 49/56] fix: an overflow file that cannot be read is not taken
 for a missing one

---
 indexedhashes3/binfiles.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index 23c435e..aa458fb 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -3,6 +3,7 @@ package indexedhashes3
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"math/bits"
 	"os"
@@ -32,8 +33,10 @@ func loadBinFromSlice(theBinBytes []byte, bn binNum, ovf *overflowFiles, p *Hash
 		// Otherwise try to append any entries from overflow file
 		_, overflowsFilepath := ovf.overflowFolderpathFilepath(bn)
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
-		if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
 			// Do nothing when file doesn't exist
+		} else if err != nil {
+			return nil, err
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
@@ -63,8 +66,10 @@ func loadBinFromSliceIntoSlot(theBinBytes []byte, bn binNum, ovf *overflowFiles,
 		// Otherwise try to append any entries from overflow file
 		_, overflowsFilepath := ovf.overflowFolderpathFilepath(bn)
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
-		if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
 			// Do nothing when file doesn't exist
+		} else if err != nil {
+			return err
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
-- 
2.43.0


From c4b67b03d6663698383a1726ad8b3cc3c4b1da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 50/56] fix: a column that cannot be opened is not taken for
 one that was not stored

---
 chainstorage/concreteappendablechainfactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index bb2d4c6..3c2dd46 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -479,6 +479,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := blkNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			result.Close()
+			return nil, err
 		}
 	}
 
@@ -490,6 +493,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := trnNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			result.Close()
+			return nil, err
 		}
 	}
 
@@ -700,6 +706,8 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := blkNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			return nil, err
 		}
 	}
 
@@ -711,6 +719,8 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := trnNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if !errors.Is(err, os.ErrNotExist) {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From f98d50d154c19921dafae9ca0889bc9645dcbd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 51/56] fix: report an address hash that cannot be read when
 the address is asked for, as Address.Hash() cannot

---
 chainstorage/concretereadablechain.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index ce15403..e5c1471 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -161,6 +161,15 @@ func (crc *concreteReadableChain) AddressInterface(hAddress chainreadinterface.I
 	result.data = crc
 	result.populated = false
 
+	if result.handle.heightSpecified && !result.handle.hashSpecified {
+		// Address.Hash() has no way to report an error, so the hash is looked up here
+		err := crc.addrHashes.GetHashAtIndex(result.handle.height, &result.handle.hash)
+		if err != nil {
+			return nil, err
+		}
+		result.handle.hashSpecified = true
+	}
+
 	return &result, nil
 }
 
-- 
2.43.0


From 501a281e10dbc72c6a05f3f15c0016d7357f976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 52/56] fix: close the node's answer when its status is not
 200, so that its connection is not lost

---
 corereader2/getparseblocksbinary.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/corereader2/getparseblocksbinary.go b/corereader2/getparseblocksbinary.go
index 901ef0a..d70dc93 100644
--- a/corereader2/getparseblocksbinary.go
+++ b/corereader2/getparseblocksbinary.go
@@ -101,6 +101,7 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 						} else {
 							fmt.Println(resp.Status)
 							fmt.Printf("Response is not 200 OK\n")
+							_ = resp.Body.Close()
 						}
 					} else {
 						fmt.Println(err.Error())
-- 
2.43.0


From dcc9eaf73f630e50b0512b65abf5f292c5e2f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 53/56] fix: close the bin starts file after the last pass over
 it, and report when that fails

---
 indexedhashes3/adaptivepasspreloader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 1981d2f..25eb06c 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -55,6 +55,10 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 	if err != nil {
 		return err
 	}
+	err = ap.binStartsFile.Close()
+	if err != nil {
+		return err
+	}
 	fmt.Println("...Done passes")
 	return nil
 }
-- 
2.43.0


From fe2ce59e3c35667fad02f10acf663056b670a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:21 +0000
Subject: [PATCH 54/56] fix: the order checks of one chain no longer apply to
 another stored in the same process

---
 chainstorage/concreteappendablechain.go       | 29 +++++++++++--------
 .../concreteappendablechainfactory.go         |  2 ++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index a4de1cb..b64a549 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -13,6 +13,7 @@ import (
 	"github.com/KitchenMishap/pudding-shed/wordfile"
 )
 
+// PrevFirstTxo and PrevTrans are no longer used: each chain has its own, so that several can be stored in one process
 var PrevFirstTxo int64
 var PrevTrans int64
 
@@ -40,6 +41,10 @@ type concreteAppendableChain struct {
 	trnHashes          indexedhashes.HashReadWriter
 	parentBlockOfTrans wordfile.ReadWriteAtWordCounter
 
+	// The last transaction appended, for sanity checks (-1 means none so far)
+	prevFirstTxo int64
+	prevTrans    int64
+
 	// These are re-used objects in the interest of the "zero allocations" aspiration
 	za_blockReceiver       *chainhandleinterface.BlockReceiver
 	za_transactionReceiver *chainhandleinterface.BitcoinCoreTransactionReceiver
@@ -153,7 +158,7 @@ func (cac *concreteAppendableChain) AppendBlock(blockChain chainreadinterface.IB
 			return err
 		}
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -334,17 +339,17 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
+	if cac.prevFirstTxo != -1 {
+		if putativeTxoHeight < cac.prevFirstTxo {
 			panic("txo going backwards")
 		}
-		if transHeight < PrevTrans {
+		if transHeight < cac.prevTrans {
 			panic("trans going backwards")
 		}
 	}
 	err = cac.trnFirstTxo.WriteWordAt(putativeTxoHeight, transHeight)
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	if err != nil {
 		return -1, err
@@ -648,7 +653,7 @@ func (cac *concreteAppendableChain) AppendBlockChi(blockChain chainhandleinterfa
 		}
 
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -764,11 +769,11 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
+	if cac.prevFirstTxo != -1 {
+		if putativeTxoHeight < cac.prevFirstTxo {
 			panic("txo going backwards")
 		}
-		if transHeight < PrevTrans {
+		if transHeight < cac.prevTrans {
 			panic("trans going backwards")
 		}
 	}
@@ -776,8 +781,8 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	for _, hTxo := range trans.TxoHandles {
 		err = blockChain.GetTxoInfo(hTxo, cac.za_txoReceiver)
diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index 3c2dd46..8f20d4f 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -281,6 +281,8 @@ func (cacc *ConcreteAppendableChainCreator) OpenWithIndexer() (IAppendableChain,
 
 func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableChain, error) {
 	result := concreteAppendableChain{}
+	result.prevFirstTxo = -1
+	result.prevTrans = -1
 	result.transactionIndexingIsDelegated = cacc.transactionIndexingToBeDelegated
 
 	var err error
-- 
2.43.0


From 8c5699101f13714a7fb49f207badf7d3b918e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:21 +0000
Subject: [PATCH 55/56] fix: refuse an input whose source transaction is not
 known

---
 chainstorage/concreteappendablechain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index b64a549..4e73a1e 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -428,6 +428,9 @@ func (cac *concreteAppendableChain) appendTxi(txi chainreadinterface.ITxi, trans
 		if err != nil {
 			return -1, err
 		}
+		if sourceTransHeight == -1 {
+			return -1, errors.New("hash of source transaction should already be known")
+		}
 	} else {
 		panic("source trans must be specified somehow")
 	}
@@ -831,6 +834,9 @@ func (cac *concreteAppendableChain) appendTxiChi(txi *chainhandleinterface.TxiRe
 	if err != nil {
 		return -1, err
 	}
+	if sourceTransHeight == -1 {
+		return -1, errors.New("hash of source transaction should already be known")
+	}
 
 	var txiHeight int64
 	txiHeight, err = cac.txiTx.CountWords()
-- 
2.43.0


From 24c3caa9246291f3a60750d79836c091e9b11912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 56/56] fix: a run that cannot have its blocks does not go on
 to say that it is done

When a block or a batch of headers could not be had, the list of blocks was
ended (deferred wg.Done(), close(channel)) before the panic that stops the
program: in between, the rest could finish with the blocks so far.
---
 corereader2/getparseblocksbinary.go |  2 +-
 jobs/intrinsicparallel.go           | 40 +++++++++++++++++------------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/corereader2/getparseblocksbinary.go b/corereader2/getparseblocksbinary.go
index d70dc93..87d289d 100644
--- a/corereader2/getparseblocksbinary.go
+++ b/corereader2/getparseblocksbinary.go
@@ -43,7 +43,6 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 	for range threads {
 		wg.Add(1)
 		go func() {
-			defer wg.Done()
 			for numbered := range chanNumbered {
 				// Convert binary hash to string hash
 				hashString := ToHexHash(numbered.BlockHash[0:32])
@@ -113,6 +112,7 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 					panic("Retries failed") // ToDo
 				}
 			}
+			wg.Done() // Not deferred: a panic is not the end of the blocks
 		}()
 	}
 	go func() {
diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index a5020e6..8a67681 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -287,11 +287,9 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -305,6 +303,10 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 			seq.WaitForNotBloated() // Nobble the flow if it's bloated further downstream
 			nobbledBlockHashesChannel <- hash
 		}
+		err := <-streamResult // The hashes also end when they could not be had
+		if err != nil {
+			panic(err) // ToDo
+		}
 		close(nobbledBlockHashesChannel)
 	}()
 
@@ -370,11 +372,9 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -388,6 +388,10 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 			seq.WaitForNotBloated() // Nobble the flow if it's bloated further downstream
 			nobbledBlockHashesChannel <- hash
 		}
+		err := <-streamResult // The hashes also end when they could not be had
+		if err != nil {
+			panic(err) // ToDo
+		}
 		close(nobbledBlockHashesChannel)
 	}()
 
@@ -451,11 +455,9 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -469,6 +471,10 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 			seq.WaitForNotBloated() // Nobble the flow if it's bloated further downstream
 			nobbledBlockHashesChannel <- hash
 		}
+		err := <-streamResult // The hashes also end when they could not be had
+		if err != nil {
+			panic(err) // ToDo
+		}
 		close(nobbledBlockHashesChannel)
 	}()
 
@@ -547,11 +553,9 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 	// Now we start messing with channels and sequencers
 
 	orderedBlockHashesChannel := make(chan indexedhashes.Sha256)
+	streamResult := make(chan error, 1)
 	go func() {
-		err := corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
-		if err != nil {
-			panic(err) // ToDo
-		}
+		streamResult <- corereader2.StreamBlockHashesFromGenesis(blocks, orderedBlockHashesChannel)
 	}()
 
 	// These are used further downstream, but we need seq back here in order to ask if it's bloated
@@ -565,6 +569,10 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 			seq.WaitForNotBloated() // Nobble the flow if it's bloated further downstream
 			nobbledBlockHashesChannel <- hash
 		}
+		err := <-streamResult // The hashes also end when they could not be had
+		if err != nil {
+			panic(err) // ToDo
+		}
 		close(nobbledBlockHashesChannel)
 	}()
 
-- 
2.43.0

