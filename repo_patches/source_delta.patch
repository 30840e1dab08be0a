From 484fe2ec0677cefd225784e3d7de58e108e1fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 01/40] fix: keep the array ordered when inserting next to
 duplicate elements

---
 internal/helpers/arrays.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b352a02..ef44a69 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -1,5 +1,7 @@
 package helpers
 
+import "sort"
+
 type unsignedinteger interface {
 	uint8 | uint16 | uint32 | int64
 }
@@ -140,13 +142,9 @@ func Insert[T Numeric](haystack []T, index int, value T) []T {
 // Inserts the element to the array keeping it ordered.
 // The function preserves order of the elements.
 func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
-	if len(haystack) == 0 {
-		return append(haystack, value)
-	}
-	index := BinaryIndexOfClosest(haystack, value)
-	if value >= haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
+	index := sort.Search(len(haystack), func(i int) bool {
+		return haystack[i] > value
+	})
 	return Insert(haystack, index, value)
 }
 
@@ -154,15 +152,11 @@ func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
 // of this value in the array yet.
 // The function preserves order of the elements.
 func PutSavingOrder[T Numeric](haystack []T, value T) []T {
-	if len(haystack) == 0 {
-		return append(haystack, value)
-	}
-	index := BinaryIndexOfClosest(haystack, value)
-	if value == haystack[index] {
+	index := sort.Search(len(haystack), func(i int) bool {
+		return haystack[i] >= value
+	})
+	if index < len(haystack) && haystack[index] == value {
 		return haystack
 	}
-	if value > haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
 	return Insert(haystack, index, value)
 }
-- 
2.43.0


From b3d783d25c00dc111ad877a2605541dbd2aed5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 02/40] fix: SkipReading must not fail if the last bytes come
 along with EOF

---
 internal/helpers/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 6f0cb36..644201d 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -40,7 +40,8 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 		}
 		read, err := reader.Read(dump[:chunk])
 		skipped += read
-		if err != nil {
+		// A reader may return the last bytes along with an error (e.g. EOF).
+		if err != nil && skipped < size {
 			return skipped, err
 		}
 	}
-- 
2.43.0


From 66af972d0fbc2a011fe451c8bf50c737d235efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 03/40] fix: data race between concurrent SkipReading calls

---
 internal/helpers/io.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 644201d..a7bcc2c 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -7,9 +7,6 @@ import (
 // Static zero byte buffer that are used for filling free space in files.
 var zeros = [100]byte{}
 
-// /dev/null
-var dump = [100]byte{}
-
 // Effectively writes continuous range of zero-filled bytes into a writer.
 func WriteZeros(size int, writer io.Writer) (int, error) {
 	total := 0
@@ -32,6 +29,8 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
+	// /dev/null. It is not shared, because readers may work concurrently.
+	dump := [100]byte{}
 	skipped := 0
 	for skipped < size {
 		chunk := size - skipped
-- 
2.43.0


From 13ea812a9da7bd2c03b890b0ceec94badf16196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 04/40] fix: do not truncate the weight of dislikes to an
 integer

---
 internal/domain/profile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..13fb8cf 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -99,7 +99,7 @@ func computeSimilarityBetweenSets(itemsA []uint64, itemsB []uint64) (float32, in
 func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32 {
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
-	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
-	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
-		(float32(likesWeight) + float32(dislikesWeight)))
+	weightedDislikes := float32(dislikesWeight) * dislikeFactor
+	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*weightedDislikes) /
+		(float32(likesWeight) + weightedDislikes))
 }
-- 
2.43.0


From 1f69c16f7c6533fffca2a7643c39f5daaadff6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 05/40] fix: similarity of profiles having nothing to compare
 is 0, not NaN

---
 internal/domain/profile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index 13fb8cf..2a5b3be 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -100,6 +100,9 @@ func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
 	weightedDislikes := float32(dislikesWeight) * dislikeFactor
+	if float32(likesWeight)+weightedDislikes == 0 {
+		return 0 // There is nothing to compare
+	}
 	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*weightedDislikes) /
 		(float32(likesWeight) + weightedDislikes))
 }
-- 
2.43.0


From 48f279aab88084fd02d544a50be79c6e2e6427ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 06/40] fix: delta Get must see flushed items of a user having
 unflushed ones

---
 internal/infra/delta/storage.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..cce7384 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -146,17 +146,13 @@ func (s *storage) GetFileSize() uint64 {
 // Returns the last operation associated with the specified user-item pair.
 // This method exists mostly for debugging and testing purposes.
 func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
-	deltas, exists := s.newDelta[user]
-	if !exists {
-		deltas, exists = s.deltaCache[user]
-	}
-	if !exists {
-		return domain.DeltaOpAdd, false
-	}
-	for i := range deltas {
-		delta := deltas[len(deltas)-i-1]
-		if delta.item == item {
-			return delta.op, true
+	// Unflushed operations are newer than the flushed ones
+	for _, deltas := range [][]itemDelta{s.newDelta[user], s.deltaCache[user]} {
+		for i := range deltas {
+			delta := deltas[len(deltas)-i-1]
+			if delta.item == item {
+				return delta.op, true
+			}
 		}
 	}
 	return domain.DeltaOpAdd, false
-- 
2.43.0


From 27dd382e77a5aee054b6f72ac66176fb09c8d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 07/40] fix: a failed delta flush must be retriable without
 duplicates and torn entries

---
 internal/infra/delta/storage.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index cce7384..b2bedbc 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -57,7 +60,14 @@ func (s *storage) flushHeader() error {
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
 	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	// The position doesn't depend on the file size, so that a retry overwrites
+	// what a previously failed flush might have left after the last entry.
+	flushedItemCount := s.totalItemCount - s.unflushedItemCount
+	offset := len(prefix) + headerSize + flushedItemCount*entrySize
+	_, err := s.file.Seek(int64(offset), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
@@ -67,23 +77,21 @@ func (s *storage) flushEntries() error {
 				UserID: user,
 				ItemID: delta.item,
 			}
-			err := s.proto.WriteEntry(dto, writer)
+			err = s.proto.WriteEntry(dto, writer)
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
-			// Add to cache
-			_, exists := s.deltaCache[user]
-			if !exists {
-				s.deltaCache[user] = make([]itemDelta, 0)
-			}
-			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
 	// Flush the buffer
-	err := writer.Flush()
+	err = writer.Flush()
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
+	// Add to cache
+	for user, deltas := range s.newDelta {
+		s.deltaCache[user] = append(s.deltaCache[user], deltas...)
+	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From 62597f64857c1dc135bccc55768e078c2d479201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 08/40] fix: OpenMaybeRecover must create empty delta files and
 recover cut headers

---
 internal/infra/delta/storagefactory.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..ab4b755 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -32,8 +32,12 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
+	err = f.proto.RecoverTo(file, tmpFile)
 	if err != nil {
 		return err
 	}
@@ -138,11 +142,21 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	size, err := file.Seek(0, io.SeekEnd)
 	if err != nil {
-		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		return nil, err
+	}
+	corrupted := false
+	if size >= int64(len(prefix)+headerSize) {
+		corrupted, err = f.proto.IsLocked(file)
+		if err != nil {
+			return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		}
+	} else if size > 0 {
+		// The program was terminated while creating the file
+		corrupted = true
 	}
-	if locked {
+	if corrupted {
 		err = f.Recover(file)
 		if err != nil {
 			return nil, fmt.Errorf("failed to recover: %v", err)
-- 
2.43.0


From a403ff385bde1b3e0a12beebb1b7ec66720dace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 09/40] fix: keep the delta file locked until its recovery
 completes

---
 internal/infra/delta/storagefactory.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index ab4b755..753908d 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -41,6 +41,11 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	// The file must stay locked until it is completely rewritten
+	err = f.proto.WriteLocked(true, tmpFile)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	if err != nil {
 		return err
@@ -58,6 +63,10 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	err = f.proto.WriteLocked(false, file)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	return err
 }
-- 
2.43.0


From ca670cefe90fa8218ff180e132bcd208355225e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 10/40] fix: a read failure during delta recovery must not be
 taken for the end of file

---
 internal/infra/delta/protocol.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..8389da2 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -34,6 +34,9 @@ const headerSize = 1 + 1 + 4
 // WARNING: because of the padding the entry size may not equal sizeof(entry)!
 const entrySize = 1 + 8 + 8 + 1
 
+// The file doesn't start with the prefix.
+var errInvalidPrefix = errors.New("not a delta file")
+
 // The file prefix (aka "Magic number").
 var prefix = [...]byte{'R', 'E', 'C', 'D', 'E', 'L', 'T', 'A'}
 
@@ -107,7 +110,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errInvalidPrefix
 	}
 	return nil
 }
@@ -247,6 +250,11 @@ func (p *protocol) IsLocked(file io.ReadSeeker) (bool, error) {
 	return bytes[0] != 0, err
 }
 
+// Returns true if the error means that there is no (enough) data in the file.
+func isEOF(err error) bool {
+	return err == io.EOF || err == io.ErrUnexpectedEOF
+}
+
 // Recovers a corrupted file making its data consistent. All inconsistent
 // data is skipped. The file is considered corrupted if it's locked, which
 // means it hasn't been closed properly.
@@ -265,6 +273,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
 	if err != nil {
+		if !isEOF(err) && err != errInvalidPrefix {
+			return err
+		}
 		return p.WriteHeader(&hdr, writer)
 	}
 
@@ -273,6 +284,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	hdr.Version = Version
 	hdr.Locked = 0
 	if err != nil {
+		if !isEOF(err) {
+			return err
+		}
 		hdr.NumEntries = 0
 		return p.WriteHeader(&hdr, writer)
 	}
@@ -286,9 +300,12 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	var entriesRecovered uint32 = 0
 	for {
 		err = p.ReadEntry(&entry, reader)
-		if err != nil {
+		if isEOF(err) {
 			break
 		}
+		if err != nil {
+			return err
+		}
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
-- 
2.43.0


From 9a8c5406edaf0367677732936c3332a9d47e2f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 11/40] fix: unlock the index file only after its entries are
 written

---
 internal/infra/index/storage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..4f5c4bb 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -83,14 +83,15 @@ func (s *storage) load() error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
+	// The file must stay locked until all the entries are written
+	err := s.saveEntries()
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
 		}
 		return err
 	}
-	err = s.saveEntries()
+	err = s.saveHeader(false)
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
-- 
2.43.0


From 231e6dd5df8d28e07506e0ab54fe356e6619a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 12/40] fix: reset an index file that was not closed properly

---
 internal/domain/errors.go              | 7 +++++++
 internal/domain/likenamespace.go       | 6 +++---
 internal/infra/index/storage.go        | 3 +--
 internal/infra/index/storagefactory.go | 2 +-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/domain/errors.go b/internal/domain/errors.go
index b904f82..a212537 100644
--- a/internal/domain/errors.go
+++ b/internal/domain/errors.go
@@ -6,6 +6,13 @@ func (e *CorruptedFileError) Error() string {
 	return "The file hasn't been closed property, it may be corrupted"
 }
 
+// Makes any two instances match each other when compared with errors.Is().
+// Addresses of zero-size variables are not suitable for this purpose.
+func (e *CorruptedFileError) Is(target error) bool {
+	_, ok := target.(*CorruptedFileError)
+	return ok
+}
+
 func NewCorruptedFileError() error {
 	return &CorruptedFileError{}
 }
diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..f5bf14c 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -117,11 +117,11 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 	if err != nil {
 		if !errors.Is(err, NewCorruptedFileError()) {
 			file.Close()
-			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+			return nil, fmt.Errorf("failed to open index storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The file has been closed by the factory after the failure
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4f5c4bb..5b2f4bd 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -2,7 +2,6 @@ package index
 
 import (
 	"bufio"
-	"errors"
 	"fmt"
 	"io"
 	"recengine/internal/domain"
@@ -59,7 +58,7 @@ func (s *storage) load() error {
 		return fmt.Errorf("failed to read index header: %v", err)
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
+		return domain.NewCorruptedFileError()
 	}
 	// Lock
 	err = s.proto.WriteLocked(true, s.file)
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..16f75f4 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -63,7 +63,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
-- 
2.43.0


From f29b4d4b2e3d833a169fc301f5aeee817cdcf79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 13/40] fix: treat a cut index file as a corrupted one

---
 internal/infra/index/storage.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 5b2f4bd..86c6fd1 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -40,6 +40,11 @@ func (s *storage) create() error {
 	return nil
 }
 
+// Returns true if the error means that the file is shorter than expected.
+func isEOF(err error) bool {
+	return err == io.EOF || err == io.ErrUnexpectedEOF
+}
+
 // Loads the index file into memory.
 func (s *storage) load() error {
 	_, err := s.file.Seek(0, io.SeekStart)
@@ -49,11 +54,17 @@ func (s *storage) load() error {
 	reader := bufio.NewReader(s.file)
 	// Load header
 	_, err = s.proto.ReadPrefix(reader)
+	if isEOF(err) {
+		return domain.NewCorruptedFileError()
+	}
 	if err != nil {
 		return fmt.Errorf("failed to read index prefix: %v", err)
 	}
 	header := Header{}
 	_, err = s.proto.ReadHeader(&header, reader)
+	if isEOF(err) {
+		return domain.NewCorruptedFileError()
+	}
 	if err != nil {
 		return fmt.Errorf("failed to read index header: %v", err)
 	}
@@ -72,6 +83,9 @@ func (s *storage) load() error {
 	for i := uint(0); i < uint(header.NumEntries); i++ {
 		size, err = s.proto.ReadEntry(&entry, reader)
 		offset += int64(size)
+		if isEOF(err) {
+			return domain.NewCorruptedFileError()
+		}
 		if err != nil {
 			return fmt.Errorf("failed to read index entry: %v", err)
 		}
-- 
2.43.0


From ff9eded0a607bbb74333a09300db51842c161a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 14/40] fix: creating a recdb database must actually write it

---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From d14f24e524d1adddc09cc8c5173dbe0cfac23219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 15/40] fix: refuse writing a recdb entry that does not fit its
 capacity

---
 internal/infra/recdb/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..daaa130 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -238,7 +238,14 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if size > int(entry.Capacity) {
+		return 0, fmt.Errorf("entry's capacity=%d is less than its size=%d", entry.Capacity, size)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From 8ef51f24410bc929447990a0de7ad88d841a1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 16/40] fix: reject malformed recdb entries without allocating
 what they claim

---
 internal/infra/recdb/likeprotocol.go | 30 +++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..126783c 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -36,8 +36,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	likes := make([]uint64, numLikes)
-	err = binary.Read(reader, binary.BigEndian, likes)
+	likes, err := readItems(entry, numLikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -47,8 +46,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	dislikes := make([]uint64, numDislikes)
-	err = binary.Read(reader, binary.BigEndian, dislikes)
+	dislikes, err := readItems(entry, numDislikes, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -63,13 +61,35 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, fmt.Errorf("cannot predict data size: %w", err)
 	}
-	if size > int(entry.Capacity-entryHeaderSize) {
+	if size > int(entry.Capacity)-entryHeaderSize {
 		return 0, fmt.Errorf("entry's capacity=%d is less than data len=%d",
 			entry.Capacity, size)
 	}
 	return size, nil
 }
 
+// Reads an item list of the specified length.
+// The length is not trustworthy (the file may be corrupted), so memory is
+// allocated only for the data that is really there.
+func readItems(entry *Entry, count uint32, reader io.Reader) ([]uint64, error) {
+	if int64(count)*8 > int64(entry.Capacity) {
+		return nil, fmt.Errorf("entry's capacity=%d is less than needed for %d items",
+			entry.Capacity, count)
+	}
+	data, err := io.ReadAll(io.LimitReader(reader, int64(count)*8))
+	if err != nil {
+		return nil, err
+	}
+	if len(data) < int(count)*8 {
+		return nil, io.ErrUnexpectedEOF
+	}
+	items := make([]uint64, count)
+	for i := range items {
+		items[i] = binary.BigEndian.Uint64(data[i*8:])
+	}
+	return items, nil
+}
+
 // Writes entry data from the `Entry.Data` field into the stream.
 // Returns the number of the bytes having read.
 // The data length cannot be greater than `Entry.Capacity`.
-- 
2.43.0


From cc29d875280ff213f29c63ab675622738d973937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 17/40] fix: panic when writing a recdb entry without data

---
 internal/infra/recdb/likeprotocol.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 126783c..91b21a3 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"recengine/internal/domain"
-	"reflect"
 )
 
 // Binary ("like") implementation of IConcreteProtocol.
@@ -98,8 +97,8 @@ func (p *likeProtocol) WriteEntryData(entry *Entry, writer io.Writer) (int, erro
 	profile, ok := entry.Data.(*domain.Profile)
 	if !ok {
 		return 0, fmt.Errorf(
-			"entry's data type doesn't represent like profile, got %s",
-			reflect.TypeOf(entry.Data).Name(),
+			"entry's data type doesn't represent like profile, got %T",
+			entry.Data,
 		)
 	}
 	// Write user ID
-- 
2.43.0


From f51ae6837c47e6b854496d886d3bf82636b25a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 18/40] fix: SetPrevious must rewrite the entry having been
 read, not read-ahead data

---
 internal/infra/recdb/iterator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..3790d59 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -58,7 +58,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -105,17 +105,23 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	// The file position is not the iterator's one, because the reader is buffered
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
+	// Regardless of the result the iteration continues from the same entry
+	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
+	iter.reader.Reset(iter.file)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
+	if seekErr != nil {
+		return fmt.Errorf(msg, seekErr)
+	}
 	if uint32(n) != entry.Capacity {
 		return fmt.Errorf("expected to write %d bytes, written %d", entry.Capacity, n)
 	}
-	iter.reader.Reset(iter.file)
 	return nil
 }
-- 
2.43.0


From be396c67260e9361a70b343e74408f09aa386c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 19/40] fix: updating a namespace must not hang forever

---
 internal/domain/likenamespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index f5bf14c..c13019c 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -71,7 +71,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	done := make(chan error, 1)
+	done <- nil
+	return done
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From 44c202ef5899f40329ebdbaafff0619ec4eca0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 20/40] fix: omitting maxSimilarProfiles in an update must not
 set it to zero

---
 internal/domain/likenamespace.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index c13019c..bbcf06f 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -37,6 +37,9 @@ type LikeNamespaceDto struct {
 	IndexStorageFactory IndexStorageFactory
 }
 
+// The limit to use if it is not specified.
+const defaultMaxSimilarProfiles = 1000
+
 // Creates a new namespace.
 func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	ns := &likeNamespace{
@@ -52,7 +55,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
-		ns.maxSimilarProfiles = 1000
+		ns.maxSimilarProfiles = defaultMaxSimilarProfiles
 	}
 	return ns
 }
@@ -77,7 +80,11 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
+// Zero means the default limit.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
+	if limit == 0 {
+		limit = defaultMaxSimilarProfiles
+	}
 	ns.maxSimilarProfiles = limit
 }
 
-- 
2.43.0


From c025f9b4b3870ab989d3bcf73b492a8d4ae2e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 21/40] fix: namespaces must store their files in REC_PATH

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..4143b75 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -60,6 +60,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From 6ed498bba1fe7b92781a97c95e18d2ceb62d82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 22/40] fix: starting a namespace without a like storage must
 not panic

---
 internal/domain/likenamespace.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bbcf06f..efbb74b 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -162,6 +162,9 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
+	if ns.likeStorageFactory == nil {
+		return errors.New("like storage is not available")
+	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
 		return err
-- 
2.43.0


From b5af769de7da12a9d0d40d2a639a47dc13dd4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 23/40] fix: registered namespaces must survive a restart

---
 internal/domain/likenamespace.go    |  5 +++
 internal/domain/namespace.go        |  1 +
 internal/domain/namespaceservice.go | 49 +++++++++++++++++++++++++++--
 3 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index efbb74b..6b9ab38 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -100,6 +100,11 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	filePath := ns.basePath + ns.name.Value() + ".delta"
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 4143b75..a835e44 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -24,6 +24,14 @@ type NamespaceUpdateRequest struct {
 	DislikeFactor      float32
 }
 
+// The persistent form of a namespace registration.
+type namespaceRecord struct {
+	Name               string  `json:"name"`
+	Type               string  `json:"type"`
+	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
+	DislikeFactor      float32 `json:"dislikeFactor"`
+}
+
 // Manages namespaces.
 type NamespaceService struct {
 	namespaces          []Namespace
@@ -92,16 +100,53 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	var records []namespaceRecord
+	err = json.Unmarshal(data, &records)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	namespaces := make([]Namespace, 0, len(records))
+	for _, record := range records {
+		ns, err := s.restoreNamespace(&record)
+		if err != nil {
+			return fmt.Errorf("failed to decode %s: %v", filePath, err)
+		}
+		namespaces = append(namespaces, ns)
+	}
+	s.namespaces = namespaces
 	return nil
 }
 
+// Instantiates a namespace from its persistent form.
+func (s *NamespaceService) restoreNamespace(record *namespaceRecord) (Namespace, error) {
+	name, err := valueobjects.ParseNamespaceName(record.Name)
+	if err != nil {
+		return nil, err
+	}
+	nsType, err := valueobjects.ParseNamespaceType(record.Type)
+	if err != nil {
+		return nil, err
+	}
+	return s.forgeNamespace(&NamespaceCreateRequest{
+		Name:               name,
+		Type:               nsType,
+		MaxSimilarProfiles: record.MaxSimilarProfiles,
+		DislikeFactor:      record.DislikeFactor,
+	})
+}
+
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
-	data, err := json.Marshal(s.namespaces)
+	records := make([]namespaceRecord, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		records[i] = namespaceRecord{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
-- 
2.43.0


From dcb38047aaabc5050e02b2e9ac85ee8ca2a17092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 24/40] fix: a failure to save namespaces must not destroy the
 saved ones

---
 internal/domain/namespaceservice.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index a835e44..f3e1a1f 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -151,8 +151,16 @@ func (s *NamespaceService) SaveNamespaces() error {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
 	filePath := s.getNamespacesJsonPath()
-	err = os.WriteFile(filePath, data, 0644)
+	// The file is replaced as a whole, it must never be seen partially written
+	tmpFilePath := filePath + ".tmp"
+	err = os.WriteFile(tmpFilePath, data, 0644)
 	if err != nil {
+		os.Remove(tmpFilePath)
+		return fmt.Errorf("failed to write to %s: %v", tmpFilePath, err)
+	}
+	err = os.Rename(tmpFilePath, filePath)
+	if err != nil {
+		os.Remove(tmpFilePath)
 		return fmt.Errorf("failed to write to %s: %v", filePath, err)
 	}
 	return nil
-- 
2.43.0


From 10c572974512fcc7b1c315aa5b8712444f9c6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 25/40] fix: a namespace change that failed to persist must not
 be applied

---
 internal/domain/namespaceservice.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index f3e1a1f..635ec5c 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -203,6 +203,7 @@ func (s *NamespaceService) CreateNamespace(
 	}
 	s.namespaces = append(s.namespaces, ns)
 	if err = s.SaveNamespaces(); err != nil {
+		s.namespaces = s.namespaces[:len(s.namespaces)-1]
 		return nil, err
 	}
 	return ns, nil
@@ -220,12 +221,17 @@ func (s *NamespaceService) UpdateNamespace(
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
+	oldDislikeFactor := ns.GetDislikeFactor()
+	oldMaxSimilarProfiles := ns.GetMaxSimilarProfiles()
 	if err := <-ns.Rename(dto.Name); err != nil {
 		return nil, err
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	if err := s.SaveNamespaces(); err != nil {
+		<-ns.Rename(name)
+		ns.SetDislikeFactor(oldDislikeFactor)
+		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
 		return nil, err
 	}
 	return ns, nil
@@ -238,10 +244,13 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
-	s.namespaces[index].Stop()
-	s.namespaces = helpers.Remove(s.namespaces, index)
+	ns := s.namespaces[index]
+	oldNamespaces := s.namespaces
+	s.namespaces = helpers.Remove(append([]Namespace{}, oldNamespaces...), index)
 	if err := s.SaveNamespaces(); err != nil {
+		s.namespaces = oldNamespaces
 		return err
 	}
+	ns.Stop()
 	return nil
 }
-- 
2.43.0


From c24970cb7eb657635272a13388c265ec065e80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 26/40] fix: the API must take the namespace name from the path

---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..a5973d7 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From bf79ebcb5607d7b82beada0cbb61a04f2f7bd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 27/40] fix: the API must accept zero dislikeFactor

---
 internal/api/shard/dto/namespacecreaterequest.go | 10 +++++-----
 internal/api/shard/dto/namespaceupdaterequest.go |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/api/shard/dto/namespacecreaterequest.go b/internal/api/shard/dto/namespacecreaterequest.go
index c412fe3..9e90a9b 100644
--- a/internal/api/shard/dto/namespacecreaterequest.go
+++ b/internal/api/shard/dto/namespacecreaterequest.go
@@ -7,10 +7,10 @@ import (
 
 // A DTO for creating a Namespace.
 type NamespaceCreateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	Type               string  `json:"type" binding:"required,oneof=like"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	Type               string   `json:"type" binding:"required,oneof=like"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, error) {
@@ -30,7 +30,7 @@ func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, e
 		Name:               domainName,
 		Type:               domainType,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
diff --git a/internal/api/shard/dto/namespaceupdaterequest.go b/internal/api/shard/dto/namespaceupdaterequest.go
index e774db2..40390d1 100644
--- a/internal/api/shard/dto/namespaceupdaterequest.go
+++ b/internal/api/shard/dto/namespaceupdaterequest.go
@@ -7,9 +7,9 @@ import (
 
 // A DTO for updating a Namespace.
 type NamespaceUpdateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, error) {
@@ -20,7 +20,7 @@ func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, e
 	domainDto := &domain.NamespaceUpdateRequest{
 		Name:               domainName,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
-- 
2.43.0


From a0d3ad28e04e6dbcea07f9730d01e4f21103eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 28/40] fix: concurrent API requests must not corrupt the
 namespace registry

---
 internal/domain/likenamespace.go    | 31 +++++++++++++++++------
 internal/domain/namespaceservice.go | 39 ++++++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 6b9ab38..c89d1e1 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -7,11 +7,14 @@ import (
 	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 	"time"
 )
 
 // likeNamespace performs the same function as databases in relational databases.
 type likeNamespace struct {
+	// Guards the settings that may be changed at run time.
+	rwLock                  sync.RWMutex
 	name                    valueobjects.NamespaceName
 	maxSimilarProfiles      uint
 	dislikeFactor           float32
@@ -62,6 +65,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 
 // Returns the name of the namespace.
 func (ns *likeNamespace) GetName() valueobjects.NamespaceName {
+	ns.rwLock.RLock()
+	defer ns.rwLock.RUnlock()
 	return ns.name
 }
 
@@ -72,6 +77,8 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 
 // Renames the namespace.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
+	ns.rwLock.Lock()
+	defer ns.rwLock.Unlock()
 	ns.name = name
 	// TODO: rename the files
 	done := make(chan error, 1)
@@ -85,11 +92,15 @@ func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
 	if limit == 0 {
 		limit = defaultMaxSimilarProfiles
 	}
+	ns.rwLock.Lock()
+	defer ns.rwLock.Unlock()
 	ns.maxSimilarProfiles = limit
 }
 
 // Returns maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
+	ns.rwLock.RLock()
+	defer ns.rwLock.RUnlock()
 	return ns.maxSimilarProfiles
 }
 
@@ -97,17 +108,21 @@ func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
 // The value ranges from 0 to 1. 0.5 means that likes and dislikes has equal
 // effect on similarity.
 func (ns *likeNamespace) SetDislikeFactor(value float32) {
+	ns.rwLock.Lock()
+	defer ns.rwLock.Unlock()
 	ns.dislikeFactor = value
 }
 
 // Returns how much dislikes affect similarity of profiles.
 func (ns *likeNamespace) GetDislikeFactor() float32 {
+	ns.rwLock.RLock()
+	defer ns.rwLock.RUnlock()
 	return ns.dislikeFactor
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".delta"
+	filePath := ns.basePath + ns.GetName().Value() + ".delta"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -115,14 +130,14 @@ func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	storage, err := ns.deltaStorageFactory.OpenMaybeRecover(file)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".index"
+	filePath := ns.basePath + ns.GetName().Value() + ".index"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -131,7 +146,7 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 	if err != nil {
 		if !errors.Is(err, NewCorruptedFileError()) {
 			file.Close()
-			return nil, fmt.Errorf("failed to open index storage for %s: %w", ns.name.Value(), err)
+			return nil, fmt.Errorf("failed to open index storage for %s: %w", ns.GetName().Value(), err)
 		}
 		// The file has been closed by the factory after the failure
 		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
@@ -152,7 +167,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".recdb"
+	filePath := ns.basePath + ns.GetName().Value() + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open recdb file %s: %w", filePath, err)
@@ -160,7 +175,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	storage, err := ns.likeStorageFactory.OpenMaybeRecover(file, deltaStorage, indexStorage)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
@@ -189,7 +204,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
-		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer log.Printf("LikeNamespace %s stopped\n", ns.GetName())
 		for {
 			select {
 			case <-ctx.Done():
@@ -223,7 +238,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
-	log.Printf("Stopping namespace %s...\n", ns.name)
+	log.Printf("Stopping namespace %s...\n", ns.GetName())
 	close(ns.action)
 }
 
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 635ec5c..d667163 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
+	"sync"
 )
 
 // A DTO for creating a Namespace.
@@ -34,6 +35,8 @@ type namespaceRecord struct {
 
 // Manages namespaces.
 type NamespaceService struct {
+	// Guards the namespace list and its persistent copy.
+	rwLock              sync.RWMutex
 	namespaces          []Namespace
 	context             context.Context
 	basePath            string
@@ -81,7 +84,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
-	for _, ns := range s.namespaces {
+	for _, ns := range s.GetNamespaces() {
 		ns.Start(ctx)
 	}
 	return nil
@@ -137,6 +140,13 @@ func (s *NamespaceService) restoreNamespace(record *namespaceRecord) (Namespace,
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
+	s.rwLock.Lock()
+	defer s.rwLock.Unlock()
+	return s.saveNamespaces()
+}
+
+// Saves namespace list to the file. The caller must hold the lock.
+func (s *NamespaceService) saveNamespaces() error {
 	records := make([]namespaceRecord, len(s.namespaces))
 	for i, ns := range s.namespaces {
 		records[i] = namespaceRecord{
@@ -168,10 +178,13 @@ func (s *NamespaceService) SaveNamespaces() error {
 
 // Returns the list of currently loaded namespaces.
 func (s *NamespaceService) GetNamespaces() []Namespace {
-	return s.namespaces
+	s.rwLock.RLock()
+	defer s.rwLock.RUnlock()
+	return append([]Namespace{}, s.namespaces...)
 }
 
 // Returns the index of the namespace in the namespace list.
+// The caller must hold the lock.
 func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
 	for i, ns := range s.namespaces {
 		if ns.GetName() == name {
@@ -183,6 +196,14 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 
 // Returns the pointer to the namespace by its name, or nil if not found.
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
+	s.rwLock.RLock()
+	defer s.rwLock.RUnlock()
+	return s.getNamespaceByName(name)
+}
+
+// Returns the pointer to the namespace by its name, or nil if not found.
+// The caller must hold the lock.
+func (s *NamespaceService) getNamespaceByName(name valueobjects.NamespaceName) Namespace {
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
@@ -194,6 +215,8 @@ func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) N
 func (s *NamespaceService) CreateNamespace(
 	dto *NamespaceCreateRequest,
 ) (Namespace, error) {
+	s.rwLock.Lock()
+	defer s.rwLock.Unlock()
 	if s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -202,7 +225,7 @@ func (s *NamespaceService) CreateNamespace(
 		return nil, err
 	}
 	s.namespaces = append(s.namespaces, ns)
-	if err = s.SaveNamespaces(); err != nil {
+	if err = s.saveNamespaces(); err != nil {
 		s.namespaces = s.namespaces[:len(s.namespaces)-1]
 		return nil, err
 	}
@@ -214,7 +237,9 @@ func (s *NamespaceService) UpdateNamespace(
 	name valueobjects.NamespaceName,
 	dto *NamespaceUpdateRequest,
 ) (Namespace, error) {
-	ns := s.GetNamespaceByName(name)
+	s.rwLock.Lock()
+	defer s.rwLock.Unlock()
+	ns := s.getNamespaceByName(name)
 	if ns == nil {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
@@ -228,7 +253,7 @@ func (s *NamespaceService) UpdateNamespace(
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		<-ns.Rename(name)
 		ns.SetDislikeFactor(oldDislikeFactor)
 		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
@@ -240,6 +265,8 @@ func (s *NamespaceService) UpdateNamespace(
 // Removes namespace registration from the engine and persists the change.
 // The deleted namespace stops running automatically.
 func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
+	s.rwLock.Lock()
+	defer s.rwLock.Unlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
@@ -247,7 +274,7 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	ns := s.namespaces[index]
 	oldNamespaces := s.namespaces
 	s.namespaces = helpers.Remove(append([]Namespace{}, oldNamespaces...), index)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		s.namespaces = oldNamespaces
 		return err
 	}
-- 
2.43.0


From 596c11e73b51330b97e415c6e7c3df30126f2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 29/40] fix: a stopped namespace must close its storages and
 fail pending actions

---
 internal/domain/likenamespace.go | 128 +++++++++++++++++++++----------
 1 file changed, 88 insertions(+), 40 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index c89d1e1..e4a6d51 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -24,8 +24,17 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	// Guards the fields below.
+	lifecycleLock sync.Mutex
+	started       bool
+	// Closed to make the worker thread quit.
+	stop chan struct{}
+	// Closed when there is no worker thread to process actions anymore.
+	stopped chan struct{}
 }
 
+var errNamespaceStopped = errors.New("the namespace stopped")
+
 // Compile-time type check
 var _ = (Namespace)((*likeNamespace)(nil))
 
@@ -55,6 +64,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		basePath:                dto.BasePath,
 		actionQueueFillWaitTime: time.Millisecond * 50,
 		action:                  make(chan Action, 100),
+		stop:                    make(chan struct{}),
+		stopped:                 make(chan struct{}),
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
@@ -182,6 +193,16 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
+	ns.lifecycleLock.Lock()
+	defer ns.lifecycleLock.Unlock()
+	if ns.started {
+		return errors.New("the namespace has already been started")
+	}
+	select {
+	case <-ns.stop:
+		return errNamespaceStopped
+	default:
+	}
 	if ns.likeStorageFactory == nil {
 		return errors.New("like storage is not available")
 	}
@@ -200,7 +221,9 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		indexStorage.Close()
 		return err
 	}
+	ns.started = true
 	go func() {
+		defer close(ns.stopped)
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
@@ -208,13 +231,10 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		for {
 			select {
 			case <-ctx.Done():
-				ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
 				return
-			case action, more := <-ns.action:
-				if !more {
-					ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
-					return
-				}
+			case <-ns.stop:
+				return
+			case action := <-ns.action:
 				// We wan't to process as many actions as possible at a time.
 				// But not too much, though.
 				time.Sleep(ns.actionQueueFillWaitTime)
@@ -223,9 +243,8 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
 				for i := 1; i < len(actions); i++ {
-					actions[i], more = <-ns.action
-					if !more || actions[i].ActionType == ActionStop {
-						ns.sendStoppedLikeNamespaceErrorToActionWaiters(&actions)
+					actions[i] = <-ns.action
+					if actions[i].ActionType == ActionStop {
 						return
 					}
 				}
@@ -236,36 +255,56 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 	return nil
 }
 
-// Sends a quit signal to the job worker thread started by a call to Run().
+// Sends a quit signal to the job worker thread started by a call to Start().
+// The actions that have not been processed yet fail.
 func (ns *likeNamespace) Stop() {
+	ns.lifecycleLock.Lock()
+	defer ns.lifecycleLock.Unlock()
+	select {
+	case <-ns.stop:
+		return
+	default:
+	}
 	log.Printf("Stopping namespace %s...\n", ns.GetName())
-	close(ns.action)
+	close(ns.stop)
+	if !ns.started {
+		close(ns.stopped)
+	}
 }
 
-func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
-	// Get actions from the buffer and send an error to each one
-	for {
-		action, more := <-ns.action
-		if !more {
-			break
-		}
-		action.Error <- errors.New("the namespace stopped")
+// Puts the action into the queue of the worker thread.
+func (ns *likeNamespace) enqueue(action Action) error {
+	select {
+	case <-ns.stopped:
+		return errNamespaceStopped
+	default:
 	}
-	// Send an error to each action that has been taken out from the buffer
-	// and should has been processed
-	if takenActions != nil {
-		for _, action := range *takenActions {
-			action.Error <- errors.New("the namespace stopped")
-		}
+	select {
+	case ns.action <- action:
+		return nil
+	case <-ns.stopped:
+		return errNamespaceStopped
+	}
+}
+
+// Waits for an action that doesn't return a value to be processed.
+func (ns *likeNamespace) perform(actionType ActionType, payload any) error {
+	errChan := make(chan error)
+	if err := ns.enqueue(Action{actionType, errChan, payload}); err != nil {
+		return err
+	}
+	select {
+	case err := <-errChan:
+		return err
+	case <-ns.stopped:
+		return errNamespaceStopped
 	}
 }
 
 // Removes the profile by its ID.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) DeleteProfile(user uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}
-	return <-err
+	return ns.perform(ActionDeleteProfile, DeleteProfilePayload{user})
 }
 
 // Returns the profile by its ID or nil if it isn't found.
@@ -273,12 +312,17 @@ func (ns *likeNamespace) DeleteProfile(user uint64) error {
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 	errChan := make(chan error)
 	profileChan := make(chan *Profile)
-	ns.action <- Action{
+	err := ns.enqueue(Action{
 		ActionGetProfile,
 		errChan,
 		GetProfilePayload{user, profileChan},
+	})
+	if err != nil {
+		return nil, err
 	}
 	select {
+	case <-ns.stopped:
+		return nil, errNamespaceStopped
 	case err := <-errChan:
 		return nil, err
 	case profile := <-profileChan:
@@ -288,35 +332,34 @@ func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 
 // Sets an item of the profile liked.
 func (ns *likeNamespace) Like(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionLike, err, LikePayload{user, item}}
-	return <-err
+	return ns.perform(ActionLike, LikePayload{user, item})
 }
 
 // Sets an item of the profile disliked.
 func (ns *likeNamespace) Dislike(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
-	return <-err
+	return ns.perform(ActionDislike, DislikePayload{user, item})
 }
 
 // Sets an item of the profile undefined (not liked nor disliked).
 func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}
-	return <-err
+	return ns.perform(ActionDeleteItem, DeleteItemPayload{user, item})
 }
 
 // Returns the most similar profiles to the given one.
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
 	errChan := make(chan error)
 	profilesChan := make(chan *[]SimilarProfile)
-	ns.action <- Action{
+	err := ns.enqueue(Action{
 		ActionGetSimilarProfiles,
 		errChan,
 		GetSimilarProfilesPayload{user, profilesChan},
+	})
+	if err != nil {
+		return nil, err
 	}
 	select {
+	case <-ns.stopped:
+		return nil, errNamespaceStopped
 	case err := <-errChan:
 		return nil, err
 	case profiles := <-profilesChan:
@@ -328,12 +371,17 @@ func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, err
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
 	errChan := make(chan error)
 	recsChan := make(chan *[]RecItem)
-	ns.action <- Action{
+	err := ns.enqueue(Action{
 		ActionRecommendItems,
 		errChan,
 		RecommendItemsPayload{user, recsChan},
+	})
+	if err != nil {
+		return nil, err
 	}
 	select {
+	case <-ns.stopped:
+		return nil, errNamespaceStopped
 	case err := <-errChan:
 		return nil, err
 	case recs := <-recsChan:
-- 
2.43.0


From 95f6edb6970bbc38c2f15b3d0c3f988c0d49865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 30/40] fix: close the like storage before the storages it
 depends on

---
 internal/domain/likenamespace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index e4a6d51..4b69ccc 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -224,9 +224,10 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 	ns.started = true
 	go func() {
 		defer close(ns.stopped)
-		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
+		// Deferred last to be closed first: it depends on the other two
+		defer likeStorage.Close()
 		defer log.Printf("LikeNamespace %s stopped\n", ns.GetName())
 		for {
 			select {
-- 
2.43.0


From 9fb18702887e0d448184cf4fb61f90fa233c7dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 31/40] fix: process all the queued actions at a time

---
 internal/domain/likenamespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 4b69ccc..c6066a7 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -240,7 +240,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 				// But not too much, though.
 				time.Sleep(ns.actionQueueFillWaitTime)
 				// Take out actions from the channel
-				actions := make([]Action, 1, len(ns.action)+1)
+				actions := make([]Action, len(ns.action)+1)
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
 				for i := 1; i < len(actions); i++ {
-- 
2.43.0


From c259e90e5a3c053e092816f13849b28fff384231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 32/40] fix: report a failure to start the HTTP server instead
 of hanging

---
 internal/api/shard/application.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index 97b5a67..05f76fd 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -63,12 +63,16 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	// kill (no param) default send syscanll.SIGTERM
 	// kill -2 is syscall.SIGINT
 	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
 	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
-	<-quit
+	select {
+	case <-quit:
+	case err := <-listenError:
+		return err
+	}
 	log.Println("Shutdown server ...")
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From 335a070fecbf31af2432467e56bb81ea6aba8409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 33/40] fix: do not print the whole delta storage on every
 flush

---
 internal/infra/delta/storage.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index b2bedbc..5cbfd08 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -35,7 +35,6 @@ var _ = (domain.DeltaStorage)((*storage)(nil))
 
 // Rewrites file header with actual data.
 func (s *storage) flushHeader() error {
-	fmt.Println(s)
 	hdr := &Header{
 		Version:    Version,
 		Locked:     1,
-- 
2.43.0


From 45fd71b1f78482d189ad746a3fc23874b1ddc664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 34/40] fix: delta recovery must not take zero-filled space for
 operations

---
 internal/infra/delta/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8389da2..bedff49 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -309,6 +309,10 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
+		// The checksum of a zero-filled entry is valid, but it isn't an operation
+		if entry.Op != domain.DeltaOpAdd && entry.Op != domain.DeltaOpRemove {
+			continue
+		}
 		err = p.WriteEntry(&entry, writer)
 		if err != nil {
 			return err
-- 
2.43.0


From 356b75aff2c8989662798d22af9c3093d2d7ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 35/40] fix: a failure of the like storage must be reported to
 the pending actions

---
 internal/domain/likenamespace.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index c6066a7..dea0acd 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -249,13 +249,27 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 						return
 					}
 				}
-				likeStorage.ProcessActions(actions)
+				err := likeStorage.ProcessActions(actions)
+				if err != nil {
+					failActions(actions, err)
+				}
 			}
 		}
 	}()
 	return nil
 }
 
+// Reports the error to those waiting for the actions that have got no reply.
+func failActions(actions []Action, err error) {
+	for _, action := range actions {
+		select {
+		case action.Error <- err:
+		default:
+			// The reply has already been sent
+		}
+	}
+}
+
 // Sends a quit signal to the job worker thread started by a call to Start().
 // The actions that have not been processed yet fail.
 func (ns *likeNamespace) Stop() {
@@ -290,7 +304,7 @@ func (ns *likeNamespace) enqueue(action Action) error {
 
 // Waits for an action that doesn't return a value to be processed.
 func (ns *likeNamespace) perform(actionType ActionType, payload any) error {
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	if err := ns.enqueue(Action{actionType, errChan, payload}); err != nil {
 		return err
 	}
@@ -298,6 +312,12 @@ func (ns *likeNamespace) perform(actionType ActionType, payload any) error {
 	case err := <-errChan:
 		return err
 	case <-ns.stopped:
+	}
+	// The action may have been processed just before the stop
+	select {
+	case err := <-errChan:
+		return err
+	default:
 		return errNamespaceStopped
 	}
 }
@@ -311,7 +331,7 @@ func (ns *likeNamespace) DeleteProfile(user uint64) error {
 // Returns the profile by its ID or nil if it isn't found.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	profileChan := make(chan *Profile)
 	err := ns.enqueue(Action{
 		ActionGetProfile,
@@ -348,7 +368,7 @@ func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
 
 // Returns the most similar profiles to the given one.
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	profilesChan := make(chan *[]SimilarProfile)
 	err := ns.enqueue(Action{
 		ActionGetSimilarProfiles,
@@ -370,7 +390,7 @@ func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, err
 
 // Returns the recommended items for the user.
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	recsChan := make(chan *[]RecItem)
 	err := ns.enqueue(Action{
 		ActionRecommendItems,
-- 
2.43.0


From 241bea71f110a2613cf6f30698aadaa0ca8fe737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 36/40] fix: a partially written index header must not pass for
 a saved one

---
 internal/infra/index/storage.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 86c6fd1..165aa22 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -104,13 +104,21 @@ func (s *storage) Close() error {
 		}
 		return err
 	}
-	err = s.saveHeader(false)
+	err = s.saveHeader(true)
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
 		}
 		return err
 	}
+	// Unlocked last, because the header may get written partially
+	err = s.proto.WriteLocked(false, s.file)
+	if err != nil {
+		if s.closer != nil {
+			s.closer.Close()
+		}
+		return fmt.Errorf("failed to unlock the file: %v", err)
+	}
 	if s.closer != nil {
 		return s.closer.Close()
 	}
-- 
2.43.0


From 0dfb5ce75355722034f3b4a539454b67cd3092b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 37/40] fix: a database file that could not be created must not
 be left behind

---
 internal/infra/recdb/protocol.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daaa130..5c3ecb7 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -165,14 +165,20 @@ func (p *protocol) OpenOrCreateFile(filePath string) (*os.File, error) {
 	file, err := os.Open(filePath)
 	if err != nil {
 		if os.IsNotExist(err) {
-			file, err := os.Create(filePath)
+			// The file must never be seen partially written
+			tmpFilePath := filePath + ".tmp"
+			file, err := os.Create(tmpFilePath)
 			if err != nil {
 				return nil, fmt.Errorf("failed to create RECDB file: %v", err)
 			}
 			err = p.Create(file)
+			if err == nil {
+				err = os.Rename(tmpFilePath, filePath)
+			}
 			if err != nil {
 				file.Close()
-				return nil, err
+				os.Remove(tmpFilePath)
+				return nil, fmt.Errorf("failed to create RECDB file: %v", err)
 			}
 			file.Seek(0, io.SeekStart)
 			return file, nil
-- 
2.43.0


From 04be7acac1b91b2e4c8a634088caebebd20a7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 38/40] fix: an iterator must not go on from the middle of an
 entry after a failure

---
 internal/infra/recdb/iterator.go | 33 +++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index 3790d59..1695e0b 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -34,6 +34,8 @@ type iterator struct {
 	fileOffset int64
 	entry      Entry
 	proto      Protocol
+	// The reader isn't at the file offset because of a failure.
+	lost bool
 }
 
 // Compile-time type check
@@ -58,19 +60,22 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto, false}
 	return iter, nil
 }
 
 // Sets the iterator pointer to the beginging of the entries.
 func (iter *iterator) Rewind() error {
-	var err error
-	iter.fileOffset, err = iter.file.Seek(int64(entriesOffset), 0)
-	iter.entryIndex = 0
-	iter.reader.Reset(iter.file)
+	_, err := iter.file.Seek(int64(entriesOffset), 0)
 	if err != nil {
+		// The iteration continues from the same entry
+		iter.lost = true
 		return fmt.Errorf("failed to rewind DB iterator: %v", err)
 	}
+	iter.fileOffset = int64(entriesOffset)
+	iter.entryIndex = 0
+	iter.reader.Reset(iter.file)
+	iter.lost = false
 	return nil
 }
 
@@ -86,11 +91,23 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
-	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
+	if iter.lost {
+		_, err := iter.file.Seek(iter.fileOffset, io.SeekStart)
+		if err != nil {
+			return nil, fmt.Errorf("failed to iterate next: %v", err)
+		}
+		iter.reader.Reset(iter.file)
+		iter.lost = false
+	}
+	entry := Entry{}
+	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
+		// The entry may have been read partially
+		iter.lost = true
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.entry = entry
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
 	entryCopy := iter.entry
 	return &entryCopy, nil
@@ -108,12 +125,14 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	// The file position is not the iterator's one, because the reader is buffered
 	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
+		iter.lost = true
 		return fmt.Errorf(msg, err)
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
 	// Regardless of the result the iteration continues from the same entry
 	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
 	iter.reader.Reset(iter.file)
+	iter.lost = seekErr != nil
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From 35e29b49b25c51901f34a244b42a80a0198c0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 39/40] fix: an update that has been carried out and saved must
 not be reported as failed

---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index a5973d7..b2b9f75 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -137,9 +137,5 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	if err := endpoint.nsService.SaveNamespaces(); err != nil {
-		ctx.AbortWithStatusJSON(http.StatusInternalServerError, dto.FromError(err))
-		return
-	}
 	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
 }
-- 
2.43.0


From 48fff44a5c6b82ca04e0dd3cf482f82d88d5f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 40/40] fix: refuse to start when the saved namespaces cannot
 be loaded

The service went on with an empty list, and the next saving overwrote the
namespaces that had been saved.
---
 internal/domain/namespaceservice.go | 2 +-
 main.go                             | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index d667163..4529941 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -101,7 +101,7 @@ func (s *NamespaceService) LoadNamespaces() error {
 	filePath := s.getNamespacesJsonPath()
 	data, err := os.ReadFile(filePath)
 	if err != nil {
-		return fmt.Errorf("failed to open %s: %v", filePath, err)
+		return fmt.Errorf("failed to open %s: %w", filePath, err)
 	}
 	var records []namespaceRecord
 	err = json.Unmarshal(data, &records)
diff --git a/main.go b/main.go
index ea47458..d6cac7b 100644
--- a/main.go
+++ b/main.go
@@ -2,7 +2,9 @@ package main
 
 import (
 	"context"
+	"errors"
 	"log"
+	"os"
 	"recengine/internal/api/shard"
 	"recengine/internal/domain"
 	"recengine/internal/infra/delta"
@@ -19,8 +21,11 @@ func runShard() {
 	indexStorageFactory := index.NewStorageFactory()
 
 	nsService := domain.NewNamespaceService(ctx, deltaStorageFactory, indexStorageFactory)
-	if err := nsService.LoadNamespaces(); err != nil {
+	if err := nsService.LoadNamespaces(); errors.Is(err, os.ErrNotExist) {
 		log.Printf("Warning: couldn't load domains (first load?): %v\n", err)
+	} else if err != nil {
+		// Going on would overwrite the saved namespaces
+		log.Fatalf("Error loading namespaces: %v\n", err)
 	}
 	if err := nsService.Start(ctx); err != nil {
 		log.Fatalf("Error running namespace service: %v\n", err)
-- 
2.43.0

