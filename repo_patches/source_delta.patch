From 3718f4999fe8cb11cca518c75d30fb2b55a7c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 01/38] fix: bitset lookups beyond the int range panicked and
 unsetting an absent index corrupted its word

---
 common/bitset/bitset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index c1faa37..4f01df4 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -56,7 +56,7 @@ func (b *Bitset) Count() int {
 // Get returns true if the specified index has been previously set and never subsequently unset.
 // Safely false if the specified index is out of bounds.
 func (b *Bitset) Get(x uint64) bool {
-	if int(x)/wordSize >= len(b.data) {
+	if x/wordSize >= uint64(len(b.data)) {
 		return false
 	}
 	return b.data[x/wordSize]&(1<<(x%wordSize)) != 0
@@ -111,11 +111,11 @@ func (b *Bitset) Full() bool {
 // Unset sets the specified index to False. If the specified index is out of bounds, nothing
 // happens. Does not cause size to shrink. Returns itself
 func (b *Bitset) Unset(x uint64) *Bitset {
-	offset := int(x) / wordSize
-	if offset >= len(b.data) {
+	offset := x / wordSize
+	if offset >= uint64(len(b.data)) {
 		return b
 	}
-	b.data[offset] = b.data[offset] - (1 << (x % wordSize))
+	b.data[offset] &^= 1 << (x % wordSize)
 	return b
 }
 
-- 
2.43.0


From fb0fdba16af885a0b4b8836e23592464b7734086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 02/38] fix: union and intersection of bitsets lost their size

---
 common/bitset/bitset.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 4f01df4..f5575a3 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -132,7 +132,7 @@ func (b *Bitset) Union(a *Bitset) *Bitset {
 	copy(remainder, longer.data[len(shorter.data):])
 
 	result = append(result, remainder...)
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: max(a.size, b.size)}
 }
 
 // Intersect returns the intersect between any two bitsets
@@ -144,7 +144,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 		result[i] = x & longer.data[i]
 	}
 
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: min(a.size, b.size)}
 }
 
 // Overlap takes a sorted  list of ranges ([]uint16 of even length) where each consecutive pair of
@@ -296,3 +296,10 @@ func max(a, b int) int {
 	}
 	return b
 }
+
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
-- 
2.43.0


From d084f80a5b6e4ff189696d1cf3f6aa8a1a844f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 03/38] fix: Overlap panicked on an odd number of range bounds

---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index f5575a3..0111523 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -152,7 +152,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 // non-overallping ranges that are set to 'on' within the underlying bitset
 func (b *Bitset) Overlap(ranges []uint16) []uint16 {
 	result := make([]uint16, 0, len(ranges))
-	for i := 0; i < len(ranges); i += 2 {
+	for i := 0; i+1 < len(ranges); i += 2 { // an incomplete trailing pair is ignored
 		start, end := ranges[i], ranges[i+1]
 		result = append(result, b.filledRanges(int(start), int(end))...)
 	}
-- 
2.43.0


From bfed9e416c547fcd839d7dd3042fe95cf2d3c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 04/38] fix: Deserialize panicked on or accepted malformed
 bitset data

---
 common/bitset/bitset.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 0111523..a0028f8 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -254,12 +254,19 @@ func (b *Bitset) Serialize() []byte {
 
 // Deserialize converts a previously-serialized bitset into a realized bitset.
 func Deserialize(data []byte) (*Bitset, error) {
+	if len(data) < 8 {
+		return nil, fmt.Errorf("bitset data must have an 8-byte header. Got %d bytes", len(data))
+	}
 	size := int(binary.BigEndian.Uint64(data[:8]))
 
 	if l := len(data[8:]); l%8 != 0 {
 		return nil, fmt.Errorf("data segment of bitset data must be a multiple of 8. Got %d", l)
 	}
 
+	if words := (len(data) - 8) / 8; size < 0 || size > words*wordSize || size <= (words-1)*wordSize {
+		return nil, fmt.Errorf("bitset data of %d words does not fit size %d", words, size)
+	}
+
 	setData := make([]uint64, len(data[8:])/8)
 	for i := 0; i < len(setData); i++ {
 		byteIndex := 8 + (i * 8)
-- 
2.43.0


From 7257d5523df1278da90e6eb5165332d677e29c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 05/38] fix: decoding a truncated message or data packet
 panicked

---
 flu/messages/msgDataPacket.go | 12 ++++++++++--
 flu/messages/parse.go         |  7 ++++++-
 flu/messages/utils.go         | 30 ++++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/flu/messages/msgDataPacket.go b/flu/messages/msgDataPacket.go
index fa36434..5c3cf41 100644
--- a/flu/messages/msgDataPacket.go
+++ b/flu/messages/msgDataPacket.go
@@ -43,8 +43,12 @@ func (r *DataPacket) Serialize() []byte {
 
 // Split interprets the DataPacket as the first message with a zero offset and returns the
 // the individual components of that message, namely: a hash of its contents, the size of the
-// overall data being transmitted in this connection, and the raw data itself
+// overall data being transmitted in this connection, and the raw data itself. The hash is nil if the
+// packet is too short to be a first message.
 func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
+	if len(r.Data) < 24 {
+		return nil, 0, nil
+	}
 	hash := common.Sha1Hash{Data: [20]byte{}}
 	copy(hash.Data[:], r.Data[0:20]) // copy hash
 	chunkSize := binary.BigEndian.Uint32(r.Data[20:24])
@@ -54,8 +58,12 @@ func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
 
 // ParseAsDataPacket takes raw bytes from the wire and parses them as a DataPacket. It skips over
 // the first byte since that's used to indicate what type the message is, and this function assumes
-// the caller already has good reason to know this is a DataPacket and not something else.
+// the caller already has good reason to know this is a DataPacket and not something else. It returns nil if
+// there are too few bytes for a DataPacket.
 func ParseAsDataPacket(data []byte) *DataPacket {
+	if len(data) < 5 {
+		return nil
+	}
 	return &DataPacket{
 		Offset: binary.BigEndian.Uint32(data[1:5]),
 		Data:   data[5:],
diff --git a/flu/messages/parse.go b/flu/messages/parse.go
index 3329ac9..bc0440a 100644
--- a/flu/messages/parse.go
+++ b/flu/messages/parse.go
@@ -5,6 +5,11 @@ import "fmt"
 // Parse attempts to parse a serialized message into a flu messages.Message
 func Parse(data []byte) (msg Message, err error) {
 	reader := byteReader{Data: data}
+	defer func() {
+		if reader.short {
+			msg, err = nil, fmt.Errorf("Message of %d bytes is incomplete", len(data))
+		}
+	}()
 	msgType := reader.readByte()
 
 	switch msgType {
@@ -42,7 +47,7 @@ func Parse(data []byte) (msg Message, err error) {
 		reqID := reader.readUint16()
 		entryCount := reader.readUint16()
 		entries := make([]ListFilesEntry, entryCount)
-		for i := 0; i < int(entryCount); i++ {
+		for i := 0; i < int(entryCount) && !reader.short; i++ {
 			entries[i] = ListFilesEntry{
 				SizeInBytes:      reader.readUint64(),
 				ChunkCount:       reader.readUint32(),
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 4c58135..63432ab 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -12,39 +12,66 @@ import (
 type byteReader struct {
 	Data  []byte
 	index int
+	short bool // true once more bytes were asked for than there are
+}
+
+// has reports whether `count` more bytes can be read, and notes it if they cannot.
+func (b *byteReader) has(count int) bool {
+	if len(b.Data)-b.index < count {
+		b.short = true
+	}
+	return !b.short
 }
 
 func (b *byteReader) readByte() uint8 {
+	if !b.has(1) {
+		return 0
+	}
 	result := b.Data[b.index]
 	b.index++
 	return result
 }
 
 func (b *byteReader) readBytes(count int) []byte {
+	if !b.has(count) {
+		return make([]byte, count)
+	}
 	result := b.Data[b.index : b.index+count]
 	b.index += count
 	return result
 }
 
 func (b *byteReader) readSha1Hash() *common.Sha1Hash {
+	if !b.has(20) {
+		return &common.Sha1Hash{}
+	}
 	hashData := b.Data[b.index : b.index+20]
 	b.index += 20
 	return (&common.Sha1Hash{}).FromSlice(hashData)
 }
 
 func (b *byteReader) readUint16() uint16 {
+	if !b.has(2) {
+		return 0
+	}
 	result := binary.BigEndian.Uint16(b.Data[b.index : b.index+2])
 	b.index += 2
 	return result
 }
 
 func (b *byteReader) readUint32() uint32 {
+	if !b.has(4) {
+		return 0
+	}
 	result := binary.BigEndian.Uint32(b.Data[b.index : b.index+4])
 	b.index += 4
 	return result
 }
 
 func (b *byteReader) readUint64() uint64 {
+	if !b.has(8) {
+		return 0
+	}
 	result := binary.BigEndian.Uint64(b.Data[b.index : b.index+8])
 	b.index += 8
 	return result
@@ -61,6 +88,9 @@ func (b *byteReader) readSliceUint16() []uint16 {
 
 func (b *byteReader) readString256() string {
 	length := int(b.readByte())
+	if !b.has(length) {
+		return ""
+	}
 	result := string(b.Data[b.index : b.index+length])
 	b.index += length
 	return result
-- 
2.43.0


From 1a34b6c58a163d0bd935665b5fd8f5dd3c6a9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 06/38] fix: a discovery message with more than 255 chunk
 values lost most or all of them

---
 flu/messages/msgDiscoverHosts.go | 14 ++++++++------
 flu/messages/utils.go            |  8 ++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/flu/messages/msgDiscoverHosts.go b/flu/messages/msgDiscoverHosts.go
index 5613e21..676c30c 100644
--- a/flu/messages/msgDiscoverHosts.go
+++ b/flu/messages/msgDiscoverHosts.go
@@ -35,11 +35,12 @@ func (r *DiscoverHostRequest) Serialize() []byte {
 	copy(result[3:23], r.Sha1Hash.Slice())
 
 	// chunk count
-	result[23] = uint8(len(r.Chunks))
+	chunkVals := encodableChunks(r.Chunks)
+	result[23] = uint8(len(chunkVals))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(chunkVals)*2)
+	for i, chunkVal := range chunkVals {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -83,11 +84,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 	binary.BigEndian.PutUint16(result[7:9], r.Port)
 
 	// chunk count
-	result[9] = uint8(len(r.Chunks))
+	chunkVals := encodableChunks(r.Chunks)
+	result[9] = uint8(len(chunkVals))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(chunkVals)*2)
+	for i, chunkVal := range chunkVals {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 63432ab..41ac6b1 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -110,3 +110,11 @@ func SerializeString255(s string) []byte {
 	result[0] = uint8(resultLen)
 	return result
 }
+
+// encodableChunks cuts a list of chunk values to the whole ranges that a one-byte count can describe.
+func encodableChunks(chunks []uint16) []uint16 {
+	if len(chunks) > 255 {
+		return chunks[:254]
+	}
+	return chunks
+}
-- 
2.43.0


From 11819e324c69226bd54dd5cf4c5d7b41298c947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:30 +0000
Subject: [PATCH 07/38] fix: a read error while hashing a chunk looped forever

---
 catalogue/indexRecord.go |  7 ++++++-
 common/chunkReader.go    | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0b114b8..9dd073a 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -84,7 +84,12 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, err
 	}
 
-	return common.NewChunkReader(secReader), nil
+	chunkReader, err := common.NewChunkReaderSafe(secReader)
+	if err != nil {
+		fd.Close()
+		return nil, err
+	}
+	return chunkReader, nil
 }
 
 func generateIndexRecordForFile(path string) (*indexRecord, error) {
diff --git a/common/chunkReader.go b/common/chunkReader.go
index 64b2e30..b5c9c10 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -52,7 +52,18 @@ func (cr *ChunkReader) Reset() error {
 	return nil
 }
 
+// NewChunkReader is the same as NewChunkReaderSafe, except that it panics if the reader fails.
 func NewChunkReader(reader *io.SectionReader) *ChunkReader {
+	result, err := NewChunkReaderSafe(reader)
+	if err != nil {
+		panic(err)
+	}
+	return result
+}
+
+// NewChunkReaderSafe hashes everything the reader yields and returns a ChunkReader for it, or an
+// error if the reader fails before its end.
+func NewChunkReaderSafe(reader *io.SectionReader) (*ChunkReader, error) {
 	hash := sha1.New()
 	size := 0
 
@@ -75,6 +86,8 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 
 		if err == io.EOF {
 			break
+		} else if err != nil {
+			return nil, err
 		}
 	}
 
@@ -85,5 +98,5 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 		Reader: *reader,
 		Hash:   *finalHash,
 		Size:   int64(size),
-	}
+	}, nil
 }
-- 
2.43.0


From c8b6d63fcdbe8725d4f212cbfeee2ee9fb0ae861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 08/38] fix: a crash while saving the index or a progress file
 left it torn

---
 catalogue/indexFile.go    |  2 +-
 catalogue/progressFile.go |  3 ++-
 common/utils.go           | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index c29d583..1d32bbd 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -81,7 +81,7 @@ func (ind *indexFile) save() error {
 	}
 
 	indexFilePath := filepath.Join(ind.dataDir, indexFileName)
-	err = os.WriteFile(indexFilePath, data, 0664)
+	err = common.WriteFileAtomic(indexFilePath, data, 0664)
 	if err != nil {
 		return err
 	}
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index ba14d80..6510f61 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -5,6 +5,7 @@ import (
 	"path/filepath"
 	"sync"
 
+	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/common/bitset"
 )
 
@@ -92,7 +93,7 @@ func newProgressFile(record *indexRecord, dataDir string) *progressFile {
 func (p *progressFile) save() error {
 	data := p.progress.Serialize()
 	progressFilePath := filepath.Join(p.filePath)
-	err := os.WriteFile(progressFilePath, data, 0664)
+	err := common.WriteFileAtomic(progressFilePath, data, 0664)
 	if err != nil {
 		return err
 	}
diff --git a/common/utils.go b/common/utils.go
index 8d1f3e7..556c5c0 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -43,6 +43,20 @@ func HashFile(path string) (*Sha1Hash, error) {
 	return (&Sha1Hash{}).FromSlice(hash.Sum(nil)), nil
 }
 
+// WriteFileAtomic replaces the contents of a file such that, whenever the process stops, the file has
+// either its old or its new contents.
+func WriteFileAtomic(path string, data []byte, perm os.FileMode) error {
+	tempPath := path + ".tmp"
+	err := os.WriteFile(tempPath, data, perm)
+	if err == nil {
+		err = os.Rename(tempPath, path)
+	}
+	if err != nil {
+		os.Remove(tempPath)
+	}
+	return err
+}
+
 func failHard(err error) {
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 27613c74be9baa00f4ece82fc459e440566dea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:54 +0000
Subject: [PATCH 09/38] fix: a crash or failed write while sharing, registering
 or unsharing left an index entry without progress file

---
 catalogue/catalogue.go | 26 ++++++++++++++++----------
 catalogue/indexFile.go | 22 +++++++++++++++++++---
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ac718a7..ac39462 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -69,11 +69,10 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
-	err = c.indexFile.AddIndexRecord(record)
-	if err != nil {
+	// the progress file comes first, because the index must never refer to a missing one
+	if err := c.indexFile.checkNotIndexed(record); err != nil {
 		return nil, err
 	}
-
 	record.ProgressFile = newProgressFile(record, c.DataDir)
 	record.ProgressFile.progress.Fill()
 	err = record.ProgressFile.save()
@@ -81,6 +80,11 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
+	err = c.indexFile.AddIndexRecord(record)
+	if err != nil {
+		return nil, err
+	}
+
 	return record, nil
 }
 
@@ -95,16 +99,13 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 		return err
 	}
 
-	err = rec.ProgressFile.delete()
-	if err != nil {
-		return err
-	}
-
 	err = c.indexFile.RemoveIndexRecord(rec)
 	if err != nil {
 		return err
 	}
 
+	// nothing refers to the progress file any more, so it does no harm if it cannot be deleted
+	rec.ProgressFile.delete()
 	return nil
 }
 
@@ -128,13 +129,18 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.AddIndexRecord(&indexRecord)
+	err := c.indexFile.checkNotIndexed(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
 
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	indexRecord.ProgressFile.save()
+	err = indexRecord.ProgressFile.save()
+	if err != nil {
+		return nil, err
+	}
+
+	err = c.indexFile.AddIndexRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 1d32bbd..588c875 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -93,18 +93,34 @@ func (ind *indexFile) save() error {
 // representation of the data so that change is reflected. If an identical file has already been
 // shared, this will safely return an error
 func (ind *indexFile) AddIndexRecord(record *indexRecord) error {
+	if err := ind.checkNotIndexed(record); err != nil {
+		return err
+	}
+	ind.index[record.Sha1Hash] = record
+	err := ind.save()
+	if err != nil {
+		delete(ind.index, record.Sha1Hash)
+	}
+	return err
+}
+
+// checkNotIndexed returns an error if an identical file has already been shared
+func (ind *indexFile) checkNotIndexed(record *indexRecord) error {
 	if extantRecord, exists := ind.index[record.Sha1Hash]; exists {
 		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
 	}
-	ind.index[record.Sha1Hash] = record
-	return ind.save()
+	return nil
 }
 
 // RemoveIndexRecord removes an indexRecord from the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
 	delete(ind.index, record.Sha1Hash)
-	return ind.save()
+	err := ind.save()
+	if err != nil {
+		ind.index[record.Sha1Hash] = record
+	}
+	return err
 }
 
 // MarshalJSON conforms to the Marshaler interface
-- 
2.43.0


From f33b7a004ebe12011842b256c4cee05ad5c197b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:54 +0000
Subject: [PATCH 10/38] fix: a catalogue reopened from a moved directory was
 saved to its old place

---
 catalogue/indexFile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 588c875..ae8923b 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -70,6 +70,7 @@ func (ind *indexFile) Init(dataDir string) error {
 	}
 
 	err = ind.UnmarshalJSON(data)
+	ind.dataDir = dataDir // the directory may have been moved since it was last saved
 	// TODO: assert ownership
 	return err
 }
-- 
2.43.0


From ca54723d8c7780dbf2af32ee79b7e1cee9c58e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 11/38] fix: a file path that is not UTF-8 was mangled by a
 restart

---
 catalogue/indexRecord.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 9dd073a..6a3720c 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/common/bitset"
@@ -120,7 +121,12 @@ func generateIndexRecordForFile(path string) (*indexRecord, error) {
 
 // toJSON returns an indexRecordJSON, which can natively be marshalled into JSON
 func (ir *indexRecord) toJSON() *indexRecordJSON {
+	var rawFilePath []byte
+	if !utf8.ValidString(ir.FilePath) {
+		rawFilePath = []byte(ir.FilePath)
+	}
 	return &indexRecordJSON{
+		RawFilePath: rawFilePath,
 		FilePath:    ir.FilePath,
 		SizeInBytes: ir.SizeInBytes,
 		Sha1Hash:    ir.Sha1Hash.String(),
@@ -138,6 +144,10 @@ func (irj *indexRecordJSON) fromJSON() (*indexRecord, error) {
 		ChunkSize:    irj.ChunkSize,
 	}
 
+	if irj.RawFilePath != nil {
+		result.FilePath = string(irj.RawFilePath)
+	}
+
 	err := result.Sha1Hash.FromStringSafe(irj.Sha1Hash)
 	if err != nil {
 		return nil, err
@@ -148,6 +158,7 @@ func (irj *indexRecordJSON) fromJSON() (*indexRecord, error) {
 // indexRecordJSON is a private intermediary representation of an indexRecord for JSON encoding. It
 // does not store a pointer to a progress file, since the FilePath is exactly that.
 type indexRecordJSON struct {
+	RawFilePath []byte `json:",omitempty"` // only for paths JSON cannot hold, i.e., non-UTF-8 ones
 	FilePath    string
 	SizeInBytes int64
 	Sha1Hash    string
-- 
2.43.0


From 144b52d807f388efd91ad56c17c6c37e1755acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 12/38] fix: Contains and Rehash read the index without its
 lock

---
 catalogue/catalogue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ac39462..e642dff 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -174,9 +174,9 @@ func (c *Cat) ListFiles() ([]IndexRecordExport, error) {
 // Rehash attempts to recalculate the hash for a given indexRecord. If it fails, a blank hash and an
 // error are returned.
 func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
-	rec, err := c.getIndexRecord(hash)
+	rec, err := c.Contains(hash)
 	if err != nil {
-		return nil, err
+		return (&common.Sha1Hash{}).Blank(), err
 	}
 	currentHash, err := common.HashFile(rec.FilePath)
 	if err != nil {
@@ -188,6 +188,8 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 // Contains returns the IndexRecordExport of the file specified by the hash, or an error if the file
 // cannot be accessed for any reason.
 func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	record, err := c.getIndexRecord(hash)
 	if err != nil {
 		return nil, err
@@ -197,8 +199,6 @@ func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 
 // Get is the same as contains, except that if the record does not exist it will panic.
 func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
-	c.lock.Lock()
-	defer c.lock.Unlock()
 	result, err := c.Contains(hash)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From ff365c9a2ce024a7225b77a3b4a60baf51dafc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 13/38] fix: unsharing a file while it is downloaded crashed
 the daemon

---
 catalogue/catalogue.go     | 11 +++++++----
 flu/serverStartDownload.go |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index e642dff..53a6fa6 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -206,23 +206,26 @@ func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
 	return result
 }
 
+// FileComplete returns true if all chunks of the file are present, and false if not or if the file is
+// not (or no longer) indexed.
 func (c *Cat) FileComplete(hash *common.Sha1Hash) bool {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return false
 	}
 	return ir.ProgressFile.Full()
 }
 
-// MissingChunks returns a list of ranges of missing chunks for the given hash
+// MissingChunks returns a list of ranges of missing chunks for the given hash. It is empty if the file
+// is not (or no longer) indexed.
 func (c *Cat) MissingChunks(hash *common.Sha1Hash, maxCount int) []common.Range {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return nil
 	}
 	return ir.ProgressFile.progress.UnfilledRanges()
 }
@@ -232,7 +235,7 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	err = ir.saveChunk(int64(chunk), data)
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 60a2b28..9851686 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -53,6 +53,10 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 			wantedChunks := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just
 			// getting the next wanted chunk. This runs the entire download serially!
 			// Find the least-known chunk from each host and download them
+			if len(wantedChunks) == 0 {
+				fmt.Println("Download abandoned: the file is no longer indexed")
+				return
+			}
 			c := wantedChunks[0]
 			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
 
-- 
2.43.0


From d2369585f2a7fd6422a22c023c57d049b084a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 14/38] fix: a chunk of the wrong length or index was saved and
 recorded as present

---
 catalogue/indexRecord.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 6a3720c..7407089 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -50,7 +50,19 @@ func (ir *indexRecord) export() *IndexRecordExport {
 	}
 }
 
+// chunkLength returns the number of bytes in the given chunk: the last one may be short
+func (ir *indexRecord) chunkLength(chunk int64) int64 {
+	rest := ir.SizeInBytes - chunk*int64(ir.ChunkSize)
+	if rest < int64(ir.ChunkSize) {
+		return rest
+	}
+	return int64(ir.ChunkSize)
+}
+
 func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
+	if int64(len(data)) != ir.chunkLength(chunk) || len(data) == 0 {
+		return fmt.Errorf("chunk %d of %s cannot have %d bytes", chunk, ir.FilePath, len(data))
+	}
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
-- 
2.43.0


From ed545aa90b50bd2983a5425798987ee0315476c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 15/38] fix: no chunk could be saved until the user had created
 the downloads directory

---
 catalogue/indexRecord.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 7407089..4aff58a 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -63,6 +63,9 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 	if int64(len(data)) != ir.chunkLength(chunk) || len(data) == 0 {
 		return fmt.Errorf("chunk %d of %s cannot have %d bytes", chunk, ir.FilePath, len(data))
 	}
+	if err := os.MkdirAll(filepath.Dir(ir.FilePath), os.ModePerm); err != nil {
+		return err
+	}
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
-- 
2.43.0


From acf4850ae130b171deba3b5c2290c6d16c668945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 16/38] fix: a chunk whose progress could not be saved was
 present until the next restart only

---
 catalogue/catalogue.go    | 7 ++++++-
 catalogue/progressFile.go | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 53a6fa6..a594a16 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -243,8 +243,13 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 		return err
 	}
 
+	previous := ir.ProgressFile.Export()
 	ir.ProgressFile.Set(uint64(chunk))
-	return ir.ProgressFile.save()
+	err = ir.ProgressFile.save()
+	if err != nil {
+		ir.ProgressFile.restore(previous)
+	}
+	return err
 }
 
 func (c *Cat) GetChunkReader(hash *common.Sha1Hash, chunk int64) (*common.ChunkReader, error) {
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index 6510f61..94ed240 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -74,6 +74,13 @@ func (p *progressFile) Export() *bitset.Bitset {
 	return p.progress.Copy()
 }
 
+// restore resets the progress to an earlier Export()
+func (p *progressFile) restore(progress *bitset.Bitset) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.progress = *progress
+}
+
 // newProgressFile returns a new progressFile for the given IndexRecord, assuming the IndexRecord
 // is intact and preset in full.
 func newProgressFile(record *indexRecord, dataDir string) *progressFile {
-- 
2.43.0


From cb4bd24fac7583b5db9784d90312cfa213869c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:08 +0000
Subject: [PATCH 17/38] fix: a peer could choose any path for a download, the
 path of another file, or a chunk size of zero

---
 catalogue/catalogue.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index a594a16..3d2de00 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -2,7 +2,10 @@ package catalogue
 
 import (
 	"fmt"
+	"math"
+	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/flu-network/client/common"
@@ -121,8 +124,14 @@ func (c *Cat) RegisterDownload(
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	if sizeInBytes > math.MaxInt64 || chunkSizeInBytes == 0 ||
+		(sizeInBytes+uint64(chunkSizeInBytes)-1)/uint64(chunkSizeInBytes) > math.MaxUint16+1 {
+		return nil, fmt.Errorf("a file of %d bytes in chunks of %d cannot be downloaded",
+			sizeInBytes, chunkSizeInBytes)
+	}
+
 	indexRecord := indexRecord{
-		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
+		FilePath:     c.downloadPath(filename, sha1Hash),
 		SizeInBytes:  int64(sizeInBytes),
 		Sha1Hash:     *sha1Hash,
 		ProgressFile: nil,
@@ -148,6 +157,26 @@ func (c *Cat) RegisterDownload(
 	return indexRecord.export(), nil
 }
 
+// downloadPath returns an unused path directly in the downloads directory for a file that a peer calls
+// `filename`.
+func (c *Cat) downloadPath(filename string, sha1Hash *common.Sha1Hash) string {
+	name := filepath.Base(filepath.Clean("/" + filename))
+	if name == "/" || strings.ContainsRune(name, 0) {
+		name = sha1Hash.String()
+	}
+	used := make(map[string]bool)
+	for _, rec := range c.indexFile.index {
+		used[rec.FilePath] = true
+	}
+	result := filepath.Join(c.DefaultDownloadsDir, name)
+	for i := 1; ; i++ {
+		if _, err := os.Lstat(result); err != nil && !used[result] {
+			return result
+		}
+		result = filepath.Join(c.DefaultDownloadsDir, fmt.Sprintf("%s-%d", sha1Hash.String(), i))
+	}
+}
+
 // ListFiles lists the files that exist in the catalogue. Not all indexed files have been downloaded
 // in their entirety. The result is a deep copy of the underlying catalogue data, so mutating it is
 // okay.
-- 
2.43.0


From 2e42a368a22455f7d96b10298e63941926ea5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 18/38] fix: clean removed downloads none of whose chunks had
 arrived yet

---
 cli/cliMethodsClean.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/cliMethodsClean.go b/cli/cliMethodsClean.go
index 57dd780..a513abe 100644
--- a/cli/cliMethodsClean.go
+++ b/cli/cliMethodsClean.go
@@ -51,12 +51,12 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 		actionTaken.WriteString(fmt.Sprintf("%s\n", f.FilePath))
 
 		switch {
+		case !f.Progress.Full():
+			actionTaken.WriteString("  - Download in progress. Ignored\n")
 		case err != nil:
 			execErr = m.cat.UnshareFile(&f.Sha1Hash)
 			actionTaken.WriteString("  - File is missing. Removed from index\n")
 			actionTaken.WriteString(fmt.Sprintf("  - %v\n", err))
-		case !f.Progress.Full():
-			actionTaken.WriteString("  - Download in progress. Ignored\n")
 		case *currentHash != f.Sha1Hash:
 			execErr = m.cat.UnshareFile(&f.Sha1Hash)
 			actionTaken.WriteString("  - File has changed since indexing. Removed from Index\n")
-- 
2.43.0


From eb1dbdfaafd3d1f3236a7424334d5e72833e9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 19/38] fix: the file behind a chunk reader could not be
 closed, and a truncated one was served

---
 catalogue/catalogue.go   | 19 ++++++++++++++-----
 catalogue/indexRecord.go |  5 +++++
 common/chunkReader.go    |  9 +++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 3d2de00..298f7bd 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -130,15 +130,20 @@ func (c *Cat) RegisterDownload(
 			sizeInBytes, chunkSizeInBytes)
 	}
 
+	path, err := c.downloadPath(filename, sha1Hash)
+	if err != nil {
+		return nil, err
+	}
+
 	indexRecord := indexRecord{
-		FilePath:     c.downloadPath(filename, sha1Hash),
+		FilePath:     path,
 		SizeInBytes:  int64(sizeInBytes),
 		Sha1Hash:     *sha1Hash,
 		ProgressFile: nil,
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.checkNotIndexed(&indexRecord)
+	err = c.indexFile.checkNotIndexed(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
@@ -159,7 +164,7 @@ func (c *Cat) RegisterDownload(
 
 // downloadPath returns an unused path directly in the downloads directory for a file that a peer calls
 // `filename`.
-func (c *Cat) downloadPath(filename string, sha1Hash *common.Sha1Hash) string {
+func (c *Cat) downloadPath(filename string, sha1Hash *common.Sha1Hash) (string, error) {
 	name := filepath.Base(filepath.Clean("/" + filename))
 	if name == "/" || strings.ContainsRune(name, 0) {
 		name = sha1Hash.String()
@@ -170,8 +175,12 @@ func (c *Cat) downloadPath(filename string, sha1Hash *common.Sha1Hash) string {
 	}
 	result := filepath.Join(c.DefaultDownloadsDir, name)
 	for i := 1; ; i++ {
-		if _, err := os.Lstat(result); err != nil && !used[result] {
-			return result
+		_, err := os.Lstat(result)
+		if err != nil && !os.IsNotExist(err) {
+			return "", err
+		}
+		if err != nil && !used[result] {
+			return result, nil
 		}
 		result = filepath.Join(c.DefaultDownloadsDir, fmt.Sprintf("%s-%d", sha1Hash.String(), i))
 	}
diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 4aff58a..fcc8bca 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -105,6 +105,11 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		fd.Close()
 		return nil, err
 	}
+	if chunkReader.Size != ir.chunkLength(chunk) {
+		fd.Close()
+		return nil, fmt.Errorf("chunk %d of %s has changed its size", chunk, ir.FilePath)
+	}
+	chunkReader.Closer = fd
 	return chunkReader, nil
 }
 
diff --git a/common/chunkReader.go b/common/chunkReader.go
index b5c9c10..a3512c0 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,6 +13,15 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
+	Closer io.Closer // what Close closes, if anything
+}
+
+// Close releases the file underlying the ChunkReader.
+func (cr *ChunkReader) Close() error {
+	if cr.Closer == nil {
+		return nil
+	}
+	return cr.Closer.Close()
 }
 
 func (cr *ChunkReader) Offset() uint32 {
-- 
2.43.0


From 9893d688c12ed77bc81b58853f7ae94cabcdd96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:29 +0000
Subject: [PATCH 20/38] fix: an upload flooded its peer with end packets, could
 stall, and an extra ack made its window overflow

---
 flu/senderConnection.go     | 26 +++++++++++++++++---------
 flu/serverContinueUpload.go |  5 ++++-
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index e618dcb..f806d7c 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -2,6 +2,7 @@ package flu
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"net"
 
@@ -16,7 +17,8 @@ type SenderConnection struct {
 	conn       *net.UDPConn
 	addr       *net.UDPAddr
 	packetChan chan messages.DataPacketAck
-	cancelChan chan struct{}
+	cancelChan chan struct{} // closed once nothing more is to be sent
+	ended      bool          // whether cancelChan is closed
 }
 
 func NewSenderConnection(reader *common.ChunkReader,
@@ -31,7 +33,7 @@ func NewSenderConnection(reader *common.ChunkReader,
 		conn:       conn,
 		addr:       addr,
 		packetChan: make(chan messages.DataPacketAck, windowCap),
-		cancelChan: make(chan struct{}, 1),
+		cancelChan: make(chan struct{}),
 	}
 }
 
@@ -76,7 +78,8 @@ func (sc *SenderConnection) kickstart(
 			case ack := <-sc.packetChan:
 				err := sc.kick(ack)
 				if err != nil {
-					panic(err) // TODO: Do something with these errors
+					fmt.Printf("Upload to %v failed: %v\n", sc.addr, err)
+					sc.terminate()
 				}
 			case <-sc.cancelChan:
 				return
@@ -88,24 +91,29 @@ func (sc *SenderConnection) kickstart(
 }
 
 func (sc *SenderConnection) terminate() {
-	sc.cancelChan <- struct{}{}
+	if !sc.ended {
+		sc.ended = true
+		close(sc.cancelChan)
+	}
 }
 
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
 // << 64 bits
 func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
-	sc.windowSize--
+	if sc.windowSize > 0 { // there may be more acks than packets: they can be duplicated
+		sc.windowSize--
+	}
 
 	packet := messages.DataPacket{Offset: 0, Data: nil}
 	packetBuffer := make([]byte, 1024)
 
-	for sc.windowSize < sc.windowCap {
+	for sc.windowSize < sc.windowCap && !sc.ended {
 
 		byteCount, offset, err := sc.reader.Read(packetBuffer)
 
-		if err == io.EOF {
-			defer sc.terminate() // make this the last message
-		} else if err != nil {
+		if err == io.EOF && byteCount == 0 {
+			sc.terminate() // make this the last message
+		} else if err != nil && err != io.EOF {
 			return err
 		}
 
diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index a29395f..8a2a13f 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -27,6 +27,9 @@ func (s *Server) ContinueUpload(
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
 
-	sc.packetChan <- *ack
+	select {
+	case sc.packetChan <- *ack:
+	case <-sc.cancelChan: // the upload needs no more acks
+	}
 	return nil
 }
-- 
2.43.0


From c84e9ca854e411c30c9bc267dca93ac9fc55518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 21/38] fix: uploads leaked their file, goroutine and table
 entry, and mixed up successive requests from one endpoint

---
 flu/senderConnection.go     | 31 ++++++++++++++++++++++++++++++-
 flu/server.go               |  3 ++-
 flu/serverContinueUpload.go |  2 ++
 flu/serverStartUpload.go    | 36 +++++++++++++++++++++++++++++++++---
 4 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index f806d7c..14c7d36 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -5,12 +5,18 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
+	"time"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/flu/messages"
 )
 
+// uploadIdleTime is how long an upload waits for an ack. Receivers give up sooner.
+const uploadIdleTime = 10 * time.Second
+
 type SenderConnection struct {
+	lock       sync.Mutex // held while sending, and guards windowSize and ended
 	reader     *common.ChunkReader
 	windowSize uint16
 	windowCap  uint16
@@ -43,7 +49,13 @@ func NewSenderConnection(reader *common.ChunkReader,
 func (sc *SenderConnection) kickstart(
 	hash *common.Sha1Hash,
 	size int64,
+	onEnd func(),
 ) error {
+	sc.lock.Lock()
+	defer sc.lock.Unlock()
+	if sc.ended {
+		return fmt.Errorf("upload to %v was replaced by a later one", sc.addr)
+	}
 	sc.reader.Reset()
 
 	firstPacket := messages.DataPacket{
@@ -73,14 +85,21 @@ func (sc *SenderConnection) kickstart(
 	sc.windowSize++
 
 	go func() {
+		defer onEnd()
+		idle := time.NewTimer(uploadIdleTime)
+		defer func() { idle.Stop() }()
 		for {
 			select {
 			case ack := <-sc.packetChan:
 				err := sc.kick(ack)
+				idle.Stop()
+				idle = time.NewTimer(uploadIdleTime)
 				if err != nil {
 					fmt.Printf("Upload to %v failed: %v\n", sc.addr, err)
 					sc.terminate()
 				}
+			case <-idle.C:
+				sc.terminate() // the receiver is gone
 			case <-sc.cancelChan:
 				return
 			}
@@ -90,7 +109,15 @@ func (sc *SenderConnection) kickstart(
 	return nil
 }
 
+// terminate makes sure that nothing more is sent
 func (sc *SenderConnection) terminate() {
+	sc.lock.Lock()
+	defer sc.lock.Unlock()
+	sc.end()
+}
+
+// end is terminate for callers that hold the lock
+func (sc *SenderConnection) end() {
 	if !sc.ended {
 		sc.ended = true
 		close(sc.cancelChan)
@@ -100,6 +127,8 @@ func (sc *SenderConnection) terminate() {
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
 // << 64 bits
 func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
+	sc.lock.Lock()
+	defer sc.lock.Unlock()
 	if sc.windowSize > 0 { // there may be more acks than packets: they can be duplicated
 		sc.windowSize--
 	}
@@ -112,7 +141,7 @@ func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
 		byteCount, offset, err := sc.reader.Read(packetBuffer)
 
 		if err == io.EOF && byteCount == 0 {
-			sc.terminate() // make this the last message
+			sc.end() // make this the last message
 		} else if err != nil && err != io.EOF {
 			return err
 		}
diff --git a/flu/server.go b/flu/server.go
index 8582be7..f7ff02c 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -33,9 +33,10 @@ type Server struct {
 	resMap     map[requestKey]chan messages.Message
 	resMapLock sync.Mutex
 
-	// transfer lock, downloads and uploads ensures safe access to the download and upload maps.
+	// transferLock and uploadsLock ensure safe access to the download and upload maps, respectively.
 	// These maps are used to keep track on ongoing transfers, irrespective of their state.
 	transferLock sync.Mutex
+	uploadsLock  sync.Mutex
 	downloads    map[downloadKey]struct{} // corresponds to a single chunk from a single host
 	uploads      map[uploadKey]*SenderConnection
 }
diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index 8a2a13f..ca078e9 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -22,7 +22,9 @@ func (s *Server) ContinueUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
+	s.uploadsLock.Lock()
 	sc, ok := s.uploads[key]
+	s.uploadsLock.Unlock()
 	if !ok {
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 2b2b013..6003aa7 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -24,6 +24,13 @@ func (s *Server) StartUpload(
 		return err
 	}
 
+	started := false
+	defer func() {
+		if !started {
+			reader.Close()
+		}
+	}()
+
 	if reader.Size > math.MaxUint32 {
 		err = fmt.Errorf("chunk size (%d) exceeds max 32-bit int (%d)", reader.Size, math.MaxInt32)
 		return err
@@ -39,9 +46,32 @@ func (s *Server) StartUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
-	if _, ok := s.uploads[key]; !ok {
-		s.uploads[key] = NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	sc := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	s.uploadsLock.Lock()
+	if previous, ok := s.uploads[key]; ok {
+		previous.terminate() // the peer asks for something else now
+	}
+	s.uploads[key] = sc
+	s.uploadsLock.Unlock()
+
+	onEnd := func() {
+		reader.Close()
+		s.removeUpload(key, sc)
+	}
+	err = sc.kickstart(&reader.Hash, int64(reader.Size), onEnd)
+	if err != nil {
+		s.removeUpload(key, sc)
+		return err
 	}
+	started = true
+	return nil
+}
 
-	return s.uploads[key].kickstart(&reader.Hash, int64(reader.Size))
+// removeUpload removes the upload from the table, unless a later one has taken its place
+func (s *Server) removeUpload(key uploadKey, sc *SenderConnection) {
+	s.uploadsLock.Lock()
+	defer s.uploadsLock.Unlock()
+	if s.uploads[key] == sc {
+		delete(s.uploads, key)
+	}
 }
-- 
2.43.0


From ba82994e4cc6ef8a6103be2ff253a818c791f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 22/38] fix: a download kept its socket and reader goroutine,
 and held the transfer lock throughout

---
 flu/recvConnection.go      | 28 +++++++++++++++++++++++-----
 flu/serverStartDownload.go | 19 +++++++++++++------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 67e7f86..180be38 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -16,6 +16,23 @@ type RecvConnection struct {
 	buffer        []byte
 	windowCap     int
 	outChan       chan *messages.DataPacket
+	doneChan      chan struct{} // closed by Close
+}
+
+// Close releases what the connection uses. It must be called exactly once.
+func (r *RecvConnection) Close() {
+	close(r.doneChan)
+	r.conn.Close()
+}
+
+// deliver passes a packet (or nil, at the end) on to Read. It returns false if the connection was closed.
+func (r *RecvConnection) deliver(packet *messages.DataPacket) bool {
+	select {
+	case r.outChan <- packet:
+		return true
+	case <-r.doneChan:
+		return false
+	}
 }
 
 func (r *RecvConnection) Ack(offset uint32) {
@@ -46,6 +63,7 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		buffer:        nil,
 		windowCap:     1024,
 		outChan:       make(chan *messages.DataPacket, 10),
+		doneChan:      make(chan struct{}),
 	}
 
 	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
@@ -57,12 +75,12 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 			result.conn.SetReadDeadline(time.Now().Add(time.Second * 5))
 			n, _, err := result.conn.ReadFromUDP(buffer)
 			if err != nil {
-				result.conn.Close()
-				result.outChan <- nil
-				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
+				if result.deliver(nil) {
+					fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
+				}
 				break
-			} else {
-				result.outChan <- messages.ParseAsDataPacket(buffer[:n])
+			} else if packet := messages.ParseAsDataPacket(buffer[:n]); packet != nil {
+				result.deliver(packet)
 			}
 		}
 	}()
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 9851686..1e1c2c5 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -67,12 +67,13 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 				// start downloading from this host if not doing that already
 				s.transferLock.Lock()
-				if _, ok := s.downloads[key]; !ok {
+				_, ok := s.downloads[key]
+				s.downloads[key] = struct{}{}
+				s.transferLock.Unlock()
+				if !ok {
 					fmt.Printf("Getting chunk: %v\n", c.Start)
-					s.downloads[key] = struct{}{}
 					s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
 				}
-				s.transferLock.Unlock()
 			}
 		}
 		fmt.Println("Download complete")
@@ -99,10 +100,18 @@ func (s *Server) downloadMetaData(
 }
 
 func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Hash, chunk uint16) {
+	defer func() {
+		s.transferLock.Lock()
+		delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
+		s.transferLock.Unlock()
+	}()
+
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
-		panic(err) // TODO: log somewhere and move on...
+		fmt.Printf("Cannot reach %v:%d: %v\n", ip, port, err)
+		return
 	}
+	defer conn.Close()
 
 	start := time.Now()
 
@@ -144,8 +153,6 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		}
 		conn.Ack(packet.Offset)
 	}
-
-	delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
 }
 
 func (s *Server) getGoodHosts(
-- 
2.43.0


From 0e11fd425e51ad8f65ea35ebb373cf2a62eb6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:43 +0000
Subject: [PATCH 23/38] fix: a download saved chunks that did not match their
 hash, and unexpected packets or a full disk crashed the daemon

---
 catalogue/indexRecord.go   |  6 ++++++
 flu/serverStartDownload.go | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index fcc8bca..8a13aa0 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -50,6 +50,12 @@ func (ir *indexRecord) export() *IndexRecordExport {
 	}
 }
 
+// ChunkLength returns the number of bytes in the given chunk
+func (ire *IndexRecordExport) ChunkLength(chunk uint16) int64 {
+	ir := indexRecord{SizeInBytes: ire.SizeInBytes, ChunkSize: ire.ChunkSize}
+	return ir.chunkLength(int64(chunk))
+}
+
 // chunkLength returns the number of bytes in the given chunk: the last one may be short
 func (ir *indexRecord) chunkLength(chunk int64) int64 {
 	rest := ir.SizeInBytes - chunk*int64(ir.ChunkSize)
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 1e1c2c5..060bb05 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -106,6 +106,12 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		s.transferLock.Unlock()
 	}()
 
+	record, err := s.cat.Contains(sha1Hash)
+	if err != nil {
+		fmt.Println(err)
+		return
+	}
+
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
 		fmt.Printf("Cannot reach %v:%d: %v\n", ip, port, err)
@@ -124,10 +130,15 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
 			hash, size, data := packet.Split()
+			if hash == nil || conn.hash != nil || int64(size) != record.ChunkLength(chunk) {
+				continue // not the one we asked for, or a duplicate
+			}
 			conn.hash = hash
 			conn.buffer = make([]byte, size)
 			copy(conn.buffer, data) // start at zero offset
 			conn.bytesReceived += len(data)
+		} else if conn.hash == nil || int64(packet.Offset) > int64(len(conn.buffer)) {
+			continue // there is no place for this data
 		} else {
 			conn.bytesReceived += len(packet.Data)
 			if len(packet.Data) > 0 {
@@ -140,10 +151,12 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				if finalHash.Data != conn.hash.Data {
 					// TODO: Handle this a little more gracefully...
 					fmt.Println("Sha1 hashes did not match. Download was corrupted. Retrying.")
+					break
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
-					panic(err)
+					fmt.Printf("Cannot save chunk %d: %v\n", chunk, err)
+					break
 				}
 				downloadTime := float64(time.Since(start).Seconds())
 				speed := 4.0 / downloadTime
-- 
2.43.0


From 8da680220df70b2e887d45bbf80909087d567b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:44 +0000
Subject: [PATCH 24/38] fix: a download asked every host for the first missing
 chunk, whether the host had it or not

---
 flu/serverStartDownload.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 060bb05..f4c54b7 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -62,6 +62,12 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 			// we should really make a slice of host,chunk pairs.
 			for _, hostResponse := range goodHosts {
+				// ask each host only for a chunk it offers and that we still want
+				chunk := hostResponse.Chunks[0]
+				record, err := s.cat.Contains(hash)
+				if err != nil || chunk < c.Start || chunk > c.End || record.Progress.Get(uint64(chunk)) {
+					continue
+				}
 				ip, port := hostResponse.Address, hostResponse.Port
 				key := downloadKey{hash: *hash, remoteHost: hostResponse.Address}
 
@@ -71,8 +77,8 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				s.downloads[key] = struct{}{}
 				s.transferLock.Unlock()
 				if !ok {
-					fmt.Printf("Getting chunk: %v\n", c.Start)
-					s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
+					fmt.Printf("Getting chunk: %v\n", chunk)
+					s.downloadChunk(ip, port, hash, chunk) // TODO: make concurrent
 				}
 			}
 		}
@@ -173,7 +179,7 @@ func (s *Server) getGoodHosts(
 	chunks []uint16,
 	ownIP [4]byte,
 ) []*messages.DiscoverHostResponse {
-	resps := s.DiscoverHosts(hash, make([]uint16, 0))
+	resps := s.DiscoverHosts(hash, chunks)
 	result := make([]*messages.DiscoverHostResponse, 0, len(resps))
 	for i := 0; i < len(resps); i++ {
 		// skip hosts that know nothing about the file we want
-- 
2.43.0


From 9ade04b6c96735977cb6c8ee4aa25dca5fa5a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 25/38] fix: a host without a network address crashed

---
 flu/ipv4.go                | 5 ++++-
 flu/server.go              | 3 ++-
 flu/serverDiscoverHosts.go | 7 +++++--
 main.go                    | 2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/flu/ipv4.go b/flu/ipv4.go
index c3dfde8..b384176 100644
--- a/flu/ipv4.go
+++ b/flu/ipv4.go
@@ -8,8 +8,11 @@ import (
 type ipv4 [4]byte
 
 func newIpv4(netIP *net.IP) (ipv4, error) {
-	converted := netIP.To4()
 	result := [4]byte{}
+	if netIP == nil {
+		return result, fmt.Errorf("no IPV4 address available")
+	}
+	converted := netIP.To4()
 	if converted == nil {
 		return result, fmt.Errorf("provided IP address is not an IPV4 address")
 	}
diff --git a/flu/server.go b/flu/server.go
index f7ff02c..2ea9984 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -160,7 +160,8 @@ func (s *Server) HandleMessage(message []byte, conn *net.UDPConn, returnAddr *ne
 func (s *Server) LocalIP() *net.IP {
 	addrs, err := net.InterfaceAddrs()
 	if err != nil {
-		panic(err)
+		fmt.Println(err)
+		return nil
 	}
 
 	for _, a := range addrs {
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 9c47701..ce183bd 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -58,9 +58,12 @@ func (s *Server) RespondToDiscoverHosts(
 	req *messages.DiscoverHostRequest,
 	returnAddr *net.UDPAddr,
 ) error {
-	ip := s.LocalIP()
+	ip, err := newIpv4(s.LocalIP())
+	if err != nil {
+		return err
+	}
 	resp := messages.DiscoverHostResponse{
-		Address:   [4]byte{(*ip)[0], (*ip)[1], (*ip)[2], (*ip)[3]},
+		Address:   ip,
 		Port:      uint16(s.port),
 		RequestID: req.RequestID,
 		Chunks:    []uint16{},
diff --git a/main.go b/main.go
index 9da2737..3b3d767 100644
--- a/main.go
+++ b/main.go
@@ -85,7 +85,7 @@ func startDaemon() {
 		c1, err := net.ListenUDP("udp", &addr)
 		failHard(err)
 		defer c1.Close()
-		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP().String(), udpPort)
+		fmt.Printf("UDP Interface available at: %v:%d\n", fluServer.LocalIP(), udpPort)
 
 		for {
 			buffer := make([]byte, 1024)
-- 
2.43.0


From f882f791e09d5bc2820d9ddd3893ae653e7a62d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 26/38] fix: replies at the end of a discovery blocked the
 daemon for good

---
 flu/server.go              | 36 ++++++++++++++++++++++++++----------
 flu/serverDiscoverHosts.go |  7 ++++++-
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 2ea9984..103b124 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -30,7 +30,7 @@ type Server struct {
 	// resMap and resMapLock are responsible for mapping outgoing requests to incoming responses.
 	// They map an outgoing requestID and response type to an incoming message and deliver the
 	// response to the Message chan stored in the map.
-	resMap     map[requestKey]chan messages.Message
+	resMap     map[requestKey]*responseChan
 	resMapLock sync.Mutex
 
 	// transferLock and uploadsLock ensure safe access to the download and upload maps, respectively.
@@ -48,6 +48,12 @@ type requestKey struct {
 	messageType uint8
 }
 
+// responseChan takes responses to whoever waits for them, until it expires
+type responseChan struct {
+	messages chan messages.Message
+	expired  chan struct{} // closed once nobody waits any more
+}
+
 type downloadKey struct {
 	hash       common.Sha1Hash
 	remoteHost ipv4
@@ -65,7 +71,7 @@ func NewServer(port int, cat *catalogue.Cat) *Server {
 		cat:          cat,
 		reqID:        0,
 		reqIDLock:    sync.Mutex{},
-		resMap:       make(map[requestKey](chan messages.Message)),
+		resMap:       make(map[requestKey]*responseChan),
 		resMapLock:   sync.Mutex{},
 		transferLock: sync.Mutex{},
 		downloads:    make(map[downloadKey]struct{}),
@@ -81,19 +87,25 @@ func (s *Server) generateRequestID() uint16 {
 	return uint16(result)
 }
 
-func (s *Server) registerResponseChan(reqID uint16, msgType uint8) chan messages.Message {
+func (s *Server) registerResponseChan(reqID uint16, msgType uint8) *responseChan {
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
-	responseChan := make(chan messages.Message, 1)
-	s.resMap[key] = responseChan
-	return responseChan
+	result := &responseChan{
+		messages: make(chan messages.Message, 1),
+		expired:  make(chan struct{}),
+	}
+	s.resMap[key] = result
+	return result
 }
 
 func (s *Server) unregisterResponseChan(reqID uint16, msgType uint8) {
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
+	if responseChan, ok := s.resMap[key]; ok {
+		close(responseChan.expired)
+	}
 	delete(s.resMap, key)
 }
 
@@ -101,10 +113,14 @@ func (s *Server) unregisterResponseChan(reqID uint16, msgType uint8) {
 func (s *Server) deliverResponse(reqID uint16, msg messages.Message) error {
 	key := requestKey{reqID: reqID, messageType: msg.Type()}
 	s.resMapLock.Lock()
-	defer s.resMapLock.Unlock()
-	if responseChan, ok := s.resMap[key]; ok {
-		responseChan <- msg
-		return nil
+	responseChan, ok := s.resMap[key]
+	s.resMapLock.Unlock()
+	if ok {
+		select {
+		case responseChan.messages <- msg:
+			return nil
+		case <-responseChan.expired:
+		}
 	}
 	return fmt.Errorf("ResponseChan {%d:%d} expired", reqID, msg)
 }
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index ce183bd..bd4e0db 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -45,8 +45,13 @@ func (s *Server) DiscoverHosts(
 		case <-waitChan:
 			// if timed out, clean up
 			s.unregisterResponseChan(req.RequestID, req.ResponseType())
+			select {
+			case res := <-responseChan.messages: // this one made it just in time
+				result = append(result, *res.(*messages.DiscoverHostResponse))
+			default:
+			}
 			return result
-		case res := <-responseChan:
+		case res := <-responseChan.messages:
 			// else cast response into desired type
 			parsedResponse := res.(*messages.DiscoverHostResponse)
 			result = append(result, *parsedResponse)
-- 
2.43.0


From 5c5e5fdd098330312da16fc44920144c0acd3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 27/38] fix: a listing of an unknown file, or a socket that
 could not be opened, ended the daemon

---
 flu/server.go                | 7 -------
 flu/serverDiscoverHosts.go   | 7 ++++++-
 flu/serverListFilesOnHost.go | 9 +++++----
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 103b124..33ca049 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"sync"
 
@@ -191,9 +190,3 @@ func (s *Server) LocalIP() *net.IP {
 
 	return nil
 }
-
-func check(e error) {
-	if e != nil {
-		log.Fatal(e)
-	}
-}
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index bd4e0db..e2a81e5 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -1,6 +1,7 @@
 package flu
 
 import (
+	"fmt"
 	"net"
 	"time"
 
@@ -32,7 +33,11 @@ func (s *Server) DiscoverHosts(
 	}
 
 	conn, err := net.DialUDP("udp", nil, &broadcastAddress)
-	check(err)
+	if err != nil {
+		fmt.Println(err)
+		s.unregisterResponseChan(req.RequestID, req.ResponseType())
+		return nil
+	}
 	defer conn.Close()
 	conn.Write(req.Serialize())
 
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 8095805..de2602d 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"path"
 	"time"
@@ -23,7 +22,9 @@ func (s *Server) ListFilesOnHost(
 	req := messages.ListFilesRequest{RequestID: s.generateRequestID(), Sha1Hash: hash}
 	targetAddr := net.UDPAddr{IP: ipv4[:], Port: int(port)}
 	conn, err := net.DialUDP("udp", nil, &targetAddr)
-	check(err)
+	if err != nil {
+		return nil, err
+	}
 	defer conn.Close()
 
 	// setup response harness. Buffered so we don't deadlock
@@ -75,12 +76,12 @@ func (s *Server) RespondToListFilesOnHost(
 	if req.Sha1Hash.IsBlank() {
 		files, err = s.cat.ListFiles()
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 	} else {
 		file, err := s.cat.Contains(req.Sha1Hash)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		files = append(files, *file)
 	}
-- 
2.43.0


From 05a707fcdbb6e806283cf94962ecbc8ead8b0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:30 +0000
Subject: [PATCH 28/38] fix: remote listings over 1024 bytes failed, and
 datagrams were parsed with padding or matched to the wrong request

---
 flu/serverListFilesOnHost.go | 10 +++++-----
 main.go                      |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index de2602d..a0304a3 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -38,12 +38,12 @@ func (s *Server) ListFilesOnHost(
 			errorChan <- err
 		} else {
 			conn.Write(req.Serialize())
-			rawResponseBuffer := make([]byte, 1024)
-			_, err = conn.Read(rawResponseBuffer)
+			rawResponseBuffer := make([]byte, 65535) // listings can be long
+			n, err := conn.Read(rawResponseBuffer)
 			if err != nil {
 				errorChan <- err
 			} else {
-				responseChan <- rawResponseBuffer
+				responseChan <- rawResponseBuffer[:n]
 			}
 		}
 	}()
@@ -56,8 +56,8 @@ func (s *Server) ListFilesOnHost(
 			return nil, err
 		}
 		result, ok := parsedResponse.(*messages.ListFilesResponse)
-		if !ok {
-			return nil, fmt.Errorf("wrong response type received for ListFilesRequest: %v", result)
+		if !ok || result.RequestID != req.RequestID {
+			return nil, fmt.Errorf("wrong response received for ListFilesRequest: %v", parsedResponse)
 		}
 		return result, nil
 	case err = <-errorChan:
diff --git a/main.go b/main.go
index 3b3d767..585fc29 100644
--- a/main.go
+++ b/main.go
@@ -89,10 +89,10 @@ func startDaemon() {
 
 		for {
 			buffer := make([]byte, 1024)
-			_, returnAddress, err := c1.ReadFromUDP(buffer)
+			n, returnAddress, err := c1.ReadFromUDP(buffer)
 			failHard(err)
 			go func() {
-				err := fluServer.HandleMessage(buffer, c1, returnAddress)
+				err := fluServer.HandleMessage(buffer[:n], c1, returnAddress)
 				if err != nil {
 					fmt.Println(err)
 				}
-- 
2.43.0


From d13825069a0240f1b0a8eedb6da1d2491c8622bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 29/38] fix: an IPV6 address crashed the daemon, and an empty
 file, an odd reply or missing arguments the CLI

---
 cli/cliClient.go       | 10 ++--------
 cli/cliMethodsChims.go |  2 +-
 cli/cliMethodsList.go  |  4 ++++
 cli/cliMethodsShare.go |  6 +++++-
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 08f99eb..112e14a 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -32,7 +32,7 @@ func (c *Client) Run(cmdArgs []string) {
 	}
 
 	client, err := rpc.Dial("unix", c.sockaddr)
-	verify(err)
+	validate(err)
 
 	cmd := cmdArgs[0]
 	args := cmdArgs[1:]
@@ -98,9 +98,9 @@ func (c *Client) Run(cmdArgs []string) {
 			Sha1Hash: &common.Sha1Hash{},
 		}
 		res := GetResponse{}
+		validateArgCount("Get", GetRequest{}, args)
 		err := req.Sha1Hash.FromStringSafe(args[0])
 		validate(err)
-		validateArgCount("Clean", GetRequest{}, args)
 		callClientMethodAndPrintResponse(client, "Methods.Get", &req, &res)
 
 	// Chims lists available hosts on the LAN, including the local daemon. If gives hosts a few
@@ -150,12 +150,6 @@ func validate(err error) {
 	}
 }
 
-func verify(err error) {
-	if err != nil {
-		panic(err)
-	}
-}
-
 func prettyPrintError(err error) {
 	if err == nil {
 		panic("Cannot format a nil error")
diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 2499ee2..8b04cd3 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -28,7 +28,7 @@ func (c *ChimResponse) Sprintf() string {
 	var b strings.Builder
 	b.WriteString(fmt.Sprintf("IP: %d.%d.%d.%d:%d\n",
 		c.HostIP[0], c.HostIP[1], c.HostIP[2], c.HostIP[3], c.HostPort))
-	for i := 0; i < len(c.Chunks); i += 2 {
+	for i := 0; i+1 < len(c.Chunks); i += 2 {
 		b.WriteString(fmt.Sprintf("  %d:%d\n", c.Chunks[i], c.Chunks[i+1]))
 	}
 	return b.String()
diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 80c9e8a..3574efe 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"fmt"
 	"net"
 	"strings"
 
@@ -52,6 +53,9 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		}
 	} else {
 		addr := req.IP.To4()
+		if addr == nil {
+			return fmt.Errorf("not an IPV4 address: %v", req.IP)
+		}
 		ip := [4]byte{addr[0], addr[1], addr[2], addr[3]}
 		r, err := m.fluServer.ListFilesOnHost(ip, uint16(m.fluServer.Port()), req.Sha1Hash)
 		if err != nil {
diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index 9c7482f..f375f2e 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -27,6 +27,10 @@ type ListItem struct {
 // Sprintf returns a pretty-printed, user-facing string representation of a ListItem
 func (li *ListItem) Sprintf() string {
 	_, fileName := path.Split(li.FilePath)
+	integrity := 100 // an empty file has no chunks
+	if li.ChunkCount > 0 {
+		integrity = (li.ChunksDownloaded * 100 / li.ChunkCount * 100) / 100
+	}
 	output := []string{
 		fmt.Sprintf("%s\n", fileName),
 		fmt.Sprintf("	Path: %s\n", li.FilePath),
@@ -35,7 +39,7 @@ func (li *ListItem) Sprintf() string {
 		fmt.Sprintf("	Chunk Count: %d\n", li.ChunkCount),
 		fmt.Sprintf("	Chunks Downloaded: %d\n", li.ChunksDownloaded),
 		fmt.Sprintf("	Chunk Size: %d\n", li.ChunkSizeInBytes),
-		fmt.Sprintf("	Integrity: %d%%\n", (li.ChunksDownloaded*100/li.ChunkCount*100)/100),
+		fmt.Sprintf("	Integrity: %d%%\n", integrity),
 	}
 
 	var b strings.Builder
-- 
2.43.0


From d3506c4f409082dce6dca05fc8950afc58457c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:18 +0000
Subject: [PATCH 30/38] fix: a download without a network looped without pause

---
 flu/serverStartDownload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index f4c54b7..3d6e82e 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -59,6 +59,9 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 			}
 			c := wantedChunks[0]
 			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
+			if len(goodHosts) == 0 {
+				time.Sleep(time.Second) // without a network, discovery fails at once
+			}
 
 			// we should really make a slice of host,chunk pairs.
 			for _, hostResponse := range goodHosts {
-- 
2.43.0


From f93c836e724aa9b4fa1125a04a2e7d1197eeb37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:58 +0000
Subject: [PATCH 31/38] fix: a relative path to share was taken relative to the
 daemon's directory

---
 cli/cliClient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 112e14a..5a171be 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -5,6 +5,7 @@ import (
 	"net"
 	"net/rpc"
 	"os"
+	"path/filepath"
 	"reflect"
 
 	"github.com/flu-network/client/common"
@@ -45,7 +46,9 @@ func (c *Client) Run(cmdArgs []string) {
 	// 	- flu list ~/Desktop/path-to-file.mkv
 	case "share":
 		validateArgCount("Share", ShareRequest{}, args)
-		req := ShareRequest{Filepath: args[0]}
+		filePath, err := filepath.Abs(args[0]) // the daemon runs in another directory
+		validate(err)
+		req := ShareRequest{Filepath: filePath}
 		res := ListItem{}
 		callClientMethodAndPrintResponse(client, "Methods.Share", &req, &res)
 
-- 
2.43.0


From 97e8fd280cedb1c2f476e2663a965b692ceb4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:30 +0000
Subject: [PATCH 32/38] fix: a second daemon took the command socket from the
 first

---
 main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 585fc29..bcdc0df 100644
--- a/main.go
+++ b/main.go
@@ -47,6 +47,14 @@ func main() {
 func startDaemon() {
 	homeDir, err := os.UserHomeDir()
 	failHard(err)
+
+	// Only one daemon can have the port, so this comes before anything another daemon may be using
+	c1, err := net.ListenUDP("udp", &net.UDPAddr{IP: nil, Port: udpPort, Zone: ""})
+	if err != nil {
+		fmt.Printf("Cannot listen to peers (is a daemon running already?): %v\n", err)
+		os.Exit(2)
+	}
+
 	calatogueDir := path.Join(homeDir, catalogueDirSuffix)
 	downloadsDir := path.Join(homeDir, downloadsDirSuffix)
 
@@ -81,9 +89,6 @@ func startDaemon() {
 
 	// expose p2p interface (UDP)
 	go func() {
-		addr := net.UDPAddr{IP: nil, Port: udpPort, Zone: ""}
-		c1, err := net.ListenUDP("udp", &addr)
-		failHard(err)
 		defer c1.Close()
 		fmt.Printf("UDP Interface available at: %v:%d\n", fluServer.LocalIP(), udpPort)
 
-- 
2.43.0


From 308196819c41f27f0895cd0077e716dcc848ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:12 +0000
Subject: [PATCH 33/38] fix: Deserialize accepted bits set beyond the size of
 the bitset

---
 common/bitset/bitset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index a0028f8..17577ff 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -273,6 +273,10 @@ func Deserialize(data []byte) (*Bitset, error) {
 		setData[i] = binary.BigEndian.Uint64(data[byteIndex : byteIndex+8])
 	}
 
+	if used := size % wordSize; used != 0 && setData[len(setData)-1]>>used != 0 {
+		return nil, fmt.Errorf("bitset data has bits set beyond its size %d", size)
+	}
+
 	return &Bitset{
 		data: setData,
 		size: size,
-- 
2.43.0


From ff0afb98c85ac1f569b0f7d117f5a72ecfdd1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 34/38] fix: range queries wrapped around at chunk 65536

---
 common/bitset/bitset.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 17577ff..e5623d2 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -166,6 +166,7 @@ func (b *Bitset) Ranges() []uint16 {
 }
 
 func (b *Bitset) filledRanges(start, end int) []uint16 {
+	end = min(end, math.MaxUint16) // ranges cannot describe later bits
 	result := make([]uint16, 0, 2)
 	rStart, rEnd := start, start-1
 	for i := start; i <= end; i++ {
@@ -187,7 +188,7 @@ func (b *Bitset) filledRanges(start, end int) []uint16 {
 // UnfilledRanges returns a sorted, non-overlapping list of ranges of the underlying bitset that are
 // set to false.
 func (b *Bitset) UnfilledRanges() []common.Range {
-	start, end := 0, b.size
+	start, end := 0, min(b.size, math.MaxUint16+1) // ranges cannot describe later bits
 	result := make([]common.Range, 0, 1)
 	rStart, rEnd := start, start-1
 	for i := start; i < end; i++ {
@@ -212,7 +213,7 @@ func (b *Bitset) UnfilledRanges() []common.Range {
 func (b *Bitset) UnfilledItems(count int) []uint16 {
 	result := make([]uint16, 0, count)
 
-	for i := (uint64(0)); i < uint64(b.size) && len(result) < cap(result); i++ {
+	for i := (uint64(0)); i < uint64(min(b.size, math.MaxUint16+1)) && len(result) < cap(result); i++ {
 		if !b.Get(i) {
 			result = append(result, uint16(i))
 		}
-- 
2.43.0


From fe974c245a6cd39240ca3ff79b3607c6215ad52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:23 +0000
Subject: [PATCH 35/38] fix: a download asked for more packets at once than
 socket buffers hold, and never completed on a busy host

---
 flu/recvConnection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 180be38..546013c 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -9,6 +9,10 @@ import (
 	"github.com/flu-network/client/flu/messages"
 )
 
+// maxInFlight is how many packets a sender may have in flight to us. More would overflow socket buffers of
+// default size when either side is slow, and one lost packet costs the whole chunk.
+const maxInFlight = 32
+
 type RecvConnection struct {
 	conn          *net.UDPConn
 	hash          *common.Sha1Hash
@@ -61,12 +65,12 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		hash:          nil,
 		bytesReceived: 0,
 		buffer:        nil,
-		windowCap:     1024,
+		windowCap:     maxInFlight,
 		outChan:       make(chan *messages.DataPacket, 10),
 		doneChan:      make(chan struct{}),
 	}
 
-	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
+	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: maxInFlight}
 	result.conn.Write(kickstartMsg.Serialize())
 
 	go func() {
-- 
2.43.0


From 2ec41bfdbe6a009fb60d6c7fc115b3d48522d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:58 +0000
Subject: [PATCH 36/38] fix: a download ignored a peer that got the address the
 downloading host had before

---
 flu/serverStartDownload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 3d6e82e..b37d8ad 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -58,6 +58,9 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				return
 			}
 			c := wantedChunks[0]
+			if current, err := newIpv4(s.LocalIP()); err == nil {
+				ownIPV4 = current // it may have changed, and another host may have the old one
+			}
 			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
 			if len(goodHosts) == 0 {
 				time.Sleep(time.Second) // without a network, discovery fails at once
-- 
2.43.0


From 64957c197ffd889e0304f701c05e4d4ea4349466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:07 +0000
Subject: [PATCH 37/38] fix: a host with several addresses offered its peers
 one they could not reach

---
 flu/server.go              | 14 ++++++++++++++
 flu/serverDiscoverHosts.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/flu/server.go b/flu/server.go
index 33ca049..55ba6bd 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -190,3 +190,17 @@ func (s *Server) LocalIP() *net.IP {
 
 	return nil
 }
+
+// localIPTowards returns the IPV4 address at which the given peer can reach this host. A host can have several.
+func (s *Server) localIPTowards(peer net.IP) *net.IP {
+	sock, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: peer, Port: s.port})
+	if err != nil {
+		return s.LocalIP()
+	}
+	defer sock.Close()
+	result := sock.LocalAddr().(*net.UDPAddr).IP.To4()
+	if result == nil || result.IsLoopback() {
+		return s.LocalIP()
+	}
+	return &result
+}
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index e2a81e5..cb91484 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -68,7 +68,7 @@ func (s *Server) RespondToDiscoverHosts(
 	req *messages.DiscoverHostRequest,
 	returnAddr *net.UDPAddr,
 ) error {
-	ip, err := newIpv4(s.LocalIP())
+	ip, err := newIpv4(s.localIPTowards(returnAddr.IP))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 06a5ab8138bd56a491f488e23c5c427c9b7ea375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:42 +0000
Subject: [PATCH 38/38] fix: get asks the other hosts if the first does not
 describe the file

---
 flu/serverStartDownload.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index b37d8ad..98e7528 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -29,8 +29,13 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 	// if this download does not already exist, record it in the catalogue
 	if extantRecord == nil {
-		peer := goodHosts[0]
-		fileMeta, err := s.downloadMetaData(hash, peer.Address, peer.Port)
+		var fileMeta *messages.ListFilesEntry
+		for _, peer := range goodHosts {
+			fileMeta, err = s.downloadMetaData(hash, peer.Address, peer.Port)
+			if err == nil {
+				break // any host will do
+			}
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0

