From fec2cb7a87fe224ff187ffd8a3e6314143789d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 01/19] fix: LRUCache.Get reorders the list, take the exclusive
 lock and return a copy

Get moved the page to the front under the read lock, so two concurrent reads
corrupted the recency list, and handed out a pointer into the page that a later
Put overwrote without a lock.
---
 cache/LRU.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..8842da3 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,11 +26,13 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	//Get changes the recency order, so it needs the exclusive lock
+	l.Lock()
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
-		return &elem.Value.(*Page[T]).value, true
+		value := elem.Value.(*Page[T]).value
+		return &value, true
 	}
 	return nil, false
 }
-- 
2.43.0


From d69f95732c6820c5adb7bad43bfdedfceb75e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 02/19] fix: LRUCache with no capacity panicked on the first
 Put

---
 cache/LRU.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/LRU.go b/cache/LRU.go
index 8842da3..e298cbb 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -46,6 +46,10 @@ func (l *LRUCache[T]) Put(key string, value T) {
 		return
 	}
 
+	if l.capacity <= 0 {
+		return
+	}
+
 	if l.pages.Len() >= l.capacity {
 		delete(l.cache, l.pages.Back().Value.(*Page[T]).key)
 		l.pages.Remove(l.pages.Back())
-- 
2.43.0


From 51260de1a7f5f16c79e5e1fd0ce102cf8e944b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 03/19] fix: SyncMap never published a Put, and would have kept
 the old value

The writer was not started, so nothing put was ever visible and Put blocked for
ever once the channel was full; and on a tick it copied the old data over the
new values.
---
 cache/Map.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..5932a07 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -29,7 +29,7 @@ func NewSyncMap[T any]() *SyncMap[T] {
 		Ch:   make(chan TransferData[T], 1000),
 	}
 
-	//go i.writer()
+	go i.writer()
 	return i
 }
 
@@ -55,18 +55,18 @@ func (i *SyncMap[T]) writer() {
 
 			m.Lock()
 			bufferCopy := make(map[string]T, len(i.Data)+len(buffer))
-			for key, value := range buffer {
-				bufferCopy[key] = value
-			}
-			buffer = make(map[string]T)
-			m.Unlock()
-
 			i.RLock()
 			for key, value := range i.Data {
 				bufferCopy[key] = value
 			}
 			i.RUnlock()
 
+			for key, value := range buffer {
+				bufferCopy[key] = value
+			}
+			buffer = make(map[string]T)
+			m.Unlock()
+
 			i.Lock()
 			i.Data = bufferCopy
 			i.Unlock()
-- 
2.43.0


From 2026e9e9d9e776ce3a1aa2412f8c6136ae822a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 04/19] fix: equal searches could rank the same documents
 differently

Ties came out in map order and the per-field scores were added in the order the
goroutines finished, so the same query on the same index had several rankings.
---
 search/Standard.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/search/Standard.go b/search/Standard.go
index 16fc904..89905aa 100644
--- a/search/Standard.go
+++ b/search/Standard.go
@@ -20,12 +20,13 @@ func NewStandard(index index.Index) Search {
 
 func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 
-	scoresCh := make(chan []model.DocumentScore, len(query))
+	//One slot per query, so that the scores are always added in the same order
+	scores := make([][]model.DocumentScore, len(query))
 	var wg sync.WaitGroup
 	wg.Add(len(query))
 
-	for _, q := range query {
-		go func(terms []string, fieldName string, boost float64) {
+	for slot, q := range query {
+		go func(slot int, terms []string, fieldName string, boost float64) {
 			defer wg.Done()
 			r := s.Index.Search(terms, fieldName)
 			documentsScores := make([]model.DocumentScore, len(r.FieldDocuments))
@@ -38,17 +39,13 @@ func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 
 				i += 1
 			}
-			scoresCh <- documentsScores
-		}(q.Terms, q.FieldName, q.Boost)
+			scores[slot] = documentsScores
+		}(slot, q.Terms, q.FieldName, q.Boost)
 	}
-
-	go func() {
-		wg.Wait()
-		close(scoresCh)
-	}()
+	wg.Wait()
 
 	tempScores := make(map[string]float64)
-	for documentScores := range scoresCh {
+	for _, documentScores := range scores {
 		for _, document := range documentScores {
 			tempScores[document.Id] += document.Score
 		}
@@ -65,6 +62,9 @@ func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 	}
 
 	sort.Slice(documentsScores, func(i, j int) bool {
+		if documentsScores[i].Score == documentsScores[j].Score {
+			return documentsScores[i].Id < documentsScores[j].Id
+		}
 		return documentsScores[i].Score > documentsScores[j].Score
 	})
 
-- 
2.43.0


From e5ceeaa9a9c5cd1cd08bbe833358f0f61135d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 05/19] fix: GET /nir panicked when fewer than ten documents
 matched

---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index aded6c2..b15016a 100644
--- a/main.go
+++ b/main.go
@@ -192,6 +192,11 @@ func main() {
 			return
 		}
 
+		//At most the ten best documents
+		if len(rs) > 10 {
+			rs = rs[:10]
+		}
+
 		queryResults := make([]QueryResult, len(rs))
 		for i, score := range rs {
 			queryResults[i] = QueryResult{
@@ -204,10 +209,10 @@ func main() {
 
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          len(queryResults),
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults,
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From 917fb362f0e4be1721d4e83aa7a6c0b524e75298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 06/19] fix: data race on an unused request counter in GET /nir

---
 main.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/main.go b/main.go
index b15016a..37bd4da 100644
--- a/main.go
+++ b/main.go
@@ -46,8 +46,6 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
-
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
 
@@ -179,8 +177,6 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
-		//fmt.Println("Qid:", id, len(rs))
 		if len(rs) == 0 {
 			body := Result{
 				Duration:       duration.String(),
-- 
2.43.0


From 44e06b930facf19a51ef26fafb9b2184b6fcd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 07/19] fix: GetID returned a formatting error for an Id that
 is not a string

A numeric Id came out as %!s(float64=7) and a null Id as %!s(<nil>).
---
 field/FieldProcess.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..a755720 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -3,6 +3,7 @@ package field
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 )
 
 const ID = "Id"
@@ -17,12 +18,16 @@ func StringToObject(document string) map[string]interface{} {
 }
 
 func GetID(input map[string]interface{}) string {
-	for k, v := range input {
-		if k == ID {
-			return fmt.Sprintf("%s", v)
-		}
+	switch id := input[ID].(type) {
+	case nil:
+		return ""
+	case string:
+		return id
+	case float64:
+		return strconv.FormatFloat(id, 'f', -1, 64)
+	default:
+		return fmt.Sprint(id)
 	}
-	return ""
 }
 
 func Flatten(input map[string]interface{}) map[string]interface{} {
-- 
2.43.0


From f4a6adb95ea7e1a827674ffa3a1f7b7c72b4748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 08/19] fix: SecureSaveFile lost the file when the process died
 between its renames

The current file was moved away before the new one was moved in, so a crash in
between left neither under its name and the next start came up empty.
---
 file/File.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..ae8d6b1 100644
--- a/file/File.go
+++ b/file/File.go
@@ -136,31 +136,17 @@ func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
 	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
+	//The rename replaces the current file in one step: there is no moment without one
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
-	}
-
 	return nil
 }
-- 
2.43.0


From 1b4da2026bb96bc2d56e2825f7fe651a0617b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 09/19] fix: a half-written index fragment made every later
 start panic

A crash while a fragment was being written, or a merge at that moment, left the
reader with a truncated gzip stream.
---
 storage/DiskIO.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..bae6344 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -355,10 +355,15 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
 				file.CreteDirIfNotExist(path)
 
+				//The fragment is written beside the temp folder and moved in complete, because
+				//whatever is in the temp folder may be read by a merge at any moment
 				tempFile := uuid.New().String()
-				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+				partialPath := filepath.Join(d.RootFolder, fieldName, tempFile)
+				err := file.SaveFileOnDisk(partialPath, file.CompressData(buffer))
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				err = file.RenameFile(partialPath, filepath.Join(path, tempFile))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From d13828dd1dc7e2c74518bd33d5336f86cabdb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 10/19] fix: saving the document counts of a field dropped the
 terms already on disk

Each save wrote only the terms that changed since the last one over the whole
file, so after a restart every other term of the field counted zero documents.
---
 storage/DiskIO.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index bae6344..c21e378 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -24,19 +24,27 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
-		if !file.Exists(path) {
-			continue
-		}
-		buf, err := file.ReadFileOnDisk(path)
+		termSize, err := d.loadNumberFieldTerm(field)
 		if err != nil {
 			return nil, err
 		}
-		numberFieldTerm[field] = DeserializeNumberFieldTerm(file.DecompressData(buf))
+		numberFieldTerm[field] = termSize
 	}
 	return numberFieldTerm, nil
 }
 
+func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
+	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	if !file.Exists(path) {
+		return make(map[string]int), nil
+	}
+	buf, err := file.ReadFileOnDisk(path)
+	if err != nil {
+		return nil, err
+	}
+	return DeserializeNumberFieldTerm(file.DecompressData(buf)), nil
+}
+
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	fieldSize := make(map[string]int)
@@ -249,8 +257,17 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeNumberFieldTerm(termSize)
-				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
+				//The buffer only has the terms that changed since the last save
+				numberFieldTerm, err := d.loadNumberFieldTerm(fieldName)
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				for term, size := range termSize {
+					numberFieldTerm[term] = size
+				}
+
+				buf := SerializeNumberFieldTerm(numberFieldTerm)
+				err = file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From 881c62e74229ffb8217e292ed25956df00815581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 11/19] fix: updating one field of a document that left the
 cache erased its other fields

UpdateFieldDocument started from an empty document on a cache miss, and changed
the map of a cached one while it was being saved or read by another goroutine.
---
 storage/DiskStorage.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..1b8f13a 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -119,18 +119,10 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
-		if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id); ok {
-			fieldDocument := *fieldDocumentPtr
+		if fieldDocument, ok := d.loadFieldDocument(id); ok {
 			if field, ok := fieldDocument[fieldName]; ok {
 				fields[id] = field
 			}
-		} else {
-			if fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(id); ok {
-				if field, ok := fieldDocument[fieldName]; ok {
-					fields[id] = field
-				}
-				d.fieldDocumentCache.Put(id, fieldDocument)
-			}
 		}
 	}
 
@@ -138,6 +130,17 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 
 }
 
+func (d *Disk) loadFieldDocument(documentId string) (map[string]model.Field, bool) {
+	if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
+		return *fieldDocumentPtr, true
+	}
+	fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(documentId)
+	if ok {
+		d.fieldDocumentCache.Put(documentId, fieldDocument)
+	}
+	return fieldDocument, ok
+}
+
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
@@ -170,12 +173,11 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
-	var fieldIndex map[string]model.Field
-
-	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
-	} else {
-		fieldIndex = make(map[string]model.Field)
+	//The old map may be in use by a reader or by the goroutine that saves it
+	oldFieldIndex, _ := d.loadFieldDocument(documentId)
+	fieldIndex := make(map[string]model.Field, len(oldFieldIndex)+1)
+	for name, oldField := range oldFieldIndex {
+		fieldIndex[name] = oldField
 	}
 
 	fieldIndex[field.Name] = field
-- 
2.43.0


From 3d38d796335038849cb82b552f7e4611587e4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 12/19] fix: a document evicted from the cache before it was
 saved could not be read

It was only in the buffer of the saving goroutine: reads missed it, or cached
the older version from disk and went on returning that one.
---
 storage/DiskIO.go      | 59 ++++++++++++++++++++++--------------------
 storage/DiskStorage.go | 12 ++-------
 2 files changed, 33 insertions(+), 38 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index c21e378..3d9ec37 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -13,11 +13,16 @@ import (
 
 type DiskIO struct {
 	RootFolder string
+	//Documents that are not on disk yet
+	fieldDocument *BufferFieldDocument
 }
 
 func NewDiskIO(rootFolder string) DiskIO {
 	file.CreteDirIfNotExist(rootFolder)
-	return DiskIO{rootFolder}
+	return DiskIO{
+		RootFolder:    rootFolder,
+		fieldDocument: &BufferFieldDocument{data: make(map[string]map[string]model.Field)},
+	}
 }
 
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
@@ -68,6 +73,13 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 }
 
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
+	d.fieldDocument.Lock()
+	fieldDocument, ok := d.fieldDocument.data[documentId]
+	d.fieldDocument.Unlock()
+	if ok {
+		return fieldDocument, true
+	}
+
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
@@ -173,11 +185,6 @@ type NumberFieldTermTransferData struct {
 	//TermSize  map[string]int
 }
 
-type DocumentFieldTransferData struct {
-	DocumentId string
-	Field      map[string]model.Field
-}
-
 type BufferFieldDocument struct {
 	sync.Mutex
 	data map[string]map[string]model.Field
@@ -194,36 +201,32 @@ type bufferFieldLengthSize struct {
 	Size   map[string]int
 }
 
-func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
+// BufferDocument leaves the document to be saved on disk, and readable until it is.
+func (d *DiskIO) BufferDocument(documentId string, fieldDocument map[string]model.Field) {
+	d.fieldDocument.Lock()
+	defer d.fieldDocument.Unlock()
+	d.fieldDocument.data[documentId] = fieldDocument
+}
 
-	localBuffer := BufferFieldDocument{
-		data: make(map[string]map[string]model.Field),
-	}
+func (d *DiskIO) SaveDocumentFieldOnDisk() {
 
 	ticker := time.NewTicker(10 * time.Second)
 	defer ticker.Stop()
 
-	for {
-		select {
-		case fieldDocument := <-data:
-			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
-			localBuffer.Unlock()
-		case <-ticker.C:
-			localBuffer.Lock()
-			for documentId, fieldMap := range localBuffer.data {
-				path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
-				file.CreteDirIfNotExist(path)
+	for range ticker.C {
+		d.fieldDocument.Lock()
+		for documentId, fieldMap := range d.fieldDocument.data {
+			path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
+			file.CreteDirIfNotExist(path)
 
-				buf := SerializeFieldMap(fieldMap)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
-				if err != nil {
-					log.Fatalf(err.Error())
-				}
-				delete(localBuffer.data, documentId)
+			buf := SerializeFieldMap(fieldMap)
+			err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+			if err != nil {
+				log.Fatalf(err.Error())
 			}
-			localBuffer.Unlock()
+			delete(d.fieldDocument.data, documentId)
 		}
+		d.fieldDocument.Unlock()
 	}
 }
 
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 1b8f13a..482fbb0 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -12,7 +12,6 @@ type Disk struct {
 	indexCh            chan IndexTransferData
 	fieldCh            chan FieldSizeLengthTransferData
 	numberFieldTermCh  chan NumberFieldTermTransferData
-	documentFieldCh    chan DocumentFieldTransferData
 	index              map[string]map[string]*model.Set
 	fieldLength        map[string]int
 	fieldSize          map[string]int
@@ -27,7 +26,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	indexCh := make(chan IndexTransferData, 100)
 	fieldCh := make(chan FieldSizeLengthTransferData)
 	numberFieldTermCh := make(chan NumberFieldTermTransferData)
-	documentFieldCh := make(chan DocumentFieldTransferData)
 
 	diskIO := NewDiskIO(rootFolder)
 
@@ -57,7 +55,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 		indexCh:            indexCh,
 		fieldCh:            fieldCh,
 		numberFieldTermCh:  numberFieldTermCh,
-		documentFieldCh:    documentFieldCh,
 		index:              index,
 		fieldLength:        fieldLength,
 		fieldSize:          fieldSize,
@@ -69,7 +66,7 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	go diskIO.SaveFieldSizeLengthOnDisc(fieldCh)
 	go diskIO.SaveIndexOnDisk(indexCh)
 	go diskIO.SaveNumberFieldTermOnDisk(numberFieldTermCh)
-	go diskIO.SaveDocumentFieldOnDisk(documentFieldCh)
+	go diskIO.SaveDocumentFieldOnDisk()
 
 	go func() {
 		//merge index fragments to index
@@ -182,12 +179,7 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
 	fieldIndex[field.Name] = field
 	d.fieldDocumentCache.Put(documentId, fieldIndex)
-
-	d.documentFieldCh <- DocumentFieldTransferData{
-		DocumentId: documentId,
-		Field:      fieldIndex,
-	}
-
+	d.diskIO.BufferDocument(documentId, fieldIndex)
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
-- 
2.43.0


From bfa536325f88872df6058c48b89765985d32858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 13/19] fix: concurrent use of a disk store crashed the process

Disk had a mutex that nothing took, so a search served while a document was being
indexed ended in a fatal concurrent map read and write; and GetDocuments and
GetIndex handed out the live maps.
---
 model/Set.go           |  8 +++++++
 storage/DiskStorage.go | 48 ++++++++++++++++++++++++++++++++----------
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/model/Set.go b/model/Set.go
index 2f0a176..4f6d499 100644
--- a/model/Set.go
+++ b/model/Set.go
@@ -14,6 +14,14 @@ func (s *Set) GetData() map[string]bool {
 	return s.data
 }
 
+func (s *Set) Clone() *Set {
+	clone := &Set{data: make(map[string]bool, len(s.data))}
+	for element := range s.data {
+		clone.data[element] = true
+	}
+	return clone
+}
+
 func (s *Set) Add(element string) {
 	s.data[element] = true
 }
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 482fbb0..0c90697 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -84,6 +84,8 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -92,28 +94,45 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
-	return d.index[fieldName]
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+	indexField, ok := d.index[fieldName]
+	if !ok {
+		return nil
+	}
+	temp := make(map[string]*model.Set, len(indexField))
+	for term, set := range indexField {
+		temp[term] = set.Clone()
+	}
+	return temp
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Clone(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model.Field {
-
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
 		if fieldDocument, ok := d.loadFieldDocument(id); ok {
@@ -138,7 +157,7 @@ func (d *Disk) loadFieldDocument(documentId string) (map[string]model.Field, boo
 	return fieldDocument, ok
 }
 
-func (d *Disk) UpdateFieldSizeLength(field model.Field) {
+func (d *Disk) updateFieldSizeLength(field model.Field) {
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
 
@@ -149,7 +168,7 @@ func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 	}
 }
 
-func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
+func (d *Disk) updateNumberFieldTerm(field model.Field) {
 	fieldTerm := d.numberFieldTerm[field.Name]
 	if fieldTerm == nil {
 		fieldTerm = make(map[string]int)
@@ -168,7 +187,7 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 }
 
-func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
+func (d *Disk) updateFieldDocument(documentId string, field model.Field) {
 
 	//The old map may be in use by a reader or by the goroutine that saves it
 	oldFieldIndex, _ := d.loadFieldDocument(documentId)
@@ -183,6 +202,12 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateIndex(documentId, field)
+}
+
+func (d *Disk) updateIndex(documentId string, field model.Field) {
 
 	indexField := d.index[field.Name]
 	if indexField == nil {
@@ -214,9 +239,10 @@ func (d *Disk) UpdateIndex(documentId string, field model.Field) {
 }
 
 func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
-
-	d.UpdateFieldSizeLength(field)
-	d.UpdateIndex(documentId, field)
-	d.UpdateNumberFieldTerm(field)
-	d.UpdateFieldDocument(documentId, field)
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateFieldSizeLength(field)
+	d.updateIndex(documentId, field)
+	d.updateNumberFieldTerm(field)
+	d.updateFieldDocument(documentId, field)
 }
-- 
2.43.0


From 903bc68cd0e7a951d1b1c13b081aa748825555b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 14/19] fix: document ids and field names were used as paths

An id with a slash killed the process when it was saved, or wrote outside the
storage folder; saving document x destroyed document x_temp; the field docs was
never loaded back. Ids and field names are escaped now; ordinary ones keep their
file names.
---
 file/File.go      |  6 ++++-
 file/Name.go      | 57 +++++++++++++++++++++++++++++++++++++++++++++++
 storage/DiskIO.go | 36 ++++++++++++++++++------------
 3 files changed, 84 insertions(+), 15 deletions(-)
 create mode 100644 file/Name.go

diff --git a/file/File.go b/file/File.go
index ae8d6b1..1074903 100644
--- a/file/File.go
+++ b/file/File.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/gzip"
 	"fmt"
+	"github.com/google/uuid"
 	"io"
 	"log"
 	"os"
@@ -135,16 +136,19 @@ func ListDirectories(path string) []string {
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
+	//A name of its own, that neither another save nor an escaped name can have
+	tempPath := filepath.Join(path, fileName+"%temp-"+uuid.New().String())
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
+		_ = Delete(tempPath)
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
 	//The rename replaces the current file in one step: there is no moment without one
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
+		_ = Delete(tempPath)
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
diff --git a/file/Name.go b/file/Name.go
new file mode 100644
index 0000000..f738743
--- /dev/null
+++ b/file/Name.go
@@ -0,0 +1,57 @@
+package file
+
+import (
+	"crypto/sha256"
+	"encoding/hex"
+	"fmt"
+	"net/url"
+	"strings"
+)
+
+// Longer names are cut by ShortName to leave room for a suffix below the 255 bytes of most file systems
+const maxNameLength = 200
+
+// EscapeName turns any text into the name of a file or folder: two texts never share a name,
+// and no name leads out of its folder. Names without special characters stay as they are.
+func EscapeName(name string) string {
+	switch name {
+	case "":
+		return "%"
+	case Documents:
+		//A field may not take the folder of the documents
+		return "%64ocs"
+	}
+
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c == '/' || c == '%' || c == 0 || (c == '.' && i == 0) {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
+// UnescapeName gives back the text that EscapeName was given.
+func UnescapeName(name string) string {
+	if name == "%" {
+		return ""
+	}
+	text, err := url.PathUnescape(name)
+	if err != nil {
+		return name
+	}
+	return text
+}
+
+// ShortName is EscapeName for names that never have to be turned back into the text.
+func ShortName(name string) string {
+	escaped := EscapeName(name)
+	if len(escaped) <= maxNameLength {
+		return escaped
+	}
+	sum := sha256.Sum256([]byte(name))
+	return escaped[:100] + "%-" + hex.EncodeToString(sum[:])
+}
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 3d9ec37..8dfee75 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -25,8 +25,16 @@ func NewDiskIO(rootFolder string) DiskIO {
 	}
 }
 
+func (d *DiskIO) listFields() []string {
+	var fields []string
+	for _, directory := range file.ListDirectories(d.RootFolder) {
+		fields = append(fields, file.UnescapeName(directory))
+	}
+	return fields
+}
+
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
 		termSize, err := d.loadNumberFieldTerm(field)
@@ -39,7 +47,7 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 }
 
 func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
-	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	path := filepath.Join(d.RootFolder, file.EscapeName(field), file.NumberFieldTerm)
 	if !file.Exists(path) {
 		return make(map[string]int), nil
 	}
@@ -51,11 +59,11 @@ func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
 }
 
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	fieldSize := make(map[string]int)
 	fieldLength := make(map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.MetricsFile)
+		path := filepath.Join(d.RootFolder, file.EscapeName(field), file.MetricsFile)
 		if !file.Exists(path) {
 			continue
 		}
@@ -80,7 +88,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 		return fieldDocument, true
 	}
 
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.ShortName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
 		return nil, false
@@ -90,7 +98,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
 	termDocuments := make(map[string]*model.Set)
-	path := filepath.Join(rootFolder, field, file.IndexFile)
+	path := filepath.Join(rootFolder, file.EscapeName(field), file.IndexFile)
 	if !file.Exists(path) {
 		return termDocuments, nil
 	}
@@ -110,11 +118,11 @@ func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*mo
 }
 
 func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
-	fields := file.ListDirectories(d.RootFolder)
+	fields := d.listFields()
 	index := make(map[string]map[string]*model.Set)
 
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.Temp)
+		path := filepath.Join(d.RootFolder, file.EscapeName(field), file.Temp)
 		file.CreteDirIfNotExist(path)
 		files := file.ListFiles(path)
 
@@ -150,7 +158,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 		}
 
 		buffer := SerializeIndex(tempTermDocuments)
-		indexPath := filepath.Join(d.RootFolder, field)
+		indexPath := filepath.Join(d.RootFolder, file.EscapeName(field))
 		file.CreteDirIfNotExist(indexPath)
 
 		err = file.SecureSaveFile(indexPath, file.IndexFile, file.CompressData(buffer))
@@ -220,7 +228,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk() {
 			file.CreteDirIfNotExist(path)
 
 			buf := SerializeFieldMap(fieldMap)
-			err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+			err := file.SecureSaveFile(path, file.ShortName(documentId), file.CompressData(buf))
 			if err != nil {
 				log.Fatalf(err.Error())
 			}
@@ -257,7 +265,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EscapeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				//The buffer only has the terms that changed since the last save
@@ -305,7 +313,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EscapeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
@@ -372,13 +380,13 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
+				path := filepath.Join(d.RootFolder, file.EscapeName(fieldName), file.Temp)
 				file.CreteDirIfNotExist(path)
 
 				//The fragment is written beside the temp folder and moved in complete, because
 				//whatever is in the temp folder may be read by a merge at any moment
 				tempFile := uuid.New().String()
-				partialPath := filepath.Join(d.RootFolder, fieldName, tempFile)
+				partialPath := filepath.Join(d.RootFolder, file.EscapeName(fieldName), tempFile)
 				err := file.SaveFileOnDisk(partialPath, file.CompressData(buffer))
 				if err != nil {
 					log.Fatalf(err.Error())
-- 
2.43.0


From e4586e6facc7f21f24896070911cc6d9e87c3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 15/19] fix: saving a field of a document again counted the
 document twice

SaveOrUpdate added to the size, length and term counts of the field as if the
document were new, and left it under the terms it no longer has.
---
 index/InvertedIndex.go | 13 ++++++++++
 storage/DiskStorage.go | 55 +++++++++++++++++++++++++++++++++++++-----
 storage/Memory.go      | 25 ++++++++++++++++---
 3 files changed, 84 insertions(+), 9 deletions(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index cf4c37d..7bf4995 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -92,6 +92,10 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 			semaphoreCh <- struct{}{} // acquire semaphore
 			fields := i.Storage.GetFields(documentsId, fieldName)
 			for documentId, field := range fields {
+				//The index on disk keeps the terms a document had before it was updated
+				if !hasAnyTerm(field, terms) {
+					continue
+				}
 				fieldCh <- map[string]model.Field{
 					documentId: field,
 				}
@@ -120,6 +124,15 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 	return result
 }
 
+func hasAnyTerm(field model.Field, terms []string) bool {
+	for _, term := range terms {
+		if _, ok := field.TF[term]; ok {
+			return true
+		}
+	}
+	return false
+}
+
 func (i *InvertedIndex) IndexDocument(documentId string, document model.NormalizedDocument) {
 
 	for _, field := range document.Fields {
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 0c90697..49fd28d 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -157,9 +157,15 @@ func (d *Disk) loadFieldDocument(documentId string) (map[string]model.Field, boo
 	return fieldDocument, ok
 }
 
-func (d *Disk) updateFieldSizeLength(field model.Field) {
-	d.fieldSize[field.Name] += 1
-	d.fieldLength[field.Name] += field.Length
+func (d *Disk) updateFieldSizeLength(field model.Field, old model.Field, replaces bool) {
+	//A crash can have saved the document without its field's size and length
+	if !replaces || d.fieldSize[field.Name] == 0 {
+		d.fieldSize[field.Name] += 1
+	}
+	if d.fieldLength[field.Name] < old.Length {
+		d.fieldLength[field.Name] = old.Length
+	}
+	d.fieldLength[field.Name] += field.Length - old.Length
 
 	d.fieldCh <- FieldSizeLengthTransferData{
 		FieldName: field.Name,
@@ -168,13 +174,16 @@ func (d *Disk) updateFieldSizeLength(field model.Field) {
 	}
 }
 
-func (d *Disk) updateNumberFieldTerm(field model.Field) {
+func (d *Disk) updateNumberFieldTerm(field model.Field, old model.Field) {
 	fieldTerm := d.numberFieldTerm[field.Name]
 	if fieldTerm == nil {
 		fieldTerm = make(map[string]int)
 	}
 
 	for term := range field.TF {
+		if _, ok := old.TF[term]; ok && fieldTerm[term] > 0 {
+			continue
+		}
 		fieldTerm[term] += 1
 		d.numberFieldTermCh <- NumberFieldTermTransferData{
 			FieldName: field.Name,
@@ -183,10 +192,38 @@ func (d *Disk) updateNumberFieldTerm(field model.Field) {
 		}
 	}
 
+	for term := range old.TF {
+		if _, ok := field.TF[term]; ok || fieldTerm[term] <= 0 {
+			continue
+		}
+		fieldTerm[term] -= 1
+		d.numberFieldTermCh <- NumberFieldTermTransferData{
+			FieldName: field.Name,
+			Term:      term,
+			Size:      fieldTerm[term],
+		}
+	}
+
 	d.numberFieldTerm[field.Name] = fieldTerm
 
 }
 
+// removeFromIndex only changes the index in memory: a posting that is on disk is there again
+// after a restart, and index.Search skips it.
+func (d *Disk) removeFromIndex(documentId string, field model.Field, old model.Field) {
+	for term := range old.TF {
+		if _, ok := field.TF[term]; ok {
+			continue
+		}
+		if set, ok := d.index[field.Name][term]; ok {
+			set.Remove(documentId)
+			if set.Size() == 0 {
+				delete(d.index[field.Name], term)
+			}
+		}
+	}
+}
+
 func (d *Disk) updateFieldDocument(documentId string, field model.Field) {
 
 	//The old map may be in use by a reader or by the goroutine that saves it
@@ -241,8 +278,14 @@ func (d *Disk) updateIndex(documentId string, field model.Field) {
 func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	d.updateFieldSizeLength(field)
+
+	//The new field replaces the one the document had
+	fieldDocument, _ := d.loadFieldDocument(documentId)
+	old, replaces := fieldDocument[field.Name]
+
+	d.updateFieldSizeLength(field, old, replaces)
 	d.updateIndex(documentId, field)
-	d.updateNumberFieldTerm(field)
+	d.removeFromIndex(documentId, field, old)
+	d.updateNumberFieldTerm(field, old)
 	d.updateFieldDocument(documentId, field)
 }
diff --git a/storage/Memory.go b/storage/Memory.go
index 3310ee5..3277314 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -13,9 +13,6 @@ type Memory struct {
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
-	m.FieldSize[field.Name] += 1
-	m.FieldLength[field.Name] += field.Length
-
 	indexField := m.Index[field.Name]
 
 	if indexField == nil {
@@ -94,8 +91,15 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	//The new field replaces the one the document had
+	if old, ok := m.FieldDocument[documentId][field.Name]; ok {
+		m.removeField(documentId, old)
+	}
+
 	m.createFieldDocument(documentId, field)
 
+	m.FieldSize[field.Name] += 1
+	m.FieldLength[field.Name] += field.Length
 	m.UpdateIndex(documentId, field)
 
 	//numérico de campos que possui o termo
@@ -111,6 +115,21 @@ func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
 
 }
 
+func (m *Memory) removeField(documentId string, field model.Field) {
+	m.FieldSize[field.Name] -= 1
+	m.FieldLength[field.Name] -= field.Length
+
+	for term := range field.TF {
+		m.NumberFieldTerm[field.Name][term] -= 1
+		if set, ok := m.Index[field.Name][term]; ok {
+			set.Remove(documentId)
+			if set.Size() == 0 {
+				delete(m.Index[field.Name], term)
+			}
+		}
+	}
+}
+
 func (m *Memory) createFieldDocument(documentId string, field model.Field) {
 	if fieldIndex, ok := m.FieldDocument[documentId]; ok {
 		fieldIndex[field.Name] = field
-- 
2.43.0


From 757731629086cb5759ae880aa3aeb870ec9ab1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 16/19] fix: search: read the field statistics after the
 documents, a search overlapping a field's first save scored NaN

---
 index/InvertedIndex.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index 7bf4995..5ab5afa 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -36,13 +36,6 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 
 	maxRoutines := runtime.NumCPU() * 2
 
-	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
-	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
-
-	result := model.SearchResult{
-		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
-	}
-
 	documentIdCh := make(chan string, len(terms))
 	semaphoreCh := make(chan struct{}, maxRoutines)
 
@@ -117,11 +110,16 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 		}
 	}
 
-	result.FieldDocuments = fieldDocuments
-	result.TotalDocuments = fieldSize
-	result.AvgDocLength = fieldLength / fieldSize
+	//Read after the documents, so that a document saved meanwhile is counted
+	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
+	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
 
-	return result
+	return model.SearchResult{
+		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
+		FieldDocuments:    fieldDocuments,
+		TotalDocuments:    fieldSize,
+		AvgDocLength:      fieldLength / fieldSize,
+	}
 }
 
 func hasAnyTerm(field model.Field, terms []string) bool {
-- 
2.43.0


From ed2c0b4323f0bf2d0b26efbd61daaf4be62e2433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 17/19] fix: Flatten left an empty key out of the path

---
 field/FieldProcess.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index a755720..de7eaa3 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -38,13 +38,10 @@ func Flatten(input map[string]interface{}) map[string]interface{} {
 
 func recFlatten(input map[string]interface{}, output map[string]interface{}, prefix string) {
 	for k, v := range input {
-		key := k
-		if prefix != "" {
-			key = prefix + "." + k
-		}
+		key := prefix + k
 		switch value := v.(type) {
 		case map[string]interface{}:
-			recFlatten(value, output, key)
+			recFlatten(value, output, key+".")
 		default:
 			output[key] = value
 		}
-- 
2.43.0


From 59ed18fb60d293b08908e04bd7ae6afd64a47232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 18/19] fix: a document that cannot be read is not taken for
 one that does not exist

---
 storage/DiskIO.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 8dfee75..a996913 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -89,9 +89,13 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 	}
 
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.ShortName(documentId))
+	if !file.Exists(path) {
+		return nil, false
+	}
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
-		return nil, false
+		//Not to be taken for a document that does not exist: an update would erase it
+		log.Fatalf(err.Error())
 	}
 	return DeserializeFieldMap(file.DecompressData(buf)), true
 }
-- 
2.43.0


From 7aa8a7cd3c575312a6aceee2b6333ba787c853f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 19/19] fix: merging goes on after a merge that failed

---
 storage/DiskStorage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 49fd28d..d30f2d2 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -74,7 +74,9 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 			time.Sleep(15 * time.Second)
 			_, err := diskIO.LoadIndexOnHD()
 			if err != nil {
-				return
+				//The fragments are still there, the next merge takes them
+				fmt.Println("Failed to merge documents:", err)
+				continue
 			}
 			fmt.Println("Merge documents")
 		}
-- 
2.43.0

