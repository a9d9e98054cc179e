From 936e98530ab47a023b963ee61da733887eba390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 01/66] fix: graceful.Recover must not re-panic while logging
 the recovered panic

---
 src/common/graceful/recover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graceful/recover.go b/src/common/graceful/recover.go
index 32cdec0..162595b 100644
--- a/src/common/graceful/recover.go
+++ b/src/common/graceful/recover.go
@@ -19,7 +19,7 @@ func Recover(fn ...func(msg string)) {
 }
 
 func PrintStacks(msg any) {
-	logger.Panicf("%s\n%s", msg, GetStacks())
+	logger.Errorf("%s\n%s", msg, GetStacks())
 }
 
 func GetStacks() string {
-- 
2.43.0


From f93b2756f31ebfbce7717412d80c678990edd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 02/66] fix: DoneGroup.WaitDone must not leave its goroutine
 blocked when nobody receives

---
 src/common/util/done_group.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index e9318c4..28e51b8 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -103,7 +103,6 @@ func (d *doneGroup) WaitDone() <-chan struct{} {
 		}()
 		defer close(ch)
 		d.Wait()
-		ch <- struct{}{}
 	}()
 	return ch
 }
-- 
2.43.0


From 5634505a86b5217c7e920efebca7c91a4dbbb42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 03/66] fix: DoneGroup.WaitUntilError must not lose an error
 delivered before the last Done

---
 src/common/util/done_group.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index 28e51b8..3793f29 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -118,7 +118,13 @@ func (d *doneGroup) Close() {
 func (d *doneGroup) WaitUntilError() error {
 	select {
 	case <-d.WaitDone():
-		return nil
+		// select picks randomly when both are ready, an error delivered before the last Done must not be lost
+		select {
+		case e := <-d.WaitError():
+			return e
+		default:
+			return nil
+		}
 	case e := <-d.WaitError():
 		return e
 	}
-- 
2.43.0


From 0a11aa2039f3084a0a740869fb119609f2b126a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 04/66] fix: DoneGroup.Done must deliver a worker's panic
 before it releases the waiter

---
 src/common/util/done_group.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index 3793f29..47aed5a 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -56,12 +56,12 @@ func (d *doneGroup) Done() {
 			d.Error(errors.New(fmt.Sprint(err)))
 		}
 	}()
-	d.WaitGroup.Done()
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine, before the waiter can be released
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		d.Error(errors.New(fmt.Sprint(err)))
 	}
+	d.WaitGroup.Done()
 }
 
 // Todo equals to wg.Add(1)
@@ -146,13 +146,13 @@ func (ldg *limitDoneGroup) Todo() {
 }
 
 func (ldg *limitDoneGroup) Done() {
-	ldg.DoneGroup.Done()
-	<-ldg.limitChan
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine, before the waiter can be released
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		ldg.Error(errors.New(fmt.Sprint(err)))
 	}
+	ldg.DoneGroup.Done()
+	<-ldg.limitChan
 }
 
 func (ldg *limitDoneGroup) Close() {
-- 
2.43.0


From 0bcd02cac0f11f0f22123373d3943bbfd7eb20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 05/66] fix: CombineEdges must not change the edges it was
 given

---
 src/common/hashslot/hash_slot.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/hashslot/hash_slot.go b/src/common/hashslot/hash_slot.go
index 89be98a..1812ec5 100644
--- a/src/common/hashslot/hash_slot.go
+++ b/src/common/hashslot/hash_slot.go
@@ -181,9 +181,16 @@ func IsValidEdge(edge *Edge, provider IEdgeProvider) bool {
 // CombineEdges combine dest to src.
 func CombineEdges(src EdgeList, dest EdgeList) EdgeList {
 	newEdges := make(EdgeList, 0, len(src)+len(dest))
-	src = append(src, dest...)
-	sort.Sort(src)
-	for _, edge := range src {
+	// work on copies, merging must not change the edges of the caller
+	all := make(EdgeList, 0, len(src)+len(dest))
+	for _, list := range []EdgeList{src, dest} {
+		for _, edge := range list {
+			cp := *edge
+			all = append(all, &cp)
+		}
+	}
+	sort.Sort(all)
+	for _, edge := range all {
 		if len(newEdges) <= 0 {
 			newEdges = append(newEdges, edge)
 			continue
-- 
2.43.0


From d295624c178a9c0b6717b799506b5d9e7c20ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 06/66] fix: IsValidEdge must accept a range its owner holds as
 touching edges

---
 src/common/hashslot/hash_slot.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/hashslot/hash_slot.go b/src/common/hashslot/hash_slot.go
index 1812ec5..ef9641d 100644
--- a/src/common/hashslot/hash_slot.go
+++ b/src/common/hashslot/hash_slot.go
@@ -172,10 +172,13 @@ func IsValidEdge(edge *Edge, provider IEdgeProvider) bool {
 	if !fully {
 		return false
 	}
-	if len(res) > 1 || len(res) == 0 {
-		return false
+	// the owner may hold it as several touching edges
+	for _, e := range res {
+		if e.Value != edge.Value {
+			return false
+		}
 	}
-	return res[0].Value == edge.Value
+	return len(res) > 0
 }
 
 // CombineEdges combine dest to src.
-- 
2.43.0


From 6966714646339f1d1c61b845507090a54cfd4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 07/66] fix: first and last version must follow the version
 number, not its text

---
 .../internal/usecase/logic/metadata_logic.go  | 30 ++++++++++++-------
 .../internal/usecase/repo/metadata_repo.go    | 20 ++++---------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index bdeec02..ed23f93 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	. "metaserver/internal/usecase"
+	"sort"
 
 	"github.com/google/uuid"
 	bolt "go.etcd.io/bbolt"
@@ -108,17 +109,11 @@ func GetExtra(id string, extra *msg.Extra) TxFunc {
 		if b == nil {
 			return ErrNotFound
 		}
-		extra.Total = b.Stats().KeyN
-		cur := b.Cursor()
-		// first key
-		k, _ := cur.First()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.FirstVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
-		}
-		// last key
-		k, _ = cur.Last()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.LastVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		numbers := VersionNumbers(b)
+		extra.Total = len(numbers)
+		if len(numbers) > 0 {
+			extra.FirstVersion = int(numbers[0])
+			extra.LastVersion = int(numbers[len(numbers)-1])
 		}
 		return nil
 	}
@@ -316,6 +311,19 @@ func GetVersionBucket(tx *bolt.Tx, name string) *bolt.Bucket {
 	return nil
 }
 
+// VersionNumbers version numbers in the version bucket, ascending. Keys sort as text and 10 sorts before 9.
+func VersionNumbers(b *bolt.Bucket) []uint64 {
+	var numbers []uint64
+	cur := b.Cursor()
+	for k, _ := cur.First(); k != nil; k, _ = cur.Next() {
+		if idx := bytes.LastIndexByte(k, Sep[0]); idx >= 0 {
+			numbers = append(numbers, util.ToUint64(string(k[idx+1:])))
+		}
+	}
+	sort.Slice(numbers, func(i, j int) bool { return numbers[i] < numbers[j] })
+	return numbers
+}
+
 func getVer(bucket *bolt.Bucket, id string, ver uint64, dest *msg.Version) error {
 	if bucket == nil {
 		return ErrNotFound
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2a23d7d..47ef7f1 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -184,15 +184,11 @@ func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
 	var fst uint64 = 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().First()
-			if k == nil || v == nil {
+			numbers := logic.VersionNumbers(buk)
+			if len(numbers) == 0 {
 				return usecase.ErrNotFound
 			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			fst = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			fst = numbers[0]
 		}
 		return nil
 	}); err != nil {
@@ -205,15 +201,11 @@ func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
 	var max uint64 = 1
 	if err := m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().Last()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
+			numbers := logic.VersionNumbers(buk)
+			if len(numbers) == 0 {
 				return usecase.ErrNotFound
 			}
-			max = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			max = numbers[len(numbers)-1]
 		}
 		return nil
 	}); err != nil {
-- 
2.43.0


From fc8fc09ddf25a363000976bb1cd4e7e336ea70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 08/66] fix: pages of versions must not overlap, skip gaps or
 depend on the cache

---
 .../internal/usecase/repo/metadata_repo.go    | 22 +++++--------------
 .../usecase/service/metadata_service.go       |  2 +-
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 47ef7f1..08e79ec 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -8,7 +8,6 @@ import (
 	"common/proto/msg"
 	"common/util"
 	"errors"
-	"fmt"
 	"io"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -229,32 +228,23 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	return data, nil
 }
 
+// ListVersions lists versions from the start-th to the end-th (both included and begin at 1) in order of version number
 func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg.Version, total int, err error) {
-	size := end - start + 1
-	lst, _, err = m.Cache.ListVersions(name, start, end)
-	if util.InstanceOf[PartlyMatchedErr](err) {
-		start = err.(PartlyMatchedErr).Last()
-	} else if err != nil {
-		return
-	}
 	err = m.MainDB.View(func(tx *bolt.Tx) error {
 		buk := logic.GetVersionBucket(tx, name)
 		if buk == nil {
 			return usecase.ErrNotFound
 		}
-		c := buk.Cursor()
-
-		min := util.StrToBytes(fmt.Sprint(name, logic.Sep, start))
-
-		for k, v := c.Seek(min); k != nil && len(lst) < size; k, v = c.Next() {
+		numbers := logic.VersionNumbers(buk)
+		// record total
+		total = len(numbers)
+		for i := start; i > 0 && i <= end && i <= total; i++ {
 			data := &msg.Version{}
-			if err := util.DecodeMsgp(data, v); err != nil {
+			if err := logic.GetVer(name, numbers[i-1], data)(tx); err != nil {
 				return err
 			}
 			lst = append(lst, data)
 		}
-		// record total
-		total = buk.Stats().KeyN
 		return nil
 	})
 	return
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 3435f96..9691405 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -172,7 +172,7 @@ func (m *MetadataService) ListVersions(name string, page int, size int) ([]*msg.
 	}
 	// start at 1
 	start := (page-1)*size + 1
-	return m.repo.ListVersions(name, start, start+size)
+	return m.repo.ListVersions(name, start, start+size-1)
 }
 
 func (m *MetadataService) ListMetadata(prefix string, size int) ([]*msg.Metadata, int, error) {
-- 
2.43.0


From fe56ab7a9dcf745683e9184794e8c89a85524946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 09/66] fix: the total of a listing by prefix must count every
 match, not one page

---
 .../internal/usecase/logic/bucket_logic.go       | 10 ++++++----
 .../internal/usecase/repo/metadata_repo.go       | 16 +++++++++-------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 2f14491..4251ad8 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -125,24 +125,26 @@ func (b *BucketCrud) List(prefix string, limit int, res *[]*msg.Bucket, total *i
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(prefixBt)
-			defer func() { *total = len(*res) }()
 		} else {
-			*total = root.Stats().KeyN
 			k, v = cur.First()
 		}
-		for k != nil && len(*res) < limit {
+		// go on after the page is full to count the total
+		for ; k != nil; k, v = cur.Next() {
 			if v == nil {
 				continue
 			}
 			if prefix != "" && !bytes.HasPrefix(k, prefixBt) {
 				break
 			}
+			*total++
+			if len(*res) >= limit {
+				continue
+			}
 			var i msg.Bucket
 			if err = util.DecodeMsgp(&i, v); err != nil {
 				return err
 			}
 			*res = append(*res, &i)
-			k, v = cur.Next()
 		}
 		return nil
 	}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 08e79ec..d43f816 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -260,21 +260,23 @@ func (m *MetadataRepo) ListMetadata(prefix string, size int) (lst []*msg.Metadat
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(util.StrToBytes(prefix))
-			defer func() { total = len(lst) }()
 		} else {
 			k, v = cur.First()
-			total = root.Stats().KeyN
 		}
-		for k != nil && len(lst) < size {
+		// go on after the page is full to count the total
+		for k != nil {
 			if prefix != "" && !strings.HasPrefix(util.BytesToStr(k), prefix) {
 				break
 			}
 			if len(v) > 0 {
-				var data msg.Metadata
-				if err := util.DecodeMsgp(&data, v); err != nil {
-					return err
+				total++
+				if len(lst) < size {
+					var data msg.Metadata
+					if err := util.DecodeMsgp(&data, v); err != nil {
+						return err
+					}
+					lst = append(lst, &data)
 				}
-				lst = append(lst, &data)
 			}
 			k, v = cur.Next()
 		}
-- 
2.43.0


From 0cbb7d131436454fa9ae57b2ecb9a1683f520556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 10/66] fix: a cached version must not be served as the
 metadata named like it

---
 .../internal/usecase/repo/metadata_cache_repo.go          | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 271d930..e9e4baa 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -32,6 +32,8 @@ func (pe *partlyErr) Error() string {
 
 const (
 	MetaCachePrefix = "metadata_"
+	// VersionCachePrefix differs from MetaCachePrefix because 'a.1' is a valid metadata name
+	VersionCachePrefix = "version_"
 )
 
 type MetadataCacheRepo struct {
@@ -58,7 +60,7 @@ func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
 }
 
 func (m *MetadataCacheRepo) GetVersion(s string, u uint64) (*msg.Version, error) {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, u)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, u)
 	if bt, ok := m.cache.HasGet(key); ok {
 		var en msg.Version
 		if err := util.DecodeMsgp(&en, bt); err != nil {
@@ -94,7 +96,7 @@ func (m *MetadataCacheRepo) AddMetadata(id string, metadata *msg.Metadata) error
 }
 
 func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, version.Sequence)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, version.Sequence)
 	bt, err := util.EncodeMsgp(version)
 	if err != nil {
 		return err
@@ -117,7 +119,7 @@ func (m *MetadataCacheRepo) RemoveMetadata(s string) error {
 }
 
 func (m *MetadataCacheRepo) RemoveVersion(s string, u uint64) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s, logic.Sep, u))
+	m.cache.Delete(fmt.Sprint(VersionCachePrefix, s, logic.Sep, u))
 	return nil
 }
 
-- 
2.43.0


From fe9dce451e00636f4733c7a3d7df71adb58edcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 11/66] fix: hash and unique-id index entries must go with
 their versions

---
 .../usecase/logic/hash_index_logic.go         |  3 +-
 .../internal/usecase/logic/metadata_logic.go  | 28 +++++++++++++++++--
 .../usecase/logic/unique_id_index_logic.go    |  3 +-
 .../internal/usecase/repo/batch_meta_repo.go  |  3 ++
 .../internal/usecase/repo/metadata_repo.go    |  3 ++
 5 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/hash_index_logic.go b/src/metaserver/internal/usecase/logic/hash_index_logic.go
index 1e3bd31..05521f9 100644
--- a/src/metaserver/internal/usecase/logic/hash_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/hash_index_logic.go
@@ -50,7 +50,8 @@ func (HashIndexLogic) GetIndex(hash string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := hashBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			// copy, k is only valid in this transaction
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index ed23f93..25c4174 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -66,6 +66,9 @@ func RemoveMeta(name string) TxFunc {
 		if err := root.Delete(key); err != nil {
 			return err
 		}
+		if err := RemoveVersionIndexes(tx, name); err != nil {
+			return err
+		}
 		err := RemoveVersionBucket(tx, name)
 		// ignore err of bucket not found
 		if err != nil && !errors.Is(err, bolt.ErrBucketNotFound) {
@@ -154,7 +157,7 @@ func AddVerWithSequence(name string, data *msg.Version) TxFunc {
 				return err
 			}
 			keyStr := util.BytesToStr(key)
-			if err = NewUniqueIdIndex().AddIndex(data.Hash, keyStr)(tx); err != nil {
+			if err = NewUniqueIdIndex().AddIndex(data.UniqueId, keyStr)(tx); err != nil {
 				return err
 			}
 			return NewHashIndexLogic().AddIndex(data.Hash, keyStr)(tx)
@@ -207,7 +210,7 @@ func RemoveVer(name string, ver uint64) TxFunc {
 		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove hash-index err: %w", err)
 		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, keyStr)(tx); err != nil {
 			return fmt.Errorf("remove uniqueId-index err: %w", err)
 		}
 		return b.Delete(key)
@@ -282,6 +285,27 @@ func CreateVersionBucket(tx *bolt.Tx, name string) error {
 	return nil
 }
 
+// RemoveVersionIndexes remove the index entries of all versions
+func RemoveVersionIndexes(tx *bolt.Tx, name string) error {
+	b := GetVersionBucket(tx, name)
+	if b == nil {
+		return nil
+	}
+	return b.ForEach(func(k, v []byte) error {
+		var data msg.Version
+		if err := util.DecodeMsgp(&data, v); err != nil {
+			return err
+		}
+		if err := NewHashIndexLogic().RemoveIndex(data.Hash, string(k))(tx); err != nil {
+			return fmt.Errorf("remove hash-index err: %w", err)
+		}
+		if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, string(k))(tx); err != nil {
+			return fmt.Errorf("remove uniqueId-index err: %w", err)
+		}
+		return nil
+	})
+}
+
 func RemoveVersionBucket(tx *bolt.Tx, name string) error {
 	return getVersionRoot(tx).DeleteBucket(util.StrToBytes(name))
 }
diff --git a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
index 726a54c..a222727 100644
--- a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
@@ -50,7 +50,8 @@ func (UniqueIdIndex) GetIndex(uniqueId string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := uniqueIdBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			// copy, k is only valid in this transaction
+			*res = append(*res, string(k))
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 6fc235b..fa7b183 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -66,6 +66,9 @@ func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
 	return br.Storage.Batch(func(tx *bolt.Tx) error {
+		if err := logic.RemoveVersionIndexes(tx, id); err != nil {
+			return err
+		}
 		// delete bucket
 		if err := logic.RemoveVersionBucket(tx, id); err != nil {
 			return err
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index d43f816..899e909 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -160,6 +160,9 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	last := m.GetLastVersionNumber(name)
 	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
+		if err := logic.RemoveVersionIndexes(tx, name); err != nil {
+			return err
+		}
 		// delete bucket
 		if err := logic.RemoveVersionBucket(tx, name); err != nil {
 			return err
-- 
2.43.0


From f6244e721c2185deba962c7ac23e2426684a59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 12/66] fix: moving a shard must change only that location of
 every live version and never panic

---
 .../internal/usecase/repo/metadata_repo.go     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 899e909..4172e2c 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -6,6 +6,7 @@ import (
 	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
+	"common/response"
 	"common/util"
 	"errors"
 	"io"
@@ -380,14 +381,25 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string)
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
-		var v msg.Version
 		for _, key := range keys {
+			var v msg.Version
 			idx := strings.LastIndexByte(key, '.')
 			metaId, sequence := key[:idx], util.ToUint64(key[idx+1:])
-			if err := logic.GetVer(metaId, sequence, &v)(tx); err != nil {
+			if err := logic.GetVer(metaId, sequence, &v)(tx); errors.Is(err, usecase.ErrNotFound) {
+				// the version is gone
+				continue
+			} else if err != nil {
 				return err
 			}
-			v.Ts = time.Now().UnixMilli()
+			if index < 0 || index >= len(v.Locate) {
+				return response.NewError(400, "locate index out of range")
+			}
+			// must be newer than the origin, even within one millisecond
+			if now := time.Now().UnixMilli(); now > v.Ts {
+				v.Ts = now
+			} else {
+				v.Ts++
+			}
 			v.Locate[index] = value
 			if err := logic.UpdateVer(metaId, &v)(tx); err != nil {
 				return err
-- 
2.43.0


From ef34cefb102de4be5c20ef88205871c96fd62e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 13/66] fix: encoded buckets must be copied out of the
 transaction that read them

---
 src/metaserver/internal/usecase/logic/bucket_logic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 4251ad8..7afa790 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -52,10 +52,12 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 		if err != nil {
 			return err
 		}
-		*bt = root.Get(util.StrToBytes(name))
-		if *bt == nil {
+		v := root.Get(util.StrToBytes(name))
+		if v == nil {
 			return usecase.ErrNotFound
 		}
+		// copy, v is only valid in this transaction
+		*bt = append([]byte{}, v...)
 		return nil
 	}
 }
-- 
2.43.0


From bbddc53416b890f7470be2b116910c529c9461b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 14/66] fix: a cached read must not show data older than an
 acknowledged write

---
 src/common/cache/cache.go                     |   7 ++
 src/common/cache/interface.go                 |   1 +
 src/metaserver/internal/usecase/db/storage.go |  29 +++++
 src/metaserver/internal/usecase/interfaces.go |   1 +
 .../internal/usecase/repo/bucket_repo.go      |  66 +++++------
 .../usecase/repo/metadata_cache_repo.go       |   5 +
 .../internal/usecase/repo/metadata_repo.go    | 103 ++++++++----------
 7 files changed, 115 insertions(+), 97 deletions(-)

diff --git a/src/common/cache/cache.go b/src/common/cache/cache.go
index eb04342..104e609 100644
--- a/src/common/cache/cache.go
+++ b/src/common/cache/cache.go
@@ -86,6 +86,13 @@ func (c *Cache) Delete(k string) {
 	_ = c.cache.Delete(k)
 }
 
+// Clear drops all entries
+func (c *Cache) Clear() {
+	if err := c.cache.Reset(); err != nil {
+		log.Println(err)
+	}
+}
+
 func (c *Cache) Close() error {
 	defer c.close()
 	// make it closing by GC
diff --git a/src/common/cache/interface.go b/src/common/cache/interface.go
index 58fcc36..20e143a 100644
--- a/src/common/cache/interface.go
+++ b/src/common/cache/interface.go
@@ -9,5 +9,6 @@ type ICache interface {
 	SetGob(k string, v interface{}) bool
 	Refresh(k string)
 	Delete(k string)
+	Clear()
 	Close() error
 }
diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index 6bddebe..cf58f46 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -10,6 +10,7 @@ import (
 	"metaserver/internal/usecase"
 	"os"
 	"path/filepath"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -24,6 +25,8 @@ type Storage struct {
 	originalPath string
 	current      atomic.Value
 	rdOnly       atomic.Value
+	cacheMu      sync.Mutex
+	generation   uint64
 }
 
 func NewStorage() *Storage {
@@ -56,6 +59,7 @@ func (s *Storage) Update(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
+	defer s.changed()
 	return s.DB().Update(fn)
 }
 
@@ -69,9 +73,33 @@ func (s *Storage) Batch(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
+	defer s.changed()
 	return s.DB().Batch(fn)
 }
 
+// Generation changes with every write. Read it before reading what should be cached.
+func (s *Storage) Generation() uint64 {
+	s.cacheMu.Lock()
+	defer s.cacheMu.Unlock()
+	return s.generation
+}
+
+// FillCache calls fn to cache what was read since gen unless something has been written in the meantime.
+// Those who write have to evict after the write.
+func (s *Storage) FillCache(gen uint64, fn func()) {
+	s.cacheMu.Lock()
+	defer s.cacheMu.Unlock()
+	if s.generation == gen {
+		fn()
+	}
+}
+
+func (s *Storage) changed() {
+	s.cacheMu.Lock()
+	defer s.cacheMu.Unlock()
+	s.generation++
+}
+
 func (s *Storage) Stop() error {
 	dbLog.Info("stop db...")
 	curDB := s.DB()
@@ -133,6 +161,7 @@ func (s *Storage) Replace(replacePath string) (err error) {
 	old := s.DB()
 	// change current db to new one
 	s.current.Store(newDB)
+	s.changed()
 	// close and remove old db file
 	go func() {
 		defer graceful.Recover()
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 1922298..5e53098 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -121,6 +121,7 @@ type (
 	IMetaCache interface {
 		ReadableRepo
 		WritableRepo
+		Clear()
 	}
 
 	BucketWritableRepo interface {
diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 22a8b3b..85e290f 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -1,7 +1,6 @@
 package repo
 
 import (
-	"common/graceful"
 	"common/proto/msg"
 	"common/util"
 	"errors"
@@ -28,67 +27,54 @@ func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
 	if data, err := b.cache.Get(name); err == nil {
 		return data, nil
 	}
+	gen := b.db.Generation()
 	res = new(msg.Bucket)
-	err = b.db.View(b.logic.Get(name, res))
-	go func() {
-		defer graceful.Recover()
-		if err == nil {
+	if err = b.db.View(b.logic.Get(name, res)); err == nil {
+		b.db.FillCache(gen, func() {
 			util.LogErrWithPre("bucket cache", b.cache.Create(res))
-		}
-	}()
+		})
+	}
 	return
 }
 
-func (b *BucketRepo) Create(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Create(bucket))
+func (b *BucketRepo) Create(bucket *msg.Bucket) error {
+	if err := b.db.Update(b.logic.Create(bucket)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Remove(bucket.Name))
+	return nil
 }
 
-func (b *BucketRepo) Remove(name string) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Remove(name))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Delete(name))
+func (b *BucketRepo) Remove(name string) error {
+	if err := b.db.Update(b.logic.Delete(name)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+	return nil
 }
 
-func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
-			}
-		}()
-	}()
-
-	return b.db.Update(b.logic.Update(bucket))
+func (b *BucketRepo) Update(bucket *msg.Bucket) error {
+	if err := b.db.Update(b.logic.Update(bucket)); err != nil {
+		return err
+	}
+	util.LogErrWithPre("bucket cache", b.cache.Remove(bucket.Name))
+	return nil
 }
 
 func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	var total int
 	list := make([]*msg.Bucket, 0, size)
+	gen := b.db.Generation()
 	err := b.db.View(b.logic.List(prefix, size, &list, &total))
 	// ignore not found err.
 	if errors.Is(err, usecase.ErrNotFound) {
 		err = nil
 	}
-	go func() {
-		defer graceful.Recover()
+	b.db.FillCache(gen, func() {
 		for _, item := range list {
 			util.LogErrWithPre("bucket cache", b.cache.Create(item))
 		}
-	}()
+	})
 	return list, total, err
 }
 
diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index e9e4baa..da91f13 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -130,3 +130,8 @@ func (m *MetadataCacheRepo) RemoveAllVersion(string) error {
 func (m *MetadataCacheRepo) AddVersionFromRaft(s string, version *msg.Version) error {
 	return m.AddVersion(s, version)
 }
+
+// Clear drops the whole cache, including entries of other repos sharing it
+func (m *MetadataCacheRepo) Clear() {
+	m.cache.Clear()
+}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 4172e2c..ad1b64a 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -3,7 +3,6 @@ package repo
 import (
 	"bytes"
 	"common/cst"
-	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
 	"common/response"
@@ -36,11 +35,7 @@ func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddMetadata(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(id))
 	return nil
 }
 
@@ -51,26 +46,24 @@ func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if err := m.MainDB.Update(logic.UpdateMeta(name, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateMetadata(name, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
 	return nil
 }
 
 func (m *MetadataRepo) RemoveMetadata(name string) error {
-	lastVer := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
+	var numbers []uint64
+	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
+		if buk := logic.GetVersionBucket(tx, name); buk != nil {
+			numbers = logic.VersionNumbers(buk)
+		}
+		return logic.RemoveMeta(name)(tx)
+	}); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
-		for i := uint64(1); i <= lastVer; i++ {
-			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
-		}
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
+	for _, i := range numbers {
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
+	}
 	return nil
 }
 
@@ -78,14 +71,14 @@ func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
 	if data, err := m.Cache.GetMetadata(id); err == nil {
 		return data, nil
 	}
+	gen := m.MainDB.Generation()
 	data := &msg.Metadata{}
 	if err := m.MainDB.View(logic.GetMeta(id, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
+	m.MainDB.FillCache(gen, func() {
 		util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
-	}()
+	})
 	return data, nil
 }
 
@@ -102,11 +95,7 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(id, data.Sequence))
 	return nil
 }
 
@@ -123,11 +112,7 @@ func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.AddVerWithSequence(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersionFromRaft(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(id, data.Sequence))
 	return nil
 }
 
@@ -138,11 +123,7 @@ func (m *MetadataRepo) UpdateVersion(id string, data *msg.Version) error {
 	if err := m.MainDB.Update(logic.UpdateVer(id, data)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(id, data.Sequence))
 	return nil
 }
 
@@ -150,17 +131,16 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.RemoveVersion(name, ver)
-		util.LogErrWithPre("metadata cache", err)
-	}()
+	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, ver))
 	return nil
 }
 
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
-	last := m.GetLastVersionNumber(name)
+	var numbers []uint64
 	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
+		if buk := logic.GetVersionBucket(tx, name); buk != nil {
+			numbers = logic.VersionNumbers(buk)
+		}
 		if err := logic.RemoveVersionIndexes(tx, name); err != nil {
 			return err
 		}
@@ -173,13 +153,9 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	}); err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		for i := uint64(0); i <= last; i++ {
-			err := m.Cache.RemoveVersion(name, i)
-			util.LogErrWithPre("remove version cache", err)
-		}
-	}()
+	for _, i := range numbers {
+		util.LogErrWithPre("remove version cache", m.Cache.RemoveVersion(name, i))
+	}
 	return nil
 }
 
@@ -221,14 +197,14 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	if data, err := m.Cache.GetVersion(name, ver); err == nil {
 		return data, nil
 	}
+	gen := m.MainDB.Generation()
 	data := &msg.Version{}
 	if err := m.MainDB.View(logic.GetVer(name, ver, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
+	m.MainDB.FillCache(gen, func() {
 		util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
-	}()
+	})
 	return data, nil
 }
 
@@ -312,7 +288,12 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 		return err
 	}
 	// reopen db
-	return m.MainDB.Replace(dbPath)
+	if err = m.MainDB.Replace(dbPath); err != nil {
+		return err
+	}
+	// everything cached belongs to the replaced db
+	m.Cache.Clear()
+	return nil
 }
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
@@ -376,8 +357,8 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		var keys []string
+	var keys []string
+	err := m.MainDB.Update(func(tx *bolt.Tx) error {
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
@@ -407,6 +388,14 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string)
 		}
 		return nil
 	})
+	if err != nil {
+		return err
+	}
+	for _, key := range keys {
+		idx := strings.LastIndexByte(key, '.')
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(key[:idx], util.ToUint64(key[idx+1:])))
+	}
+	return nil
 }
 
 func (m *MetadataRepo) ExistsByUniqueId(uniqueId string) (bool, error) {
-- 
2.43.0


From f87064ceef656d8037d0ae7e3fc68d3668ecfffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 15/66] fix: commands applied in a batch must evict what is
 cached like single ones

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 0b11cd0..1811b26 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -137,7 +137,6 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 			res[i] = err
 			continue
 		}
-		data.Batch = true
 		switch data.Dest {
 		case entity.DestMetadata:
 			res[i] = f.applyMetadata(&data)
-- 
2.43.0


From d46ceadb892a8fc92501ec91858e8981948adbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 16/66] fix: a malformed command must be answered with an error
 and not reuse the previous one

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 1811b26..64a317b 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -37,6 +37,9 @@ func NewFSM(m IMetadataRepo, mb IBatchMetaRepo, b BucketRepo, bb BatchBucketRepo
 }
 
 func (f *FSMImpl) applyBucket(data *entity.RaftData) *FSMResponse {
+	if data.Bucket == nil && data.Type != entity.LogRemove {
+		return FSMResult(ErrNilData)
+	}
 	repo := util.IfElse[BucketWritableRepo](data.Batch, f.bucketBatch, f.bucketRepo)
 	switch data.Type {
 	case entity.LogInsert:
@@ -65,6 +68,9 @@ func (f *FSMImpl) applyMetadata(data *entity.RaftData) *FSMResponse {
 }
 
 func (f *FSMImpl) applyVersion(data *entity.RaftData) *FSMResponse {
+	if data.Version == nil && data.Type != entity.LogRemove {
+		return FSMResult(ErrNilData)
+	}
 	repo := util.IfElse[WritableRepo](data.Batch, f.metaBatch, f.metaRepo)
 	switch data.Type {
 	case entity.LogMigrate:
@@ -121,10 +127,11 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 }
 
 func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
-	var data entity.RaftData
 	res := make([]any, len(lgs))
 
 	for i, lg := range lgs {
+		// do not decode over what the previous command left
+		var data entity.RaftData
 		if lg == nil || len(lg.Data) == 0 {
 			res[i] = FSMResult(ErrNilData)
 			continue
-- 
2.43.0


From 297567ac4676809dc8b940aac3967d0ae0db99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 17/66] fix: a restarted replica must not apply again what its
 store already contains

---
 src/metaserver/internal/usecase/interfaces.go |  1 +
 .../internal/usecase/raftimpl/fsm_impl.go     | 31 +++++++++++++++++++
 .../internal/usecase/raftimpl/raft_impl.go    | 11 +++++++
 .../internal/usecase/repo/metadata_repo.go    | 11 +++++++
 4 files changed, 54 insertions(+)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 5e53098..ee036b4 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -75,6 +75,7 @@ type (
 		Restore(io.Reader) error
 		LastAppliedIndex() (uint64, error)
 		ApplyIndex(i uint64) error
+		ResetAppliedIndex() error
 	}
 
 	RaftApply interface {
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 64a317b..cd425bc 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -107,6 +107,10 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 	if lg.Type != raft.LogCommand {
 		return fmt.Errorf("drop recieved fsmLog type %v", lg.Type)
 	}
+	if f.isApplied(lg.Index) {
+		return FSMResult(nil)
+	}
+	defer f.setApplied(lg.Index)
 
 	var data entity.RaftData
 	if err := util.DecodeMsgp(&data, lg.Data); err != nil {
@@ -140,6 +144,10 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 			res[i] = fmt.Errorf("drop recieved fsmLog type %v", lg.Type)
 			continue
 		}
+		if f.isApplied(lg.Index) {
+			res[i] = FSMResult(nil)
+			continue
+		}
 		if err := util.DecodeMsgp(&data, lg.Data); err != nil {
 			res[i] = err
 			continue
@@ -156,6 +164,7 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 		default:
 			res[i] = ErrUnknownRaftLog
 		}
+		f.setApplied(lg.Index)
 	}
 	//NOTICE: metaBatch Sync and bucketBatch Sync it's same for now.
 	if err := f.metaBatch.Sync(); err != nil {
@@ -169,6 +178,28 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 	return res
 }
 
+// isApplied tells if the store already contains the effect of a command. Raft replays the commands since
+// the last snapshot when it starts, applying them again would not lead to the same content.
+func (f *FSMImpl) isApplied(index uint64) bool {
+	last, err := f.snapshot.LastAppliedIndex()
+	if err != nil {
+		fsmLog.Errorf("get last applied index: %v", err)
+		return false
+	}
+	return index > 0 && index <= last
+}
+
+func (f *FSMImpl) setApplied(index uint64) {
+	if index > 0 {
+		util.LogErrWithPre("save last applied index", f.snapshot.ApplyIndex(index))
+	}
+}
+
+// ForgetApplied has to be called before the first command of a new log
+func (f *FSMImpl) ForgetApplied() error {
+	return f.snapshot.ResetAppliedIndex()
+}
+
 func (f *FSMImpl) Snapshot() (raft.FSMSnapshot, error) {
 	snap, err := f.snapshot.Snapshot()
 	if err != nil {
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 0f36234..937c799 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -53,6 +53,17 @@ func NewRaft(localAddr string, cfg config.ClusterConfig, fsm raft.FSM) *RaftWrap
 	})
 	ldb, sdb, fss, closeFn := newRaftStore(baseDir)
 
+	// a new log starts at index 1 again
+	exists, err := raft.HasExistingState(ldb, sdb, fss)
+	if err != nil {
+		panic(fmt.Errorf("raft.HasExistingState: %v", err))
+	}
+	if f, ok := fsm.(*FSMImpl); ok && !exists {
+		if err := f.ForgetApplied(); err != nil {
+			panic(fmt.Errorf("reset applied index: %v", err))
+		}
+	}
+
 	r, err := raft.NewRaft(c, fsm, ldb, sdb, fss, manager.Transport())
 	if err != nil {
 		panic(fmt.Errorf("raft.NewRaft: %v", err))
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index ad1b64a..20319a5 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -356,6 +356,17 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 	})
 }
 
+// ResetAppliedIndex forgets the index, commands of another log will be applied
+func (m *MetadataRepo) ResetAppliedIndex() error {
+	return m.MainDB.Update(func(tx *bolt.Tx) error {
+		specBuc, err := tx.CreateBucketIfNotExists(util.StrToBytes(lastAppliedIndexKey))
+		if err != nil {
+			return err
+		}
+		return specBuc.SetSequence(0)
+	})
+}
+
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
 	var keys []string
 	err := m.MainDB.Update(func(tx *bolt.Tx) error {
-- 
2.43.0


From 7fdce424bef164c95bebaddf9045070594a7c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 18/66] fix: a moved shard must be replicated like every other
 modification

---
 src/metaserver/internal/entity/raft_data.go        |  2 ++
 src/metaserver/internal/usecase/interfaces.go      |  2 +-
 .../internal/usecase/raftimpl/fsm_impl.go          | 14 ++++++++++++++
 .../internal/usecase/repo/metadata_repo.go         |  7 +++----
 .../internal/usecase/service/metadata_service.go   | 13 ++++++++++++-
 5 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/metaserver/internal/entity/raft_data.go b/src/metaserver/internal/entity/raft_data.go
index f5967ff..a8e6959 100644
--- a/src/metaserver/internal/entity/raft_data.go
+++ b/src/metaserver/internal/entity/raft_data.go
@@ -19,6 +19,8 @@ const (
 	DestVersionAll
 	DestMetadata
 	DestBucket
+	// DestLocate location number Sequence of all versions whose hash is Name
+	DestLocate
 )
 
 type RaftData struct {
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index ee036b4..0fe9ad9 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -85,7 +85,7 @@ type (
 	IMetadataRepo interface {
 		WritableRepo
 		ReadableRepo
-		UpdateLocateByHash(hash string, index int, value string) error
+		UpdateLocateByHash(hash string, index int, value string, ts int64) error
 		GetLastVersionNumber(id string) uint64
 		GetFirstVersionNumber(id string) uint64
 		ForeachVersionBytes(string, func([]byte) bool)
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index cd425bc..4e3afdc 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -100,6 +100,16 @@ func (f *FSMImpl) applyVersionAll(data *entity.RaftData) *FSMResponse {
 	}
 }
 
+func (f *FSMImpl) applyLocate(data *entity.RaftData) *FSMResponse {
+	if data.Type != entity.LogUpdate {
+		return FSMResult(ErrUnknownRaftLog)
+	}
+	if data.Version == nil || len(data.Version.Locate) != 1 {
+		return FSMResult(ErrNilData)
+	}
+	return FSMResult(f.metaRepo.UpdateLocateByHash(data.Name, int(data.Sequence), data.Version.Locate[0], data.Version.Ts))
+}
+
 func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 	if lg == nil || len(lg.Data) == 0 {
 		return FSMResult(ErrNilData)
@@ -126,6 +136,8 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 		return f.applyVersionAll(&data)
 	case entity.DestBucket:
 		return f.applyBucket(&data)
+	case entity.DestLocate:
+		return f.applyLocate(&data)
 	}
 	return ErrUnknownRaftLog
 }
@@ -161,6 +173,8 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 			res[i] = f.applyVersionAll(&data)
 		case entity.DestBucket:
 			res[i] = f.applyBucket(&data)
+		case entity.DestLocate:
+			res[i] = f.applyLocate(&data)
 		default:
 			res[i] = ErrUnknownRaftLog
 		}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 20319a5..8f931c5 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -14,7 +14,6 @@ import (
 	"metaserver/internal/usecase/logic"
 	"os"
 	"strings"
-	"time"
 
 	bolt "go.etcd.io/bbolt"
 )
@@ -367,7 +366,7 @@ func (m *MetadataRepo) ResetAppliedIndex() error {
 	})
 }
 
-func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
+func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string, ts int64) error {
 	var keys []string
 	err := m.MainDB.Update(func(tx *bolt.Tx) error {
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
@@ -387,8 +386,8 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string)
 				return response.NewError(400, "locate index out of range")
 			}
 			// must be newer than the origin, even within one millisecond
-			if now := time.Now().UnixMilli(); now > v.Ts {
-				v.Ts = now
+			if ts > v.Ts {
+				v.Ts = ts
 			} else {
 				v.Ts++
 			}
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 9691405..15e2a3a 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -229,5 +229,16 @@ func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error
 }
 
 func (m *MetadataService) UpdateLocates(hash string, index int, locate string) error {
-	return m.repo.UpdateLocateByHash(hash, index, locate)
+	ts := time.Now().UnixMilli()
+	if ok, _, err := m.ApplyRaft(&entity.RaftData{
+		Type:     entity.LogUpdate,
+		Dest:     entity.DestLocate,
+		Name:     hash,
+		Sequence: uint64(index),
+		Version:  &msg.Version{Locate: []string{locate}, Ts: ts},
+	}); ok {
+		return err
+	}
+
+	return m.repo.UpdateLocateByHash(hash, index, locate, ts)
 }
-- 
2.43.0


From 26f6a1725a3f8f718d9417b32863ece81e7d785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 19/66] fix: moving a shard to where it is must change nothing

---
 src/metaserver/internal/usecase/repo/metadata_repo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 8f931c5..35f2f46 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -385,6 +385,9 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string,
 			if index < 0 || index >= len(v.Locate) {
 				return response.NewError(400, "locate index out of range")
 			}
+			if v.Locate[index] == value {
+				continue
+			}
 			// must be newer than the origin, even within one millisecond
 			if ts > v.Ts {
 				v.Ts = ts
-- 
2.43.0


From 75160f5b80c0dd8579f0a0508489ca998108e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 20/66] fix: a store must survive any number of replacements
 and the stop after one

---
 src/metaserver/internal/usecase/db/storage.go        | 11 +++++++++++
 .../internal/usecase/repo/metadata_repo.go           | 12 +++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index cf58f46..a464b03 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -27,6 +27,8 @@ type Storage struct {
 	rdOnly       atomic.Value
 	cacheMu      sync.Mutex
 	generation   uint64
+	replaced     uint64
+	removing     sync.WaitGroup
 }
 
 func NewStorage() *Storage {
@@ -107,6 +109,8 @@ func (s *Storage) Stop() error {
 	if err := curDB.Close(); err != nil {
 		return err
 	}
+	// the replaced file may be the one at the original path
+	s.removing.Wait()
 	if curPath != s.originalPath {
 		dbLog.Infof("db file has been replaced, rename original '%s' to '%s'", s.originalPath, curPath)
 		return os.Rename(curPath, s.originalPath)
@@ -144,6 +148,11 @@ func (s *Storage) Open(path string) error {
 	return nil
 }
 
+// NextPath is a path for a db file to replace the current one. It is never used twice, a replaced file is removed late.
+func (s *Storage) NextPath() string {
+	return fmt.Sprintf("%s_replace%d", s.originalPath, atomic.AddUint64(&s.replaced, 1))
+}
+
 func (s *Storage) Replace(replacePath string) (err error) {
 	if !s.rdOnly.CompareAndSwap(false, true) {
 		return fmt.Errorf("replace failed: storage is in readonly mode")
@@ -163,8 +172,10 @@ func (s *Storage) Replace(replacePath string) (err error) {
 	s.current.Store(newDB)
 	s.changed()
 	// close and remove old db file
+	s.removing.Add(1)
 	go func() {
 		defer graceful.Recover()
+		defer s.removing.Done()
 		oldPath := old.Path()
 		util.LogErrWithPre("close old db", old.Close())
 		util.LogErrWithPre("remove old db file", os.RemoveAll(oldPath))
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 35f2f46..75a058b 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -269,20 +269,26 @@ func (m *MetadataRepo) Snapshot() (usecase.SnapshotTx, error) {
 }
 
 func (m *MetadataRepo) Restore(r io.Reader) (err error) {
-	dbPath := m.MainDB.DB().Path() + "_replace"
+	dbPath := m.MainDB.NextPath()
 	// open new db file
-	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, cst.OS.ModeUser)
 	if err != nil {
 		logs.Std().Errorf("restore fail on open new file: %v", err)
 		return err
 	}
+	defer func() {
+		if err != nil {
+			_ = newFile.Close()
+			util.LogErrWithPre("remove failed db file", os.Remove(dbPath))
+		}
+	}()
 	// save new db data
 	n, err := io.Copy(newFile, r)
 	if err != nil {
 		logs.Std().Errorf("restore fail on copy data to new file: %v, written %d", err, n)
 		return err
 	}
-	if err := newFile.Close(); err != nil {
+	if err = newFile.Close(); err != nil {
 		logs.Std().Errorf("close new db file err: %s", err)
 		return err
 	}
-- 
2.43.0


From e9554abae8081b608324372c7e2c557170a8de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 21/66] fix: a read must not fail because the store is replaced
 in the meantime

---
 src/metaserver/internal/usecase/db/storage.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index a464b03..d7f2352 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -48,7 +48,7 @@ func (s *Storage) View(fn usecase.TxFunc) error {
 			dbLog.Debugf("read-only tx spent %d ms\n%s", time.Since(start).Milliseconds(), graceful.GetLimitStacks(3, 3))
 		}()
 	}
-	return s.DB().View(fn)
+	return s.retryReplaced(func(db *bolt.DB) error { return db.View(fn) })
 }
 
 func (s *Storage) Update(fn usecase.TxFunc) error {
@@ -62,7 +62,7 @@ func (s *Storage) Update(fn usecase.TxFunc) error {
 		return usecase.ErrReadOnly
 	}
 	defer s.changed()
-	return s.DB().Update(fn)
+	return s.retryReplaced(func(db *bolt.DB) error { return db.Update(fn) })
 }
 
 func (s *Storage) Batch(fn usecase.TxFunc) error {
@@ -76,7 +76,17 @@ func (s *Storage) Batch(fn usecase.TxFunc) error {
 		return usecase.ErrReadOnly
 	}
 	defer s.changed()
-	return s.DB().Batch(fn)
+	return s.retryReplaced(func(db *bolt.DB) error { return db.Batch(fn) })
+}
+
+// retryReplaced runs fn on the current db, again if the db has been replaced and closed before the transaction began
+func (s *Storage) retryReplaced(fn func(*bolt.DB) error) error {
+	for {
+		db := s.DB()
+		if err := fn(db); err != bolt.ErrDatabaseNotOpen || db == s.DB() {
+			return err
+		}
+	}
 }
 
 // Generation changes with every write. Read it before reading what should be cached.
-- 
2.43.0


From 9f7dad13d550f3ab659faae4c12c05dda184103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 22/66] fix: a snapshot that could not be written must be
 reported to raft

---
 src/metaserver/internal/usecase/raftimpl/fsm_impl.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 4e3afdc..d41eba5 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -238,11 +238,16 @@ type snapshot struct {
 
 func (s *snapshot) Persist(sink raft.SnapshotSink) error {
 	gzipWt := gzip.NewWriter(sink)
-	if _, err := s.WriteTo(gzipWt); err != nil {
+	_, err := s.WriteTo(gzipWt)
+	if err == nil {
+		err = gzipWt.Close()
+	}
+	if err != nil {
+		// raft drops the log up to the snapshot unless it is told
 		fsmLog.Error(err)
-		return sink.Cancel()
+		util.LogErr(sink.Cancel())
+		return err
 	}
-	util.LogErr(gzipWt.Close())
 	return sink.Close()
 }
 
-- 
2.43.0


From ad880e8e615f74ed99dcfe39e0655ecb86336b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 23/66] fix: the state of a slot migration must change together
 with its peer and slots

GetMigrateTo/From could see the new state with the old peer and slots, or a
migration that started while another finished lost its own.
---
 .../internal/usecase/db/hashslot_db.go        | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index cb4eb7e..59ee630 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	clientv3 "go.etcd.io/etcd/client/v3"
@@ -44,7 +45,8 @@ type HashSlotDB struct {
 	kv             clientv3.KV
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
-	updatedAt      int64
+	updatedAt      *atomic.Int64
+	mu             sync.RWMutex // guards changes of status together with the migration they belong to
 	migratingSlots []string
 	migratingHost  string
 	KeyPrefix      string
@@ -58,6 +60,7 @@ func NewHashSlotDB(keyPrefix string, kv clientv3.KV) *HashSlotDB {
 		kv:        kv,
 		provider:  &atomic.Pointer[hashslot.IEdgeProvider]{},
 		status:    at,
+		updatedAt: &atomic.Int64{},
 	}
 }
 
@@ -66,15 +69,19 @@ func (h *HashSlotDB) IsNormal() bool {
 }
 
 func (h *HashSlotDB) GetMigrateTo() (bool, string, []string) {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
 	return h.status.Load() == StatusMigrateTo, h.migratingHost, h.migratingSlots
 }
 
 func (h *HashSlotDB) GetMigrateFrom() (bool, string, []string) {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
 	return h.status.Load() == StatusMigrateFrom, h.migratingHost, h.migratingSlots
 }
 
 func (h *HashSlotDB) IsExpired() bool {
-	return time.Now().Unix()-h.updatedAt > MaxExpireUnix
+	return time.Now().Unix()-h.updatedAt.Load() > MaxExpireUnix
 }
 
 // GetEdgeProvider identify is http-location of server
@@ -108,13 +115,15 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 		return fmt.Errorf("reloadProvider: %w", err)
 	}
 	if h.provider.CompareAndSwap(old, &data) {
-		h.updatedAt = time.Now().Unix()
-		hsLog.Infof("update hash-slots success at %d", h.updatedAt)
+		h.updatedAt.Store(time.Now().Unix())
+		hsLog.Infof("update hash-slots success at %d", h.updatedAt.Load())
 	}
 	return nil
 }
 
 func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateFrom) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -125,6 +134,8 @@ func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateTo) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -135,6 +146,8 @@ func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) FinishMigrateTo() error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateTo, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
@@ -145,6 +158,8 @@ func (h *HashSlotDB) FinishMigrateTo() error {
 }
 
 func (h *HashSlotDB) FinishMigrateFrom() error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateFrom, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
-- 
2.43.0


From e78877b06f1a0be0c4291f7b2610db575322dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 24/66] fix: a server must not go on with the slots it had
 before it published others

The cached slots stayed valid for up to five minutes, and the configuration
file got slots whose publication failed.
---
 .../internal/usecase/db/hashslot_db.go        | 28 ++++++++++++++++++-
 .../internal/usecase/logic/hashslot_logic.go  | 26 +++++++++++------
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index 59ee630..d3c2884 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -46,6 +46,7 @@ type HashSlotDB struct {
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
 	updatedAt      *atomic.Int64
+	changes        *atomic.Int64 // number of changes this server published, what was read before one is outdated
 	mu             sync.RWMutex // guards changes of status together with the migration they belong to
 	migratingSlots []string
 	migratingHost  string
@@ -61,6 +62,7 @@ func NewHashSlotDB(keyPrefix string, kv clientv3.KV) *HashSlotDB {
 		provider:  &atomic.Pointer[hashslot.IEdgeProvider]{},
 		status:    at,
 		updatedAt: &atomic.Int64{},
+		changes:   &atomic.Int64{},
 	}
 }
 
@@ -97,6 +99,7 @@ func (h *HashSlotDB) GetEdgeProvider(reload bool) (hashslot.IEdgeProvider, error
 
 func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 	slotsMap := make(map[string][]string)
+	changes := h.changes.Load()
 	// get slots data from etcd (only master saves into to etcd)
 	res, err := h.kv.Get(context.Background(), h.KeyPrefix, clientv3.WithPrefix())
 	if err != nil {
@@ -116,6 +119,9 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 	}
 	if h.provider.CompareAndSwap(old, &data) {
 		h.updatedAt.Store(time.Now().Unix())
+		if h.changes.Load() != changes {
+			h.updatedAt.Store(0)
+		}
 		hsLog.Infof("update hash-slots success at %d", h.updatedAt.Load())
 	}
 	return nil
@@ -190,22 +196,42 @@ func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
 	if h.status.Load() != StatusNormal {
 		return errors.New("status not in normal")
 	}
+	return h.put(id, info)
+}
+
+// SaveMigrated saves what changes by the running migration. Nobody else can save until it is finished.
+func (h *HashSlotDB) SaveMigrated(id string, info *hashslot.SlotInfo) error {
+	if status := h.status.Load(); status != StatusMigrateTo && status != StatusMigrateFrom {
+		return errors.New("status not in migration")
+	}
+	return h.put(id, info)
+}
+
+func (h *HashSlotDB) put(id string, info *hashslot.SlotInfo) error {
 	key := fmt.Sprint(h.KeyPrefix, id)
+	info.GroupID = id
 	bt, err := util.EncodeMsgp(info)
 	if err != nil {
 		return err
 	}
-	info.GroupID = id
+	defer h.expire()
 	// saving
 	_, err = h.kv.Put(context.Background(), key, string(bt))
 	return err
 }
 
+// expire makes the next one who needs the slots read them again
+func (h *HashSlotDB) expire() {
+	h.changes.Add(1)
+	h.updatedAt.Store(0)
+}
+
 func (h *HashSlotDB) Remove(id string) error {
 	if h.status.Load() != StatusNormal {
 		return errors.New("status not in normal")
 	}
 	key := fmt.Sprint(h.KeyPrefix, id)
+	defer h.expire()
 	_, err := h.kv.Delete(context.Background(), key)
 	if err != nil {
 		return err
diff --git a/src/metaserver/internal/usecase/logic/hashslot_logic.go b/src/metaserver/internal/usecase/logic/hashslot_logic.go
index 6e1260d..28fb184 100644
--- a/src/metaserver/internal/usecase/logic/hashslot_logic.go
+++ b/src/metaserver/internal/usecase/logic/hashslot_logic.go
@@ -25,16 +25,26 @@ func (HashSlot) GetSlotsProvider() (hashslot.IEdgeProvider, error) {
 }
 
 func (h HashSlot) SaveToEtcd(id string, info *hashslot.SlotInfo) error {
+	return h.save(id, info, pool.HashSlot.Save)
+}
+
+// SaveMigratedToEtcd saves the slots that change by the running migration
+func (h HashSlot) SaveMigratedToEtcd(id string, info *hashslot.SlotInfo) error {
+	return h.save(id, info, pool.HashSlot.SaveMigrated)
+}
+
+func (HashSlot) save(id string, info *hashslot.SlotInfo, publish func(string, *hashslot.SlotInfo) error) error {
 	info.GroupID = id
 	info.ServerID = pool.Config.Registry.SID()
-	go func() {
-		pool.Config.HashSlot.Slots = info.Slots
-		if err := pool.Config.Persist(); err != nil {
-			logs.Std().Errorf("persist config err: %s", err)
-			return
-		}
-	}()
-	return pool.HashSlot.Save(id, info)
+	if err := publish(id, info); err != nil {
+		return err
+	}
+	// the configuration follows what is published
+	pool.Config.HashSlot.Slots = info.Slots
+	if err := pool.Config.Persist(); err != nil {
+		logs.Std().Errorf("persist config err: %s", err)
+	}
+	return nil
 }
 
 func (HashSlot) RemoveFromEtcd(id string) error {
-- 
2.43.0


From 261f797a13bd23037a98fcc9cfb1b8b79485cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 25/66] fix: looking for records in a store that never had one
 must not panic

---
 .../internal/usecase/logic/metadata_logic.go         |  3 +++
 .../internal/usecase/repo/metadata_repo.go           | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 25c4174..973cd00 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -23,6 +23,9 @@ const (
 func ForeachKeys(fn func(string) bool) TxFunc {
 	return func(tx *bolt.Tx) error {
 		root := GetMetadataBucket(tx)
+		if root == nil {
+			return ErrNotFound
+		}
 		return root.ForEach(func(k, v []byte) error {
 			if !fn(string(k)) {
 				return ErrNotFound
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 75a058b..362ca04 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -303,7 +303,11 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 
 func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 	_ = m.MainDB.View(func(tx *bolt.Tx) error {
-		_ = logic.GetVersionBucket(tx, name).ForEach(func(k, v []byte) error {
+		buk := logic.GetVersionBucket(tx, name)
+		if buk == nil {
+			return nil
+		}
+		_ = buk.ForEach(func(k, v []byte) error {
 			if !fn(v) {
 				return usecase.ErrNotFound
 			}
@@ -316,7 +320,11 @@ func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 func (m *MetadataRepo) GetMetadataBytes(key string) ([]byte, error) {
 	var res []byte
 	err := m.MainDB.View(func(tx *bolt.Tx) error {
-		v := logic.GetMetadataBucket(tx).Get(util.StrToBytes(key))
+		root := logic.GetMetadataBucket(tx)
+		if root == nil {
+			return usecase.ErrNotFound
+		}
+		v := root.Get(util.StrToBytes(key))
 		if v == nil {
 			return usecase.ErrNotFound
 		}
-- 
2.43.0


From 586225dfb2c1189a9debedaf4ab1a6d983f05a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 26/66] fix: a slot migration must lose nothing when something
 fails

Records were removed while others were still being sent, and even if the target
never took the slots; what an earlier attempt left hid newer records; moved
records got new times; the target refused nothing; a timeout of an earlier
attempt cancelled the running one.
---
 src/metaserver/internal/usecase/interfaces.go |   2 +
 .../usecase/service/bucket_service.go         |   5 +
 .../usecase/service/hashslot_service.go       | 361 +++++++++++-------
 .../usecase/service/metadata_service.go       |   5 +
 4 files changed, 231 insertions(+), 142 deletions(-)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 0fe9ad9..f351e0e 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -23,6 +23,7 @@ type (
 	IMetadataService interface {
 		MetadataRpcService
 		ReceiveVersion(string, *msg.Version) error
+		ReceiveMetadata(string, *msg.Metadata) error
 		AddMetadata(string, *msg.Metadata) error
 		AddVersion(string, *msg.Version) (int, error)
 		UpdateMetadata(string, *msg.Metadata) error
@@ -146,5 +147,6 @@ type (
 
 	BucketService interface {
 		BucketRepo
+		Receive(bucket *msg.Bucket) error
 	}
 )
diff --git a/src/metaserver/internal/usecase/service/bucket_service.go b/src/metaserver/internal/usecase/service/bucket_service.go
index cf949ac..3505059 100644
--- a/src/metaserver/internal/usecase/service/bucket_service.go
+++ b/src/metaserver/internal/usecase/service/bucket_service.go
@@ -23,6 +23,11 @@ func (b *BucketService) Create(bucket *msg.Bucket) error {
 	}
 	bucket.CreateTime = time.Now().UnixMilli()
 	bucket.UpdateTime = bucket.CreateTime
+	return b.Receive(bucket)
+}
+
+// Receive creates the bucket as it is
+func (b *BucketService) Receive(bucket *msg.Bucket) error {
 	if ok, _, err := b.ApplyRaft(&entity.RaftData{
 		Type:   entity.LogInsert,
 		Dest:   entity.DestBucket,
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 9e39cd9..07b3366 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -1,7 +1,6 @@
 package service
 
 import (
-	"common/graceful"
 	"common/hashslot"
 	"common/logs"
 	"common/proto"
@@ -11,6 +10,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"io"
 	"metaserver/config"
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
@@ -18,6 +18,7 @@ import (
 	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/pool"
 	"net"
+	"sync"
 	"time"
 
 	"google.golang.org/grpc"
@@ -32,7 +33,8 @@ type HashSlotService struct {
 	Service       usecase.IMetadataService
 	BucketService usecase.BucketService
 	Cfg           *config.HashSlotConfig
-	startReceive  func()
+	mu            sync.Mutex
+	prepareTimer  *time.Timer // pending timeout of a migration which has been prepared but not started
 }
 
 func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucketService usecase.BucketService, cfg *config.HashSlotConfig) *HashSlotService {
@@ -41,7 +43,6 @@ func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucket
 		Service:       serv,
 		BucketService: bucketService,
 		Cfg:           cfg,
-		startReceive:  func() {},
 	}
 }
 
@@ -80,9 +81,9 @@ func (h *HashSlotService) GetCurrentSlots(reload bool) (map[string][]string, err
 	return res, nil
 }
 
-func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []string) error {
+func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []string) (err error) {
 	// validate slots
-	provider, err := h.Store.GetEdgeProvider(false)
+	provider, err := h.Store.GetEdgeProvider(true)
 	if err != nil {
 		return err
 	}
@@ -96,11 +97,21 @@ func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []strin
 			return fmt.Errorf("slot %s is not in this server", edge)
 		}
 	}
+	// change status to migrate-to
+	if err = h.Store.ReadyMigrateTo(loc.GetHost(), slots); err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			util.LogErr(h.Store.FinishMigrateTo())
+		}
+	}()
 	// send prepare rpc to target
 	cc, err := grpc.Dial(net.JoinHostPort(loc.GetHost(), loc.GetPort()), grpc.WithInsecure())
 	if err != nil {
 		return err
 	}
+	defer cc.Close()
 	client := pb.NewHashSlotClient(cc)
 	resp, err := client.PrepareMigration(context.Background(), &pb.PrepareReq{
 		Id: h.Cfg.StoreID,
@@ -116,14 +127,13 @@ func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []strin
 	if !resp.GetSuccess() {
 		return errors.New(resp.GetMessage())
 	}
-	// change status to migrate-to
-	return h.Store.ReadyMigrateTo(loc.GetHost(), slots)
+	return nil
 }
 
 // PrepareMigrationFrom Change into migrate-from. Status will change back if timeout
 func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []string) error {
 	// validate slots
-	provider, err := h.Store.GetEdgeProvider(false)
+	provider, err := h.Store.GetEdgeProvider(true)
 	if err != nil {
 		return err
 	}
@@ -131,33 +141,78 @@ func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []str
 	if err != nil {
 		return err
 	}
-	// ensure all slots is not in this server
-	for _, edge := range edges {
-		if hashslot.IsValidEdge(edge, provider) {
-			return fmt.Errorf("slot %s is currently in this server", edge)
+	// ensure none of the slots is in this server
+	for _, own := range hashslot.CopyOfEdges(pool.Config.Registry.SID(), provider) {
+		for _, edge := range edges {
+			if edge.Start < own.End && own.Start < edge.End {
+				return fmt.Errorf("slot %s is currently in this server", edge)
+			}
 		}
 	}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	// change status to migrate-from
 	if err = h.Store.ReadyMigrateFrom(loc.GetHost(), slots); err != nil {
 		return err
 	}
-	cancelCh := make(chan struct{})
-	h.startReceive = func() {
-		close(cancelCh)
-		h.startReceive = func() {}
-	}
-	go func() {
-		select {
-		case <-cancelCh:
-			logs.Std().Debug("migration-from timeout-ctx canceled")
-		case <-time.NewTicker(h.Cfg.PrepareTimeout).C:
-			_ = h.Store.FinishMigrateFrom()
-			logs.Std().Errorf("timeout migrating from %s", loc.GetHost())
+	// an attempt which failed left records that may be outdated now
+	if err = h.removeRecords(edges); err != nil {
+		util.LogErr(h.Store.FinishMigrateFrom())
+		return fmt.Errorf("remove outdated records: %w", err)
+	}
+	var timer *time.Timer
+	timer = time.AfterFunc(h.Cfg.PrepareTimeout, func() {
+		h.mu.Lock()
+		defer h.mu.Unlock()
+		if h.prepareTimer != timer {
+			return
 		}
-	}()
+		h.prepareTimer = nil
+		_ = h.Store.FinishMigrateFrom()
+		logs.Std().Errorf("timeout migrating from %s", loc.GetHost())
+	})
+	h.prepareTimer = timer
 	return nil
 }
 
+// startReceive stops the timeout of the prepared migration
+func (h *HashSlotService) startReceive() {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.prepareTimer != nil {
+		h.prepareTimer.Stop()
+		h.prepareTimer = nil
+		logs.Std().Debug("migration-from timeout-ctx canceled")
+	}
+}
+
+// removeRecords removes all records of slots that are not served by this server
+func (h *HashSlotService) removeRecords(edges hashslot.EdgeList) error {
+	metaKeys := h.filterMetadata(edges)
+	bucketKeys, err := h.filterBuckets(edges)
+	if err != nil {
+		return err
+	}
+	return h.removeKeys(metaKeys, bucketKeys)
+}
+
+func (h *HashSlotService) removeKeys(metaKeys, bucketKeys []string) error {
+	var errs []error
+	for _, key := range metaKeys {
+		if err := h.Service.RemoveMetadata(key); err != nil {
+			hsLog.Errorf("delete-metadata %s fail: %s", key, err)
+			errs = append(errs, err)
+		}
+	}
+	for _, key := range bucketKeys {
+		if err := h.BucketService.Remove(key); err != nil {
+			hsLog.Errorf("delete-bucket %s err: %s", key, err)
+			errs = append(errs, err)
+		}
+	}
+	return errors.Join(errs...)
+}
+
 func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	h.startReceive()
 	var (
@@ -168,13 +223,11 @@ func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	if ok, fromHost, newSlots = h.Store.GetMigrateFrom(); !ok {
 		return fmt.Errorf("get received slots fails: server is not in migrate-from")
 	}
-	if err := h.Store.FinishMigrateFrom(); err != nil {
-		util.LogErr(err)
-	}
+	defer func() { util.LogErr(h.Store.FinishMigrateFrom()) }()
 	if !success {
 		return nil
 	}
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	info, err := h.currentInfo()
 	if err != nil {
 		return fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
@@ -183,16 +236,38 @@ func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	newEdges, _ := hashslot.WrapSlotsToEdges(newSlots, "")
 	info.Slots = hashslot.CombineEdges(curEdges, newEdges).Strings()
 	// save new slot-info
-	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
+	if err = logic.NewHashSlot().SaveMigratedToEtcd(h.Cfg.StoreID, info); err != nil {
 		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
 	}
 	logs.Std().Debugf("finish migration from %s success", fromHost)
 	return nil
 }
 
+// currentInfo the published slots of this group, a group without any slot has none
+func (h *HashSlotService) currentInfo() (*hashslot.SlotInfo, error) {
+	info, exist, err := h.Store.Get(h.Cfg.StoreID)
+	if err != nil {
+		return nil, err
+	}
+	if !exist {
+		info = &hashslot.SlotInfo{GroupID: h.Cfg.StoreID}
+	}
+	return info, nil
+}
+
 func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 	h.startReceive()
-	var err error
+	ok, _, slots := h.Store.GetMigrateFrom()
+	if !ok {
+		return errors.New("server is not in migrate-from")
+	}
+	edges, err := hashslot.WrapSlotsToEdges(slots, "")
+	if err != nil {
+		return err
+	}
+	if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(item.Name)), edges) {
+		return fmt.Errorf("%s is not in the migrating slots", item.Name)
+	}
 	switch entity.Dest(item.Dest) {
 	case entity.DestVersion:
 		var i msg.Version
@@ -205,15 +280,15 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.Service.AddMetadata(item.Name, &i)
+		err = h.Service.ReceiveMetadata(item.Name, &i)
 	case entity.DestBucket:
 		var i msg.Bucket
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.BucketService.Create(&i)
+		err = h.BucketService.Receive(&i)
 	default:
-		hsLog.Errorf("unknown migration item: %d", item.Dest)
+		err = fmt.Errorf("unknown migration item: %d", item.Dest)
 	}
 	if err != nil && !errors.Is(err, usecase.ErrExists) {
 		return err
@@ -240,154 +315,156 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	if err != nil {
 		return err
 	}
-	delEdges, _ := hashslot.WrapSlotsToEdges(slots, "")
-	var errs []error
-	errs = append(errs, h.migrateMetadata(stream, delEdges)...)
-	errs = append(errs, h.migrateBuckets(stream, delEdges)...)
-	if len(errs) > 0 {
-		return errors.Join(errs...)
+	delEdges, err := hashslot.WrapSlotsToEdges(slots, "")
+	if err != nil {
+		return err
 	}
-	// all migrate success
-	if err = h.Store.FinishMigrateTo(); err != nil {
-		hsLog.Debugf("switch status to normal err: %s", err)
+	metaKeys, err := h.migrateMetadata(stream, delEdges)
+	if err != nil {
+		return err
+	}
+	bucketKeys, err := h.migrateBuckets(stream, delEdges)
+	if err != nil {
+		return err
 	}
-	// remove slots from current slot-info
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	// all sent, remove slots from current slot-info
+	info, err := h.currentInfo()
 	if err != nil {
 		return fmt.Errorf("update slot fails after finish migration: %w", err)
 	}
+	origin := *info
 	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
 	info.Slots = hashslot.RemoveEdges(curEdges, delEdges).Strings()
 	// save new slot-info
-	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
+	if err = logic.NewHashSlot().SaveMigratedToEtcd(h.Cfg.StoreID, info); err != nil {
 		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
 	}
-	// close stream as success
-	if err = stream.CloseSend(); err != nil {
-		hsLog.Error(err)
+	// close stream as success and wait until the target owns the slots
+	if err = confirmReceived(stream); err != nil && !h.isTaken(delEdges) {
+		if inner := logic.NewHashSlot().SaveMigratedToEtcd(h.Cfg.StoreID, &origin); inner != nil {
+			err = errors.Join(err, fmt.Errorf("take back slots: %w", inner))
+		}
+		return fmt.Errorf("target does not take over the slots: %w", err)
+	}
+	// now nobody asks this server for the records
+	if err = h.removeKeys(metaKeys, bucketKeys); err != nil {
+		return fmt.Errorf("remove migrated records: %w", err)
 	}
 	hsLog.Infof("finish migration to %s success", toLoc.Host)
 	return nil
 }
 
-func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var sucNum int
-	metaKeys := h.Service.FilterKeys(func(s string) bool {
+// confirmReceived returns nil if the other side finished the migration
+func confirmReceived(stream pb.HashSlot_StreamingReceiveClient) error {
+	if err := stream.CloseSend(); err != nil {
+		return err
+	}
+	_, err := stream.Recv()
+	if err == io.EOF {
+		return nil
+	}
+	if err == nil {
+		err = errors.New("unexpected response")
+	}
+	return err
+}
+
+// isTaken tells if all slots have another owner now
+func (h *HashSlotService) isTaken(edges hashslot.EdgeList) bool {
+	provider, err := h.Store.GetEdgeProvider(true)
+	if err != nil {
+		hsLog.Errorf("get slots: %s", err)
+		return false
+	}
+	for _, edge := range edges {
+		if _, fully := hashslot.FindRangeCurrentData(edge.Start, edge.End, provider); !fully {
+			return false
+		}
+	}
+	return true
+}
+
+func (h *HashSlotService) filterMetadata(edges hashslot.EdgeList) []string {
+	return h.Service.FilterKeys(func(s string) bool {
 		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
 	})
-	total := len(metaKeys)
-	// send all metadata and versions
-	for len(metaKeys) > 0 {
-		key := metaKeys[0]
-		metaKeys = metaKeys[1:] // for earlier GC
+}
+
+func (h *HashSlotService) filterBuckets(edges hashslot.EdgeList) (keys []string, err error) {
+	err = h.BucketService.Foreach(func(k []byte, _ []byte) error {
+		if hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
+			// copy, k is only valid in the transaction
+			keys = append(keys, string(k))
+		}
+		return nil
+	})
+	if errors.Is(err, usecase.ErrNotFound) {
+		// no bucket ever
+		err = nil
+	}
+	return
+}
+
+// sendItem returns nil if the other side accepted the item
+func sendItem(stream pb.HashSlot_StreamingReceiveClient, item *pb.MigrationItem) error {
+	if err := stream.Send(item); err != nil {
+		return err
+	}
+	_, err := proto.ResolveResponse(stream.Recv())
+	return err
+}
+
+// migrateMetadata sends all metadata and versions, stops at the first which fails
+func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) ([]string, error) {
+	metaKeys := h.filterMetadata(edges)
+	for _, key := range metaKeys {
 		data, err := h.Service.GetMetadataBytes(key)
 		if err != nil {
-			errs = append(errs, err)
-			continue
+			return nil, err
 		}
-		// send data
-		if err = stream.Send(&pb.MigrationItem{
+		if err = sendItem(stream, &pb.MigrationItem{
 			Name: key,
 			Data: data,
 			Dest: int32(entity.DestMetadata),
 		}); err != nil {
-			hsLog.Debugf("send metadata %s err: %s", key, err)
-			errs = append(errs, err)
-			continue
-		}
-		// recv response
-		_, err = proto.ResolveResponse(stream.Recv())
-		if err != nil {
-			hsLog.Debugf("recv send-metadata %s response err: %s", key, err)
-			errs = append(errs, err)
-			continue
+			return nil, fmt.Errorf("send-metadata %s: %w", key, err)
 		}
 		// start send versions
-		allVersionSuccess := true
 		h.Service.ForeachVersionBytes(key, func(b []byte) bool {
-			// send version
-			if err = stream.Send(&pb.MigrationItem{
+			err = sendItem(stream, &pb.MigrationItem{
 				Name: key,
 				Data: b,
 				Dest: int32(entity.DestVersion),
-			}); err != nil {
-				errs = append(errs, err)
-				allVersionSuccess = false
-				hsLog.Debugf("send-metadata-version %s err: %s", key, err)
-			}
-			// recv response
-			_, err = proto.ResolveResponse(stream.Recv())
-			if err != nil {
-				errs = append(errs, err)
-				allVersionSuccess = false
-				hsLog.Debugf("send-metadata-version %s recv err: %s", key, err)
-			}
-			return true
+			})
+			return err == nil
 		})
-		if !allVersionSuccess {
-			continue
+		if err != nil {
+			return nil, fmt.Errorf("send-metadata-version %s: %w", key, err)
 		}
-		sucNum++
-		// delete if all success
-		go func() {
-			defer graceful.Recover()
-			if inner := h.Service.RemoveMetadata(key); inner != nil {
-				hsLog.Errorf("delete-metadata %s fail: %s", key, inner)
-			}
-		}()
 	}
-	hsLog.Infof("migration totally %d metadata and successed %d verions", total, sucNum)
-	return
+	hsLog.Infof("migration totally %d metadata", len(metaKeys))
+	return metaKeys, nil
 }
 
-func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var successBuckets int
-	var migKeys [][]byte
-	err := h.BucketService.Foreach(func(k []byte, _ []byte) error {
-		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
-			return nil
-		}
-		migKeys = append(migKeys, k)
-		return nil
-	})
-	total := len(migKeys)
-	for len(migKeys) > 0 {
-		k := migKeys[0]
-		migKeys = migKeys[1:] // for earlier GC
-		keyStr := util.BytesToStr(k)
-		v, err := h.BucketService.GetBytes(keyStr)
+// migrateBuckets sends all buckets, stops at the first which fails
+func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) ([]string, error) {
+	keys, err := h.filterBuckets(edges)
+	if err != nil {
+		return nil, err
+	}
+	for _, key := range keys {
+		v, err := h.BucketService.GetBytes(key)
 		if err != nil {
-			errs = append(errs, err)
-			continue
+			return nil, err
 		}
-		// send data
-		if err = stream.Send(&pb.MigrationItem{
-			Name: keyStr,
+		if err = sendItem(stream, &pb.MigrationItem{
+			Name: key,
 			Data: v,
 			Dest: int32(entity.DestBucket),
 		}); err != nil {
-			hsLog.Debugf("send bucket %s err: %s", keyStr, err)
-			errs = append(errs, err)
-			continue
+			return nil, fmt.Errorf("send-bucket %s: %w", key, err)
 		}
-		// recv response
-		_, err = proto.ResolveResponse(stream.Recv())
-		if err != nil {
-			hsLog.Debugf("recv send-bucket %s response err: %s", keyStr, err)
-			errs = append(errs, err)
-			continue
-		}
-		successBuckets++
-		go func() {
-			defer graceful.Recover()
-			if err := h.BucketService.Remove(keyStr); err != nil {
-				hsLog.Errorf("delete-bucket %s err: %s", keyStr, err)
-			}
-		}()
 	}
-	if err != nil {
-		errs = append(errs, err)
-	}
-	hsLog.Infof("migration totally %d buckets and successed %d", total, successBuckets)
-	return
+	hsLog.Infof("migration totally %d buckets", len(keys))
+	return keys, nil
 }
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 15e2a3a..3cb03ae 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -26,6 +26,11 @@ func NewMetadataService(repo usecase.IMetadataRepo, batch usecase.IBatchMetaRepo
 func (m *MetadataService) AddMetadata(id string, data *msg.Metadata) error {
 	data.CreateTime = time.Now().UnixMilli()
 	data.UpdateTime = data.CreateTime
+	return m.ReceiveMetadata(id, data)
+}
+
+// ReceiveMetadata adds the metadata as it is
+func (m *MetadataService) ReceiveMetadata(id string, data *msg.Metadata) error {
 	if ok, _, err := m.ApplyRaft(&entity.RaftData{
 		Type:     entity.LogInsert,
 		Dest:     entity.DestMetadata,
-- 
2.43.0


From 640a7ed6d7009b86b2f4d2c85e1d61030d83f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 27/66] fix: the RPC to update a version must obey the
 migration and the leadership like every modification

---
 src/metaserver/internal/controller/grpc/middleware.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index ffb3d33..ff47d71 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -33,6 +33,7 @@ var checkWritableMethods = set.OfString([]string{
 	"/proto.HashSlot/PrepareMigration",
 	"/proto.HashSlot/StreamingReceive",
 	"/proto.MetadataApi/SaveVersion",
+	"/proto.MetadataApi/UpdateVersion",
 	"/proto.MetadataApi/SaveMetadata",
 	"/proto.MetadataApi/UpdateMetadata",
 	"/proto.MetadataApi/SaveBucket",
-- 
2.43.0


From d6d89669a59b47702fe02ab1f15065c91c6ac2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 28/66] fix: slots of an interrupted migration must never get
 two owners

---
 .../usecase/service/hashslot_service.go       | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 07b3366..d457c64 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -234,6 +234,12 @@ func (h *HashSlotService) FinishReceiveItem(success bool) error {
 	// combine to new slots, ignore error because both have been validated
 	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
 	newEdges, _ := hashslot.WrapSlotsToEdges(newSlots, "")
+	// the other side has given them up and did not take them back
+	if taken, err := h.isTaken(newEdges); err != nil {
+		return fmt.Errorf("update slot fails after finish migration: %w", err)
+	} else if taken {
+		return errors.New("received slots still have an owner")
+	}
 	info.Slots = hashslot.CombineEdges(curEdges, newEdges).Strings()
 	// save new slot-info
 	if err = logic.NewHashSlot().SaveMigratedToEtcd(h.Cfg.StoreID, info); err != nil {
@@ -340,11 +346,18 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
 	}
 	// close stream as success and wait until the target owns the slots
-	if err = confirmReceived(stream); err != nil && !h.isTaken(delEdges) {
-		if inner := logic.NewHashSlot().SaveMigratedToEtcd(h.Cfg.StoreID, &origin); inner != nil {
-			err = errors.Join(err, fmt.Errorf("take back slots: %w", inner))
+	if err = confirmReceived(stream); err != nil {
+		taken, inner := h.isTaken(delEdges)
+		if inner != nil {
+			// a slot must not have two owners, so they are not taken back
+			return errors.Join(err, fmt.Errorf("unknown who owns the slots: %w", inner))
+		}
+		if !taken {
+			if inner = logic.NewHashSlot().SaveMigratedToEtcd(h.Cfg.StoreID, &origin); inner != nil {
+				err = errors.Join(err, fmt.Errorf("take back slots: %w", inner))
+			}
+			return fmt.Errorf("target does not take over the slots: %w", err)
 		}
-		return fmt.Errorf("target does not take over the slots: %w", err)
 	}
 	// now nobody asks this server for the records
 	if err = h.removeKeys(metaKeys, bucketKeys); err != nil {
@@ -369,19 +382,18 @@ func confirmReceived(stream pb.HashSlot_StreamingReceiveClient) error {
 	return err
 }
 
-// isTaken tells if all slots have another owner now
-func (h *HashSlotService) isTaken(edges hashslot.EdgeList) bool {
+// isTaken tells if any of the slots has an owner
+func (h *HashSlotService) isTaken(edges hashslot.EdgeList) (bool, error) {
 	provider, err := h.Store.GetEdgeProvider(true)
 	if err != nil {
-		hsLog.Errorf("get slots: %s", err)
-		return false
+		return false, err
 	}
 	for _, edge := range edges {
-		if _, fully := hashslot.FindRangeCurrentData(edge.Start, edge.End, provider); !fully {
-			return false
+		if owners, _ := hashslot.FindRangeCurrentData(edge.Start, edge.End, provider); len(owners) > 0 {
+			return true, nil
 		}
 	}
-	return true
+	return false, nil
 }
 
 func (h *HashSlotService) filterMetadata(edges hashslot.EdgeList) []string {
-- 
2.43.0


From d1bd5e805d0a2b18f295932af2ca8275b6dfec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 29/66] fix: printing a size must be exact, reading one must
 not overflow

---
 src/common/datasize/datasize.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/common/datasize/datasize.go b/src/common/datasize/datasize.go
index f60bbe1..1e9109e 100644
--- a/src/common/datasize/datasize.go
+++ b/src/common/datasize/datasize.go
@@ -47,15 +47,14 @@ func (d DataSize) PetaByte() uint64 {
 	return d.TeraByte() >> 10
 }
 
+// String uses the largest unit which is exact, so that Parse returns the same size
 func (d DataSize) String() string {
-	i := int(math.Floor(math.Log(float64(d)) / math.Log(1024)))
-	exceed := 1.0
-	if i >= len(units) {
-		exceed = math.Pow(Step, float64(i-len(units)+1))
-		i = len(units) - 1
+	for i := len(units) - 1; i > 0; i-- {
+		if num := d / units[i].value; num > 0 && d%units[i].value == 0 && !IsExceedLimit(int(num), units[i].value) {
+			return fmt.Sprintf("%d%s", uint64(num), units[i].name)
+		}
 	}
-	num := float64(d) / math.Pow(Step, float64(i)) * exceed
-	return fmt.Sprintf("%.0f%s", num, units[i].name)
+	return fmt.Sprintf("%dB", uint64(d))
 }
 
 func (d DataSize) Int() int {
@@ -94,7 +93,7 @@ func Parse(s string) (DataSize, error) {
 	if len(res) == 0 || len(res[0]) < 3 {
 		return 0, fmt.Errorf("data size '%v' format doesn't support", s)
 	}
-	num, e := strconv.Atoi(res[0][1])
+	num, e := strconv.ParseUint(res[0][1], 10, 64)
 	if e != nil {
 		return 0, e
 	}
@@ -103,7 +102,10 @@ func Parse(s string) (DataSize, error) {
 		return DataSize(num), nil
 	}
 	if u, ok := unitNameMap[res[0][2]]; ok {
-		if IsExceedLimit(num, u) {
+		if num > math.MaxUint64/uint64(u) {
+			return 0, fmt.Errorf("data size '%s' is too large", s)
+		}
+		if IsExceedLimit(int(num), u) {
 			return 0, fmt.Errorf("data size '%dPB' exceed limit 1024PB", num)
 		}
 		return DataSize(num) * u, nil
-- 
2.43.0


From ee976aa45f13698f9ddca36f929f10a53449d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 30/66] fix: a malformed byte range must be rejected instead of
 naming other bytes

---
 src/common/request/range.go | 38 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/common/request/range.go b/src/common/request/range.go
index 8d8a94a..c586031 100644
--- a/src/common/request/range.go
+++ b/src/common/request/range.go
@@ -1,7 +1,7 @@
 package request
 
 import (
-	"common/util"
+	"strconv"
 	"strings"
 )
 
@@ -28,30 +28,36 @@ func (rg *Range) FirstBytes() Int64Tuple {
 	return tp
 }
 
-//ConvertFrom must start with bytes=
+//ConvertFrom must start with bytes=. Only ranges with a first offset are supported, an open end has Second 0.
 func (rg *Range) ConvertFrom(str string) bool {
-	if str == "" {
-		return false
-	}
-	_, str, ok := strings.Cut(str, "bytes=")
+	str, ok := strings.CutPrefix(str, "bytes=")
 	if !ok {
 		return false
 	}
 	tuples := strings.Split(str, ",")
-	if len(tuples) == 0 {
-		return false
-	}
-	rg.Bytes = make([]Int64Tuple, 0, len(tuples))
+	bytes := make([]Int64Tuple, 0, len(tuples))
 	for _, t := range tuples {
-		v := strings.Split(strings.TrimSpace(t), "-")
+		first, second, ok := strings.Cut(strings.TrimSpace(t), "-")
+		if !ok {
+			return false
+		}
 		var tp Int64Tuple
-		if len(v) > 0 {
-			tp.First = util.ToInt64(v[0])
+		if tp.First, ok = parseOffset(first); !ok {
+			return false
 		}
-		if len(v) > 1 {
-			tp.Second = util.ToInt64(v[1])
+		if second != "" {
+			if tp.Second, ok = parseOffset(second); !ok || tp.Second < tp.First {
+				return false
+			}
 		}
-		rg.Bytes = append(rg.Bytes, tp)
+		bytes = append(bytes, tp)
 	}
+	rg.Bytes = bytes
 	return true
 }
+
+//parseOffset accepts digits only
+func parseOffset(str string) (int64, bool) {
+	n, err := strconv.ParseUint(str, 10, 63)
+	return int64(n), err == nil
+}
-- 
2.43.0


From 98b8c27d204442baaa097286c0409a59eb65eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 31/66] fix: decoding must not take memory or slice for what a
 damaged record announces

---
 src/common/util/util.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/common/util/util.go b/src/common/util/util.go
index 50323fc..ad1e82d 100644
--- a/src/common/util/util.go
+++ b/src/common/util/util.go
@@ -192,7 +192,10 @@ func UnmarshalFromIO[T any](body io.ReadCloser) (T, error) {
 
 // DecodeMsgp decode data by msgp
 func DecodeMsgp(data msgp.Unmarshaler, bt []byte) (err error) {
-	_, err = data.UnmarshalMsg(bt)
+	// the decoders allocate what a header announces, so it has to be there
+	if _, err = msgp.Skip(bt); err == nil {
+		_, err = data.UnmarshalMsg(bt)
+	}
 	if err != nil {
 		err = fmt.Errorf("encode-msgp: %w", err)
 	}
@@ -239,14 +242,19 @@ func EncodeArrayMsgp[T msgp.Marshaler](arr []T) (res []byte, err error) {
 func DecodeArrayMsgp[T msgp.Unmarshaler](data []byte, constructor func() T) (arr []T, err error) {
 	for cur := 0; cur < len(data); {
 		item := constructor()
+		if len(data)-cur < binary.MaxVarintLen32 {
+			return nil, errors.New("decode array msgp: format err")
+		}
 		size, n := binary.Uvarint(data[cur : cur+binary.MaxVarintLen32])
 		if n <= 0 {
-			err = errors.New("decode array msgp: format err")
-			return
+			return nil, errors.New("decode array msgp: format err")
 		}
 		cur += binary.MaxVarintLen32
-		if _, err = item.UnmarshalMsg(data[cur : cur+int(size)]); err != nil {
-			return
+		if size > uint64(len(data)-cur) {
+			return nil, errors.New("decode array msgp: format err")
+		}
+		if err = DecodeMsgp(item, data[cur:cur+int(size)]); err != nil {
+			return nil, err
 		}
 		cur += int(size)
 		arr = append(arr, item)
-- 
2.43.0


From c75f5a641b03a101d1784450555489b95c7a0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 32/66] fix: an error of a source must not add, lose or hide
 bytes in the aligned and combined readers

---
 src/common/system/disk/aligend_reader.go | 8 ++++++--
 src/common/system/disk/multi_reader.go   | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5e24aa7..acf1208 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -39,6 +39,10 @@ func (ar *AlignedReader) Read(p []byte) (n int, err error) {
 	if err == io.ErrUnexpectedEOF {
 		err = io.EOF
 	}
+	if err != nil && err != io.EOF {
+		// the data is not complete, padding would make a part of it
+		return n - n%directio.BlockSize, err
+	}
 	// padding zero if needed
 	paddingEnd := math.MinInt(length, AlignedSize(n))
 	slices.Fill(p[n:paddingEnd], 0)
@@ -55,8 +59,8 @@ func (l *AlignedLimitedReader) Read(p []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 	// aligned and reduce buffer for last read
-	if int64(len(p)) > l.N {
-		p = p[0:AlignedSize64(l.N)]
+	if size := AlignedSize64(l.N); int64(len(p)) > size {
+		p = p[0:size]
 	}
 	n, err = l.R.Read(p)
 	// ignore aligned part and return actual size of data on last reading
diff --git a/src/common/system/disk/multi_reader.go b/src/common/system/disk/multi_reader.go
index 3956cc1..b4d6c7c 100644
--- a/src/common/system/disk/multi_reader.go
+++ b/src/common/system/disk/multi_reader.go
@@ -48,6 +48,9 @@ func (mr *multiReader) Read(p []byte) (n int, err error) {
 			}
 			return
 		}
+		if err != nil && err != io.EOF {
+			return
+		}
 	}
 	return n, io.EOF
 }
\ No newline at end of file
-- 
2.43.0


From 6bed5ff618a8457fe030769588a56bde6b83f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 33/66] fix: the path cache must keep every path once, remove
 exactly the named one and never change stored bytes

---
 .../internal/db/object_path_cache.go          | 58 ++++++++++---------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index 6baabc0..6f883bb 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -13,6 +13,9 @@ import (
 var (
 	Sep    = []byte(",")
 	SepEnc = []byte("%2C")
+	// esc escapes the escape sign of SepEnc
+	esc    = []byte("%")
+	escEnc = []byte("%25")
 )
 
 type PathCache struct {
@@ -41,10 +44,8 @@ func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
 	var res []byte
 	item, err := txn.Get(key)
 	if err == nil {
-		if err = item.Value(func(val []byte) error {
-			res = val
-			return nil
-		}); err != nil {
+		// the bytes of an item must neither be modified nor appended to
+		if res, err = item.ValueCopy(nil); err != nil {
 			return nil, err
 		}
 	}
@@ -53,12 +54,23 @@ func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
 
 func (pc *PathCache) encodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, Sep, SepEnc)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, esc, escEnc), Sep, SepEnc)
 }
 
 func (pc *PathCache) decodeValue(val []byte) []byte {
 	// FIXME: allocate N and copy N
-	return bytes.ReplaceAll(val, SepEnc, Sep)
+	return bytes.ReplaceAll(bytes.ReplaceAll(val, SepEnc, Sep), escEnc, esc)
+}
+
+// without splits the encoded value and drops one encoded path
+func (pc *PathCache) without(value, path []byte) [][]byte {
+	var res [][]byte
+	for _, b := range bytes.Split(value, Sep) {
+		if len(b) > 0 && !bytes.Equal(b, path) {
+			res = append(res, b)
+		}
+	}
+	return res
 }
 
 func (pc *PathCache) Put(name, path string) error {
@@ -69,10 +81,9 @@ func (pc *PathCache) Put(name, path string) error {
 		if err != nil && err != badger.ErrKeyNotFound {
 			return err
 		}
-		// not use bytes.Join to avoid memory copy
-		if len(origin) > 0 {
-			value = append(append(origin, Sep...), value...)
-		}
+		// put it last and only once
+		paths := append(pc.without(origin, value), value)
+		value = bytes.Join(paths, Sep)
 		return txn.Set(key, value)
 	})
 }
@@ -86,7 +97,7 @@ func (pc *PathCache) Get(name string) ([]string, error) {
 		if err != nil {
 			return err
 		}
-		sp := bytes.Split(value, Sep)
+		sp := pc.without(value, nil)
 		if len(sp) == 0 {
 			return badger.ErrKeyNotFound
 		}
@@ -111,11 +122,12 @@ func (pc *PathCache) GetLast(name string) (string, error) {
 		if err != nil {
 			return err
 		}
-		if idx := bytes.LastIndexByte(value, Sep[0]); idx > 0 {
-			res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
-			return nil
+		value = value[bytes.LastIndexByte(value, Sep[0])+1:]
+		if len(value) == 0 {
+			return badger.ErrKeyNotFound
 		}
-		return badger.ErrKeyNotFound
+		res = util.BytesToStr(pc.decodeValue(value))
+		return nil
 	})
 	if err == badger.ErrKeyNotFound {
 		err = os.ErrNotExist
@@ -130,17 +142,11 @@ func (pc *PathCache) Remove(name, path string) error {
 		if err != nil {
 			return err
 		}
-		before, after, ok := bytes.Cut(val, pc.encodeValue(util.StrToBytes(path)))
-		if !ok {
-			return badger.ErrKeyNotFound
-		}
-		before = bytes.TrimSuffix(before, Sep)
-		after = bytes.TrimPrefix(after, Sep)
-		// not use bytes.Join to avoid memory allocating and copy
-		if len(before) > 0 {
-			after = append(append(before, Sep...), after...)
+		paths := pc.without(val, pc.encodeValue(util.StrToBytes(path)))
+		if len(paths) == 0 {
+			return txn.Delete(key)
 		}
-		return txn.Set(key, after)
+		return txn.Set(key, bytes.Join(paths, Sep))
 	})
 	if err == badger.ErrKeyNotFound {
 		err = nil
@@ -165,7 +171,7 @@ func (pc *PathCache) IteratorAll(fn func(path string) error) error {
 		defer itr.Close()
 		for itr.Rewind(); itr.Valid(); itr.Next() {
 			if err := itr.Item().Value(func(val []byte) error {
-				for _, b := range bytes.Split(val, Sep) {
+				for _, b := range pc.without(val, nil) {
 					if err := fn(util.BytesToStr(pc.decodeValue(b))); err != nil {
 						return err
 					}
-- 
2.43.0


From ffe8b052a10a512928de913adba4ccc3a573249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 34/66] fix: directories are not objects, and one broken disk
 must not stop the warm up of the others

---
 .../internal/usecase/component/driver_manager.go       |  4 ++--
 src/objectserver/internal/usecase/service/common.go    | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index 535d6ec..0e0f520 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -97,7 +97,7 @@ func (dm *DriverManager) SelectMountPointFallback(fb string) string {
 
 func (dm *DriverManager) IsPathExist(path string) bool {
 	for _, d := range dm.drivers {
-		if _, err := os.Stat(filepath.Join(d.MountPoint, path)); !os.IsNotExist(err) {
+		if _, err := os.Stat(filepath.Join(d.MountPoint, path)); err == nil {
 			return true
 		}
 	}
@@ -107,7 +107,7 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
 	for _, d := range dm.drivers {
 		fullPath := filepath.Join(d.MountPoint, path)
-		if _, err := os.Stat(fullPath); !os.IsNotExist(err) {
+		if info, err := os.Stat(fullPath); err == nil && info.Mode().IsRegular() {
 			return fullPath, nil
 		}
 	}
diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 88fc5c6..6210683 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -12,24 +12,28 @@ import (
 // WarmUpLocateCache walk all objects under the storage path and save marks to cache
 func WarmUpLocateCache() {
 	for _, mp := range pool.DriverManager.GetAllMountPoint() {
-		err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(_ string, info fs.FileInfo, err error) error {
+		root := filepath.Join(mp, pool.Config.StoragePath)
+		err := filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
 			if err != nil {
 				return err
 			}
 			fileName := info.Name()
+			if info.IsDir() {
+				return nil
+			}
 			// skip temp file
 			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
 				return nil
 			}
 			pool.ObjectCap.AddCap(info.Size())
-			if !info.IsDir() {
+			// marks are only for files directly under the storage path, like objects are stored
+			if path == filepath.Join(root, fileName) {
 				MarkExist(fileName)
 			}
 			return nil
 		})
 		if err != nil {
 			logs.Std().Error(err)
-			return
 		}
 	}
 }
-- 
2.43.0


From 75440a5b77b03c5dec3e2820b11cf54f931e31f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 35/66] fix: a shard becomes visible, cached and accounted only
 when complete; temp uploads keep their exact size

---
 src/objectserver/internal/app/app.go          |   1 +
 .../controller/http/objects/objects_cache.go  |  15 +-
 .../controller/http/objects/objects_rest.go   |  58 ++--
 .../controller/http/temp/temp_rest.go         |  34 +-
 src/objectserver/internal/entity/dto.go       |   1 +
 .../usecase/service/objects_service.go        | 327 ++++++++++++------
 .../internal/usecase/service/temp_service.go  | 108 +++++-
 7 files changed, 374 insertions(+), 170 deletions(-)

diff --git a/src/objectserver/internal/app/app.go b/src/objectserver/internal/app/app.go
index 1645a02..d96bdaf 100644
--- a/src/objectserver/internal/app/app.go
+++ b/src/objectserver/internal/app/app.go
@@ -42,6 +42,7 @@ func Run(cfg *config.Config) {
 			syncer.StartAutoSave(),
 		)
 	})
+	service.RemoveLeftTemps()
 	pool.Open()
 	// warmup serv
 	service.WarmUpLocateCache()
diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 7017b1a..56f19a2 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -3,19 +3,24 @@ package objects
 import (
 	"common/logs"
 	"net/http"
-	"objectserver/internal/usecase/pool"
+	"objectserver/internal/usecase/service"
 
 	"github.com/gin-gonic/gin"
 )
 
 func GetFromCache(g *gin.Context) {
-	name := g.Param("name")
-	if bt, ok := pool.Cache.HasGet(name); ok {
+	var req getReq
+	if err := req.Bind(g); err != nil {
+		// will be reported by the next handler
+		return
+	}
+	offset, size := req.Span()
+	if bt, ok := service.CachedContent(req.Name, offset, size); ok {
 		if _, e := g.Writer.Write(bt); e != nil {
-			logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
+			logs.Std().Debugf("match file cache %v, but written to response error: %v", req.Name, e)
 			g.AbortWithStatus(http.StatusInternalServerError)
 		} else {
-			logs.Std().Debugf("match file cache %v", name)
+			logs.Std().Debugf("match file cache %v", req.Name)
 			g.AbortWithStatus(http.StatusOK)
 		}
 	}
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 605b13f..e0639d0 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -2,7 +2,6 @@ package objects
 
 import (
 	"bytes"
-	"common/graceful"
 	"common/request"
 	"common/response"
 	"io"
@@ -39,17 +38,13 @@ func Put(c *gin.Context) {
 		return
 	}
 	if cache.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, cache.Bytes())
-		}()
+		service.CacheContent(req.Name, cache.Bytes())
 	}
 	response.Ok(c)
 }
 
 func Delete(c *gin.Context) {
 	name := c.Param("name")
-	pool.Cache.Delete(name)
 	if err := service.Delete(name); err != nil {
 		response.FailErr(err, c)
 		return
@@ -57,37 +52,50 @@ func Delete(c *gin.Context) {
 	c.Status(http.StatusNoContent)
 }
 
+type getReq struct {
+	Name     string `uri:"name"`
+	Range    string `header:"range"`
+	Size     int64  `header:"size" binding:"required"`
+	Compress bool   `form:"compress"`
+}
+
+func (req *getReq) Bind(c *gin.Context) error {
+	return entity.BindAll(c, req, binding.Uri, binding.Query, binding.Header)
+}
+
+// Span returns offset and length of the required bytes
+func (req *getReq) Span() (offset, size int64) {
+	size = req.Size
+	var rg request.Range
+	if ok := rg.ConvertFrom(req.Range); ok {
+		tp := rg.FirstBytes()
+		offset = tp.First
+		if tp.Second > 0 && tp.Second-offset < size {
+			size = tp.Second - offset + 1
+		}
+	}
+	return
+}
+
 func Get(c *gin.Context) {
-	req := &struct {
-		Name     string `uri:"name"`
-		Range    string `header:"range"`
-		Size     int64  `header:"size" binding:"required"`
-		Compress bool   `form:"compress"`
-	}{}
-	if err := entity.BindAll(c, req, binding.Uri, binding.Query, binding.Header); err != nil {
+	var req getReq
+	if err := req.Bind(c); err != nil {
 		response.FailErr(err, c)
 		return
 	}
-	var rg request.Range
-	var offset int64
-	if ok := rg.ConvertFrom(req.Range); ok {
-		offset = rg.FirstBytes().First
-	}
+	offset, size := req.Span()
 	var writer io.Writer = c.Writer
 	var buf bytes.Buffer
-	if uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
-		buf.Grow(int(req.Size))
+	if offset == 0 && size > 0 && uint64(size) <= pool.Config.Cache.MaxItemSize.Byte() {
+		buf.Grow(int(size))
 		writer = io.MultiWriter(c.Writer, &buf)
 	}
-	if err := service.Get(req.Name, offset, req.Size, req.Compress, writer); err != nil {
+	if err := service.Get(req.Name, offset, size, req.Compress, writer); err != nil {
 		response.FailErr(err, c)
 		return
 	}
 	if buf.Len() > 0 {
-		go func() {
-			defer graceful.Recover()
-			pool.Cache.Set(req.Name, buf.Bytes())
-		}()
+		service.CacheContent(req.Name, buf.Bytes())
 	}
 	c.Status(http.StatusOK)
 }
diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index 5766d9e..3555f45 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -9,7 +9,6 @@ import (
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/service"
-	"os"
 	"path/filepath"
 
 	"github.com/gin-gonic/gin"
@@ -18,15 +17,9 @@ import (
 
 func Patch(g *gin.Context) {
 	id := g.Param("name")
-	ti, ok := service.GetTempInfo(id)
-	if !ok {
-		response.BadRequestMsg("file has been removed", g)
-		return
-	}
-	// only allow last chuck may not be power of 4KB
 	// for reading from network-io, using too big buffer is not wise.
 	bufSize := xmath.MinInt(int(g.Request.ContentLength), 2*cst.OS.PageSize)
-	if _, err := service.AppendFileAligned(ti.FullPath, g.Request.Body, bufSize); err != nil {
+	if err := service.AppendTemp(id, g.Request.Body, bufSize); err != nil {
 		response.FailErr(err, g)
 		return
 	}
@@ -34,8 +27,7 @@ func Patch(g *gin.Context) {
 }
 
 func Delete(g *gin.Context) {
-	id := g.Param("name")
-	defer service.RemoveTempInfo(id)
+	service.AbortTemp(g.Param("name"))
 	response.Ok(g)
 }
 
@@ -69,16 +61,10 @@ func Put(g *gin.Context) {
 		response.FailErr(err, g)
 		return
 	}
-	ti, ok := service.GetTempInfo(req.ID)
-	if !ok {
-		response.BadRequestMsg("file has been removed", g)
-		return
-	}
-	if err := service.CommitFile(ti.MountPoint, req.ID, ti.Name, req.Compress); err != nil {
+	if err := service.CommitTemp(req.ID, req.Compress); err != nil {
 		response.FailErr(err, g)
 		return
 	}
-	service.RemoveTempInfo(req.ID)
 	response.Ok(g)
 }
 
@@ -90,18 +76,8 @@ func Head(g *gin.Context) {
 		g.Status(http.StatusNotFound)
 		return
 	}
-	fi, err := os.Stat(ti.FullPath)
-	if os.IsNotExist(err) {
-		response.OkHeader(gin.H{"Size": 0}, g)
-		return
-	}
-	if err != nil {
-		response.FailErr(err, g)
-		return
-	}
-	// fi may have aligned padding if upload has finished
 	response.OkHeader(gin.H{
-		"Size": xmath.MinNumber(fi.Size(), ti.Size),
+		"Size": ti.Appended,
 	}, g)
 }
 
@@ -120,7 +96,7 @@ func Get(g *gin.Context) {
 		response.BadRequestMsg("file has been removed", g)
 		return
 	}
-	if err := service.GetFile(ti.FullPath, 0, req.Size, g.Writer); err != nil {
+	if err := service.GetFile(ti.FullPath, 0, xmath.MinNumber(req.Size, ti.Appended), g.Writer); err != nil {
 		response.FailErr(err, g)
 		return
 	}
diff --git a/src/objectserver/internal/entity/dto.go b/src/objectserver/internal/entity/dto.go
index 8324986..98abd6e 100644
--- a/src/objectserver/internal/entity/dto.go
+++ b/src/objectserver/internal/entity/dto.go
@@ -26,6 +26,7 @@ type TempInfo struct {
 	Name       string
 	Id         string
 	Size       int64
+	Appended   int64 // Appended is the size of the content received so far
 	MountPoint string
 	FullPath   string
 }
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9a10a99..2797824 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"common/cst"
 	"common/datasize"
-	"common/graceful"
 	"common/logs"
 	"common/response"
 	"common/system/disk"
@@ -12,60 +11,100 @@ import (
 	"common/util/math"
 	"fmt"
 	"io"
+	"objectserver/internal/entity"
 	global "objectserver/internal/usecase/pool"
 	"os"
 	"path/filepath"
+	"strings"
+	"sync"
 
 	"github.com/klauspost/compress/s2"
 )
 
 const (
-	LocateKeyPrefix = "LocateCache#"
+	LocateKeyPrefix  = "LocateCache#"
+	ContentKeyPrefix = "ContentCache#"
 )
 
-// Exist check if the object exists. pass to ExistPath
+var (
+	nameLocks keyLocks // nameLocks serializes the changes of an object
+	tempLocks keyLocks // tempLocks serializes the changes of a temp file, to be taken before a name lock
+)
+
+// keyLocks is one lock per key
+type keyLocks struct {
+	mu    sync.Mutex
+	locks map[string]*keyLock
+}
+
+type keyLock struct {
+	sync.Mutex
+	users int
+}
+
+func (kl *keyLocks) lock(key string) (unlock func()) {
+	kl.mu.Lock()
+	lock, ok := kl.locks[key]
+	if !ok {
+		if kl.locks == nil {
+			kl.locks = make(map[string]*keyLock)
+		}
+		lock = &keyLock{}
+		kl.locks[key] = lock
+	}
+	lock.users++
+	kl.mu.Unlock()
+	lock.Lock()
+	return func() {
+		lock.Unlock()
+		kl.mu.Lock()
+		if lock.users--; lock.users == 0 {
+			delete(kl.locks, key)
+		}
+		kl.mu.Unlock()
+	}
+}
+
+// Exist check if the object exists. pass to FindRealStoragePath
 func Exist(name string) bool {
-	if global.Cache.Has(LocateKeyPrefix+name) || global.Cache.Has(name) {
+	if global.Cache.Has(LocateKeyPrefix + name) {
 		return true
 	}
+	defer nameLocks.lock(name)()
+	return exist(name)
+}
+
+// exist must be called with the name locked
+func exist(name string) bool {
 	realPath, ok := FindRealStoragePath(name)
 	if !ok {
 		return false
 	}
-	if ExistPath(realPath) {
-		MarkExist(name)
-		return true
-	} else {
-		// remove this no existed path from path-db
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Remove(name, realPath))
-		}()
-		return false
-	}
+	util.LogErrWithPre("path-db put", global.PathDB.Put(name, realPath))
+	MarkExist(name)
+	return true
 }
 
 // FindRealStoragePath find storage path with real mount point of this file
 func FindRealStoragePath(fileName string) (string, bool) {
-	path, err := global.PathDB.GetLast(fileName)
+	// temp files may be stored under the same path but are not objects
+	if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
+		return "", false
+	}
+	if path, err := global.PathDB.GetLast(fileName); err == nil && ExistPath(path) {
+		return path, true
+	}
+	path, err := global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
 	if err != nil {
-		path, err = global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
-		if err != nil {
-			return "", false
-		}
-		// save path to path-cache
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Put(fileName, path))
-		}()
+		return "", false
 	}
 	return path, true
 }
 
-// ExistPath check if the given path exists.
+// ExistPath check if the given path is an existing file.
 func ExistPath(fullPath string) bool {
-	_, err := os.Stat(fullPath)
-	return err == nil
+	info, err := os.Stat(fullPath)
+	return err == nil && info.Mode().IsRegular()
 }
 
 // MarkExist save object mark into cache
@@ -78,31 +117,86 @@ func UnMarkExist(name string) {
 	global.Cache.Delete(LocateKeyPrefix + name)
 }
 
+// CacheContent keeps the first bytes of an object in the cache as long as the object exists
+func CacheContent(name string, content []byte) {
+	defer nameLocks.lock(name)()
+	if _, ok := FindRealStoragePath(name); ok {
+		global.Cache.Set(ContentKeyPrefix+name, content)
+	}
+}
+
+// CachedContent returns size bytes from the offset on if the cache contains all of them
+func CachedContent(name string, offset, size int64) ([]byte, bool) {
+	bt, ok := global.Cache.HasGet(ContentKeyPrefix + name)
+	if !ok || offset < 0 || size <= 0 || offset > int64(len(bt)) || size > int64(len(bt))-offset {
+		return nil, false
+	}
+	return bt[offset : offset+size], true
+}
+
 // Put save object to storage path
 func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
 	if Exist(fileName) {
 		return
 	}
 
-	mp := global.DriverManager.SelectMountPointFallback(global.Config.BaseMountPoint)
-	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
+	if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
+		return response.NewError(400, "not allowed name of object")
+	}
 
-	var size int64
+	mp := global.DriverManager.SelectMountPointFallback(global.Config.BaseMountPoint)
+	// nothing but a complete file may be seen under the name
+	tempPath := filepath.Join(mp, global.Config.TempPath, GenerateTempID())
 	if compress {
-		size, err = WriteFileCompress(fullPath, fileStream)
+		_, err = WriteFileCompress(tempPath, fileStream)
 	} else {
-		size, err = WriteFile(fullPath, fileStream)
+		counter := &countReader{Reader: fileStream}
+		if _, err = WriteFile(tempPath, counter); err == nil {
+			err = removePadding(tempPath, counter.n)
+		}
 	}
 	if err != nil {
+		if inner := os.Remove(tempPath); !os.IsNotExist(inner) {
+			util.LogErr(inner)
+		}
 		return
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.AddCap(size)
-		util.LogErr(global.PathDB.Put(fileName, fullPath))
-		MarkExist(fileName)
-	}()
-	return
+	return storeFile(tempPath, mp, fileName)
+}
+
+// removePadding cuts off what has been added to fill the last block
+func removePadding(path string, size int64) error {
+	info, err := os.Stat(path)
+	if err != nil || info.Size() <= size {
+		return err
+	}
+	return os.Truncate(path, size)
+}
+
+// storeFile makes a complete file the object with the name. if the object exists, the file will be removed.
+func storeFile(tempPath, mountPoint, fileName string) error {
+	defer nameLocks.lock(fileName)()
+	if exist(fileName) {
+		if err := os.Remove(tempPath); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+		return nil
+	}
+	info, err := os.Stat(tempPath)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return response.NewError(404, "object not found")
+		}
+		return err
+	}
+	fullPath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
+	if err = os.Rename(tempPath, fullPath); err != nil {
+		return err
+	}
+	global.ObjectCap.AddCap(info.Size())
+	util.LogErr(global.PathDB.Put(fileName, fullPath))
+	MarkExist(fileName)
+	return nil
 }
 
 // Get read object to writer with provided size. pass to GetFile
@@ -111,22 +205,27 @@ func Get(name string, offset, size int64, compress bool, writer io.Writer) (err
 		return response.NewError(404, "object not found")
 	}
 
-	fullPath, _ := FindRealStoragePath(name)
-	if compress {
-		err = GetFileCompress(fullPath, offset, size, writer)
-	} else {
-		err = GetFile(fullPath, offset, size, writer)
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
+		return response.NewError(404, "object not found")
 	}
-	if err != nil {
-		return err
+	if compress {
+		return GetFileCompress(fullPath, offset, size, writer)
 	}
-	MarkExist(name)
-	return nil
+	return GetFile(fullPath, offset, size, writer)
+}
+
+// onlyWriter hides that the writer may read by itself, with buffers of any size
+type onlyWriter struct {
+	io.Writer
 }
 
 // GetFile read file with provided size. offset corresponds to io.SeekStart.
 // if offset is not multiple of 4KB, direct-io will be disabled.
 func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
+	if size <= 0 {
+		return nil
+	}
 	file, err := disk.OpenFileDirectIO(fullPath, os.O_RDONLY, cst.OS.ModeUser)
 	if os.IsNotExist(err) {
 		return response.NewError(404, "object not found")
@@ -146,41 +245,46 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 			return err
 		}
 	}
-	bufSize := math.MinInt(int(size), 8*cst.OS.PageSize)
-	_, err = io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
+	// direct-io needs a buffer of whole blocks
+	bufSize := math.MinNumber(disk.AlignedSize64(math.MinNumber(size, int64(8*cst.OS.PageSize))), int64(8*cst.OS.PageSize))
+	_, err = io.CopyBuffer(onlyWriter{writer}, disk.LimitReader(file, size), disk.AlignedBlock(int(bufSize)))
 	return err
 }
 
 // Delete remove the object under the storage path
 func Delete(name string) error {
-	if !Exist(name) {
-		return nil
-	}
-	fullPath, _ := FindRealStoragePath(name)
-	size, err := DeleteFile(fullPath, "")
-	if err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
+	defer nameLocks.lock(name)()
+	for {
+		fullPath, ok := FindRealStoragePath(name)
+		if !ok {
+			break
+		}
+		size, err := DeleteFile(fullPath, "")
+		if err != nil {
+			return err
+		}
 		global.ObjectCap.SubCap(size)
 		util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
-		UnMarkExist(name)
-	}()
+	}
+	UnMarkExist(name)
+	global.Cache.Delete(ContentKeyPrefix + name)
 	return nil
 }
 
 // DeleteFile will remove the file under the path. if file not exist, it will do nothing.
 func DeleteFile(path, name string) (int64, error) {
 	pt := filepath.Join(path, name)
-	info, err := os.Stat(path)
+	info, err := os.Stat(pt)
 	if os.IsNotExist(err) {
 		return 0, nil
 	}
 	if err != nil {
 		return 0, err
 	}
-	if err = os.Remove(pt); err != nil && !os.IsNotExist(err) {
+	if err = os.Remove(pt); os.IsNotExist(err) {
+		return 0, nil
+	}
+	if err != nil {
 		return 0, err
 	}
 	return info.Size(), nil
@@ -201,25 +305,23 @@ func WriteFileWithSize(fullPath string, curSize int64, fileStream io.Reader, buf
 	// paddingLen always gte 0 and lt 4096
 	pageSize := int64(cst.OS.PageSize)
 	paddingLen := fi.Size() - curSize
-	if paddingLen >= pageSize {
+	if paddingLen >= pageSize || paddingLen < 0 {
 		return 0, fmt.Errorf("err padding length %d", paddingLen)
 	}
-	if paddingLen > 0 {
+	end := curSize - curSize%pageSize
+	if _, err = file.Seek(end, io.SeekStart); err != nil {
+		return 0, err
+	}
+	if end < curSize {
 		// read the last 4KB of data
-		if _, err = file.Seek(-pageSize, io.SeekEnd); err != nil {
-			return 0, err
-		}
-		bt := make([]byte, pageSize)
-		_, err = io.ReadFull(file, bt)
-		if err != nil {
+		bt := disk.AlignedBlock(int(pageSize))
+		if _, err = io.ReadFull(file, bt); err != nil && err != io.ErrUnexpectedEOF {
 			return 0, fmt.Errorf("read tail 4KB err: %w", err)
 		}
-		// remove padding
-		bt = bt[:len(bt)-int(paddingLen)]
-		// concatenation with fileStream
-		fileStream = disk.MultiReader(bytes.NewBuffer(bt), fileStream)
+		// remove padding and concatenation with fileStream
+		fileStream = disk.MultiReader(bytes.NewBuffer(bt[:curSize-end]), fileStream)
 		// seek back
-		if _, err = file.Seek(-pageSize, io.SeekEnd); err != nil {
+		if _, err = file.Seek(end, io.SeekStart); err != nil {
 			return 0, err
 		}
 	}
@@ -243,6 +345,9 @@ func WriteFile(fullPath string, fileStream io.Reader) (int64, error) {
 
 // GetFileCompress read s2-compressed file and work with COW
 func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) error {
+	if size <= 0 {
+		return nil
+	}
 	file, err := os.Open(fullPath)
 	if os.IsNotExist(err) {
 		return response.NewError(404, "object not found")
@@ -251,13 +356,17 @@ func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) erro
 		return err
 	}
 	defer file.Close()
+	reader := s2.NewReader(file)
 	if offset > 0 {
-		if _, err = file.Seek(offset, io.SeekStart); err != nil {
+		// offset is one of the content, not of the compressed file
+		if err = reader.Skip(offset); err == io.ErrUnexpectedEOF {
+			return nil
+		} else if err != nil {
 			return err
 		}
 	}
-	bufSize := math.MinNumber(8*cst.OS.PageSize, int(size))
-	_, err = io.CopyBuffer(writer, io.LimitReader(s2.NewReader(file), size), make([]byte, bufSize))
+	bufSize := math.MinNumber(int64(8*cst.OS.PageSize), size)
+	_, err = io.CopyBuffer(writer, io.LimitReader(reader, size), make([]byte, bufSize))
 	return err
 }
 
@@ -284,43 +393,41 @@ func WriteFileCompress(fullPath string, fileStream io.Reader) (int64, error) {
 
 // CommitFile move the temp file to storage path with a new name
 func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
-	filePath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
 	tempPath := filepath.Join(mountPoint, global.Config.TempPath, tmpName)
-	if ExistPath(filePath) {
-		return nil
-	}
-	if compress {
-		tmp, err := os.Open(tempPath)
-		if err != nil {
+	if compress && !Exist(fileName) {
+		compressPath := tempPath + ".s2"
+		if err := compressFile(tempPath, compressPath); err != nil {
 			if os.IsNotExist(err) {
 				return response.NewError(404, "object not found")
 			}
+			util.LogErr(os.RemoveAll(compressPath))
 			return err
 		}
-		defer util.CloseAndLog(tmp)
-		tmpStat, err := tmp.Stat()
-		if err != nil {
-			return err
-		}
-		bufSize := math.MinInt(4*datasize.MB.Int(), int(tmpStat.Size()))
-		_, err = AppendFileCompress(filePath, tmp, bufSize)
-		return err
-	} else {
-		if err := os.Rename(tempPath, filePath); err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
-			}
+		if err := storeFile(compressPath, mountPoint, fileName); err != nil {
+			util.LogErr(os.RemoveAll(compressPath))
 			return err
 		}
+		util.LogErr(os.Remove(tempPath))
+		return nil
 	}
+	return storeFile(tempPath, mountPoint, fileName)
+}
 
-	go func() {
-		defer graceful.Recover()
-		if info, err := os.Stat(filePath); err == nil {
-			global.ObjectCap.AddCap(info.Size())
-			util.LogErr(global.PathDB.Put(fileName, filePath))
-			MarkExist(fileName)
-		}
-	}()
-	return nil
+func compressFile(from, to string) error {
+	tmp, err := os.Open(from)
+	if err != nil {
+		return err
+	}
+	defer util.CloseAndLog(tmp)
+	tmpStat, err := tmp.Stat()
+	if err != nil {
+		return err
+	}
+	// may be left from a failure
+	if err = os.RemoveAll(to); err != nil {
+		return err
+	}
+	bufSize := math.MinNumber(int64(4*datasize.MB), tmpStat.Size())
+	_, err = AppendFileCompress(to, tmp, math.MaxInt(int(bufSize), 1))
+	return err
 }
diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index d40e0da..301d099 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -2,14 +2,23 @@ package service
 
 import (
 	"common/cache"
+	"common/cst"
 	"common/graceful"
 	"common/logs"
+	"common/response"
+	"common/system/disk"
 	"common/util"
+	xmath "common/util/math"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/google/uuid"
+	"io"
+	"net/http"
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
+	"os"
+	"path/filepath"
 	"strings"
 )
 
@@ -29,6 +38,100 @@ func GenerateTempID() string {
 	return entity.TempKeyPrefix + uuid.NewString()
 }
 
+// AppendTemp appends content to the temp file. If the content ends with an error, what has been received before is kept.
+func AppendTemp(id string, content io.Reader, bufSize int) error {
+	defer tempLocks.lock(id)()
+	ti, ok := GetTempInfo(id)
+	if !ok {
+		return response.NewError(http.StatusBadRequest, "file has been removed")
+	}
+	counter := &countReader{Reader: content}
+	n, err := WriteFileWithSize(ti.FullPath, ti.Appended, counter, bufSize)
+	if err == nil {
+		ti.Appended += counter.n
+	} else {
+		// only whole blocks are known to be written
+		page := int64(cst.OS.PageSize)
+		ti.Appended = xmath.MaxNumber(ti.Appended, ti.Appended-ti.Appended%page+n-n%page)
+		if inner := os.Truncate(ti.FullPath, disk.AlignedSize64(ti.Appended)); inner != nil && !os.IsNotExist(inner) {
+			err = errors.Join(err, inner)
+		}
+	}
+	// may have been expired in the meantime
+	if _, ok = GetTempInfo(id); !ok {
+		util.LogErr(removeTempFile(ti))
+		return response.NewError(http.StatusBadRequest, "file has been removed")
+	}
+	if !SetTempInfo(ti) && err == nil {
+		err = errors.New("fail to save info of temp file")
+	}
+	return err
+}
+
+type countReader struct {
+	io.Reader
+	n int64
+}
+
+func (c *countReader) Read(p []byte) (n int, err error) {
+	n, err = c.Reader.Read(p)
+	c.n += int64(n)
+	return
+}
+
+// CommitTemp makes a complete temp file an object
+func CommitTemp(id string, compress bool) error {
+	defer tempLocks.lock(id)()
+	ti, ok := GetTempInfo(id)
+	if !ok {
+		return response.NewError(http.StatusBadRequest, "file has been removed")
+	}
+	if ti.Appended != ti.Size {
+		return response.NewError(http.StatusBadRequest, fmt.Sprintf("size of file is %d, actual received %d", ti.Size, ti.Appended))
+	}
+	if err := removePadding(ti.FullPath, ti.Size); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err := CommitFile(ti.MountPoint, ti.Id, ti.Name, compress); err != nil {
+		return err
+	}
+	RemoveTempInfo(id)
+	return nil
+}
+
+// AbortTemp removes the temp file and its info
+func AbortTemp(id string) {
+	defer tempLocks.lock(id)()
+	if ti, ok := GetTempInfo(id); ok {
+		RemoveTempInfo(id)
+		util.LogErr(removeTempFile(ti))
+	}
+}
+
+func removeTempFile(ti *entity.TempInfo) error {
+	_, err := DeleteFile(ti.FullPath, "")
+	return err
+}
+
+// RemoveLeftTemps removes the temp files of a previous process, whose infos are lost
+func RemoveLeftTemps() {
+	for _, mp := range pool.DriverManager.GetAllMountPoint() {
+		dir := filepath.Join(mp, pool.Config.TempPath)
+		entries, err := os.ReadDir(dir)
+		if err != nil {
+			if !os.IsNotExist(err) {
+				logs.Std().Error(err)
+			}
+			continue
+		}
+		for _, entry := range entries {
+			if !entry.IsDir() && strings.HasPrefix(entry.Name(), entity.TempKeyPrefix) {
+				util.LogErr(os.Remove(filepath.Join(dir, entry.Name())))
+			}
+		}
+	}
+}
+
 // StartTempRemovalBackground start some temp file removal threads. watching the eviction of cache.
 // return cancel function.
 func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
@@ -45,7 +148,10 @@ func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
 				if strings.HasPrefix(entry.Key, entity.TempKeyPrefix) {
 					var ti entity.TempInfo
 					if ok := util.GobDecode(entry.Value, &ti); ok {
-						if _, err := DeleteFile(pool.Config.TempPath, ti.Id); err != nil {
+						unlock := tempLocks.lock(ti.Id)
+						err := removeTempFile(&ti)
+						unlock()
+						if err != nil {
 							logger.Errorf("remove temp %v(name=%v) error, %v", ti.Id, ti.Name, err)
 							break
 						}
-- 
2.43.0


From d95c64ad9acf0d159280ec3cdaf2967e7d3a5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 36/66] fix: choosing a driver must not reorder the shared list
 nor wrap when space shrinks

---
 .../usecase/component/driver_balancer.go      | 26 +++++++++++++------
 .../usecase/component/driver_manager.go       | 23 +++++++++++-----
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/objectserver/internal/usecase/component/driver_balancer.go b/src/objectserver/internal/usecase/component/driver_balancer.go
index fc3912c..4168285 100644
--- a/src/objectserver/internal/usecase/component/driver_balancer.go
+++ b/src/objectserver/internal/usecase/component/driver_balancer.go
@@ -5,7 +5,7 @@ import (
 	"common/util/slices"
 	"errors"
 	"math"
-	"sort"
+	"sync"
 )
 
 type DriverBalancer interface {
@@ -22,13 +22,13 @@ func (sf *spaceFirstBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
-	sort.Slice(drivers, func(i, j int) bool {
-		return drivers[i].FreeSpace < drivers[j].FreeSpace
-	})
-	return slices.Last(drivers), nil
+	return slices.Extremal(drivers, func(max, cur *Driver) bool {
+		return cur.FreeSpace > max.FreeSpace
+	}), nil
 }
 
 type spaceWeightedBalancer struct {
+	mu       sync.Mutex
 	weighted map[string]datasize.DataSize
 	factor   datasize.DataSize
 }
@@ -48,17 +48,27 @@ func (sw *spaceWeightedBalancer) initFactor(drivers []*Driver) {
 	sw.factor = datasize.DataSize(math.Ceil(avg))
 }
 
+// left is zero if the space has become smaller than what has been weighted
+func (sw *spaceWeightedBalancer) left(d *Driver) datasize.DataSize {
+	if w := sw.weighted[d.MountPoint]; w < d.FreeSpace {
+		return d.FreeSpace - w
+	}
+	return 0
+}
+
 func (sw *spaceWeightedBalancer) Select(drivers []*Driver) (*Driver, error) {
 	if len(drivers) == 0 {
 		return nil, errors.New("non drivers available")
 	}
+	sw.mu.Lock()
+	defer sw.mu.Unlock()
 	if sw.factor == 0 {
 		sw.initFactor(drivers)
 	}
 	last := slices.Extremal(drivers, func(max, cur *Driver) bool {
-		w1 := sw.weighted[max.MountPoint]
-		w2 := sw.weighted[cur.MountPoint]
-		return cur.FreeSpace-w2 > max.FreeSpace-w1
+		left1 := sw.left(max)
+		left2 := sw.left(cur)
+		return left2 > left1 || left2 == left1 && cur.FreeSpace > max.FreeSpace
 	})
 	if sw.weighted[last.MountPoint] += sw.factor; sw.weighted[last.MountPoint] > last.FreeSpace {
 		sw.weighted[last.MountPoint] /= sw.factor
diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index 0e0f520..48c7d73 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,7 @@ type Driver struct {
 }
 
 type DriverManager struct {
+	mu       sync.RWMutex // mu protects drivers, the elements are never changed
 	drivers  []*Driver
 	balancer DriverBalancer
 	Excludes set.Set
@@ -61,9 +63,17 @@ func (dm *DriverManager) Update() {
 	if len(info) == 0 {
 		logs.Std().Errorf("not found any availeble mountpoints!")
 	}
+	dm.mu.Lock()
+	defer dm.mu.Unlock()
 	dm.drivers = info
 }
 
+func (dm *DriverManager) getDrivers() []*Driver {
+	dm.mu.RLock()
+	defer dm.mu.RUnlock()
+	return dm.drivers
+}
+
 func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 	ctx, cancel := context.WithCancel(context.Background())
 	stop = cancel
@@ -84,11 +94,11 @@ func (dm *DriverManager) StartAutoUpdate() (stop func()) {
 }
 
 func (dm *DriverManager) SelectDriver() (*Driver, error) {
-	return dm.balancer.Select(dm.drivers)
+	return dm.balancer.Select(dm.getDrivers())
 }
 
 func (dm *DriverManager) SelectMountPointFallback(fb string) string {
-	d, err := dm.balancer.Select(dm.drivers)
+	d, err := dm.balancer.Select(dm.getDrivers())
 	if err != nil {
 		return fb
 	}
@@ -96,7 +106,7 @@ func (dm *DriverManager) SelectMountPointFallback(fb string) string {
 }
 
 func (dm *DriverManager) IsPathExist(path string) bool {
-	for _, d := range dm.drivers {
+	for _, d := range dm.getDrivers() {
 		if _, err := os.Stat(filepath.Join(d.MountPoint, path)); err == nil {
 			return true
 		}
@@ -105,7 +115,7 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 }
 
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
-	for _, d := range dm.drivers {
+	for _, d := range dm.getDrivers() {
 		fullPath := filepath.Join(d.MountPoint, path)
 		if info, err := os.Stat(fullPath); err == nil && info.Mode().IsRegular() {
 			return fullPath, nil
@@ -115,8 +125,9 @@ func (dm *DriverManager) FindMountPath(path string) (string, error) {
 }
 
 func (dm *DriverManager) GetAllMountPoint() []string {
-	res := make([]string, 0, len(dm.drivers))
-	for _, driver := range dm.drivers {
+	drivers := dm.getDrivers()
+	res := make([]string, 0, len(drivers))
+	for _, driver := range drivers {
 		res = append(res, driver.MountPoint)
 	}
 	return res
-- 
2.43.0


From 5944858ae5b58d3dea3a4c12a326bdf4740a7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 37/66] fix: a broken compressed write must release its writer

---
 .../internal/usecase/service/objects_service.go   | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 2797824..9ff0416 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -38,7 +38,7 @@ type keyLocks struct {
 }
 
 type keyLock struct {
-	sync.Mutex
+	held  chan struct{}
 	users int
 }
 
@@ -49,14 +49,14 @@ func (kl *keyLocks) lock(key string) (unlock func()) {
 		if kl.locks == nil {
 			kl.locks = make(map[string]*keyLock)
 		}
-		lock = &keyLock{}
+		lock = &keyLock{held: make(chan struct{}, 1)}
 		kl.locks[key] = lock
 	}
 	lock.users++
 	kl.mu.Unlock()
-	lock.Lock()
+	lock.held <- struct{}{}
 	return func() {
-		lock.Unlock()
+		<-lock.held
 		kl.mu.Lock()
 		if lock.users--; lock.users == 0 {
 			delete(kl.locks, key)
@@ -380,10 +380,11 @@ func AppendFileCompress(fullPath string, fileStream io.Reader, bufSize int) (int
 	blockSize := math.MinInt(2*datasize.MB.Int(), math.MaxInt(bufSize, 4*datasize.KB.Int()))
 	wt := s2.NewWriter(file, s2.WriterBetterCompression(), s2.WriterBlockSize(blockSize))
 	n, err := io.CopyBuffer(wt, fileStream, make([]byte, bufSize))
-	if err != nil {
-		return n, err
+	// must be closed in any case, it has a goroutine
+	if inner := wt.Close(); err == nil {
+		err = inner
 	}
-	return n, wt.Close()
+	return n, err
 }
 
 // WriteFileCompress append data to file compressing by s2 and work with COW
-- 
2.43.0


From c26f7347abcb43a69092748d12f91ad304fe2275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 38/66] fix: a migration must not lose shards and report its
 failures

---
 .../controller/grpc/migration_server.go       |  21 ++-
 .../usecase/service/migration_service.go      | 123 ++++++++++++------
 .../internal/usecase/webapi/meta_server.go    |   1 +
 3 files changed, 98 insertions(+), 47 deletions(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index c9b6327..a4737ad 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -12,6 +12,7 @@ import (
 	"objectserver/internal/usecase/service"
 	"os"
 	"sync"
+	"sync/atomic"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
@@ -28,13 +29,17 @@ func NewMigrationServer(service *service.MigrationService) *MigrationServer {
 }
 
 func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServer) (err error) {
-	var file io.WriteCloser
+	var file *service.ReceivingFile
 	var data *pb.ObjectData
-	defer util.CloseAndLog(file)
 	logs.Std().Debug("start receive data...")
 	for {
 		data, err = stream.Recv()
-		if err == io.EOF {
+		if err == io.EOF && file != nil {
+			received := file
+			file = nil
+			if err = received.Store(); err != nil {
+				break
+			}
 			return stream.SendMsg(&pb.Response{Success: true})
 		}
 		if err != nil {
@@ -58,6 +63,9 @@ func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServ
 			break
 		}
 	}
+	if file != nil {
+		file.Abort()
+	}
 	logs.Std().Errorf("receive data err: %s", err.Error())
 	return stream.SendAndClose(&pb.Response{Success: false, Message: err.Error()})
 }
@@ -132,23 +140,24 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 		cliMap[k] = pb.NewObjectMigrationClient(cc)
 	}
 	wg := sync.WaitGroup{}
-	success := true
+	failNum := atomic.Int32{}
 	// sending request to all servers
 	for k, v := range sizeMap {
 		wg.Add(1)
 		go func(key string, value int64) {
-			defer graceful.Recover()
 			defer wg.Done()
+			defer graceful.Recover(func(string) { failNum.Add(1) })
 			if _, inner := cliMap[key].RequireSend(context.Background(), &pb.RequiredInfo{
 				RequiredSize:  value,
 				TargetAddress: curLocate,
 			}); inner != nil {
-				success = false
+				failNum.Add(1)
 				logs.Std().Error(inner)
 			}
 		}(k, v)
 	}
 	wg.Wait()
+	success := failNum.Load() == 0
 	return &pb.Response{
 		Success: success,
 		Message: util.IfElse(success, "ok", "see logs for detail"),
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 25e6041..6bdbb5e 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -19,10 +19,12 @@ import (
 	"math"
 	"net/http"
 	"objectserver/internal/db"
+	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/webapi"
 	"os"
 	"path/filepath"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -57,7 +59,13 @@ func (ms *MigrationService) getPeersCapacity() map[string]int64 {
 			msLog.Errorf("get capacity from %s err: %s", ip, err)
 			continue
 		}
-		res[ip] = util.ToInt64(resp.Header.Get("Capacity"))
+		util.LogErr(resp.Body.Close())
+		capacity, err := strconv.ParseInt(resp.Header.Get("Capacity"), 10, 64)
+		if err != nil {
+			msLog.Errorf("get capacity from %s err: %s", ip, err)
+			continue
+		}
+		res[ip] = capacity
 	}
 	return res
 }
@@ -74,9 +82,6 @@ func (ms *MigrationService) DeviationValues(join bool) (map[string]int64, error)
 	for _, v := range capMap {
 		total += float64(v)
 	}
-	if total == 0 {
-		return nil, errors.New("total cap is zero")
-	}
 	avg := int64(math.Ceil(total / float64(size)))
 	res := make(map[string]int64, len(capMap))
 	for k, v := range capMap {
@@ -84,9 +89,7 @@ func (ms *MigrationService) DeviationValues(join bool) (map[string]int64, error)
 			res[k] = v
 		}
 	}
-	if len(res) == 0 {
-		return nil, fmt.Errorf("non avaliable object servers")
-	}
+	// may be empty, if nothing needs to be moved
 	msLog.Debugf("DeviationValues: %+v", res)
 	return res, nil
 }
@@ -114,13 +117,14 @@ func (ms *MigrationService) writeStream(stream pb.ObjectMigration_ReceiveDataCli
 		}
 	}()
 	var n int
-	buf := make([]byte, xmath.MinNumber(size, int64(4*datasize.MB)))
-	for {
+	buf := make([]byte, xmath.MaxNumber(1, xmath.MinNumber(size, int64(4*datasize.MB))))
+	for sent := false; ; sent = true {
 		n, err = file.Read(buf)
-		if err == io.EOF {
+		// the first message tells the name, even if there is no content
+		if err == io.EOF && sent {
 			break
 		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("read file %s err: %s", name, err)
 		}
 		if err = stream.Send(&pb.ObjectData{
@@ -139,7 +143,9 @@ func (ms *MigrationService) writeStream(stream pb.ObjectMigration_ReceiveDataCli
 
 func (ms *MigrationService) sendFileTo(path string, client pb.ObjectMigrationClient, info *pb.ObjectInfo) error {
 	// open stream
-	stream, err := client.ReceiveData(context.Background())
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+	stream, err := client.ReceiveData(ctx)
 	if err != nil {
 		return fmt.Errorf("create stream err: %w", err)
 	}
@@ -187,8 +193,8 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 	success := true
 	dg := util.LimitDoneGroup(128)
 	go func() {
-		defer graceful.Recover(func(string) { success = false })
 		defer dg.Close()
+		defer graceful.Recover(func(string) { success = false })
 		cur := slices.First(addrs)
 		slices.RemoveFirst(&addrs)
 		leftSize := sizeMap[cur]
@@ -199,7 +205,7 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 					msLog.Errorf("walk path %s err: %s, will skip this path", path, err)
 					return nil
 				}
-				if info.IsDir() {
+				if info.IsDir() || strings.HasPrefix(info.Name(), entity.TempKeyPrefix) {
 					return nil
 				}
 				client := clientMap[cur]
@@ -207,6 +213,7 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 				dg.Todo()
 				go func(toAddr string) {
 					defer dg.Done()
+					defer graceful.Recover(func(msg string) { dg.Errors(errors.New(msg)) })
 					if inner := ms.sendFileTo(path, client, &pb.ObjectInfo{
 						FileName:     info.Name(),
 						Size:         info.Size(),
@@ -215,15 +222,11 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 						dg.Errors(inner)
 						return
 					}
-					// remove file async if transfer success
-					go func() {
-						defer graceful.Recover()
-						metric[toAddr].Add(1)
-						// remove local file
-						if inner := Delete(info.Name()); inner != nil {
-							msLog.Errorf("migrate %s success, but delete fail: %s", path, err)
-						}
-					}()
+					metric[toAddr].Add(1)
+					// remove local file if transfer success
+					if inner := Delete(info.Name()); inner != nil {
+						dg.Errors(fmt.Errorf("migrate %s success, but delete fail: %w", path, inner))
+					}
 				}(cur)
 				// switch to next server if already exceeds left size
 				if leftSize -= info.Size(); leftSize <= 0 {
@@ -275,14 +278,15 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if statInfo.Size() != data.Size {
 		return fmt.Errorf("file %s size excpect %d, actual %d", data.FileName, data.Size, statInfo.Size())
 	}
-	// add to capacity db
-	pool.ObjectCap.AddCap(data.Size)
 	newLoc, ok := pool.Discovery.GetService(pool.Config.Registry.Name, pool.Config.Registry.SID())
 	if !ok {
 		return fmt.Errorf("server unregister yet")
 	}
 	idx := strings.LastIndexByte(data.FileName, '.')
-	seq := util.ToInt(data.FileName[idx+1:])
+	seq, err := strconv.Atoi(data.FileName[idx+1:])
+	if idx < 0 || err != nil {
+		return fmt.Errorf("file %s is not named as a shard", data.FileName)
+	}
 	hash := data.FileName[:idx]
 	// get metadata locations of file
 	var wg sync.WaitGroup
@@ -294,8 +298,8 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	for _, addr := range servs {
 		wg.Add(1)
 		go func(ip string) {
-			defer graceful.Recover()
 			defer wg.Done()
+			defer graceful.Recover(func(string) { failNum.Add(1) })
 			inner := webapi.UpdateVersionLocates(ip, hash, seq, newLoc)
 			// ignore not found failure
 			if response.CheckErrStatus(http.StatusNotFound, inner) {
@@ -308,29 +312,66 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 		}(addr)
 	}
 	wg.Wait()
-	if fails := failNum.Load(); fails >= int32(xmath.CeilDiv(len(servs), 2)) {
+	// each of them may be the only one that knows the object
+	if fails := failNum.Load(); fails > 0 {
 		return fmt.Errorf("too much failures when updating metadata (%d/%d)", fails, len(servs))
 	}
 	msLog.Debugf("success finish object %s", data.FileName)
 	return nil
 }
 
-func (ms *MigrationService) OpenFile(name string, size int64) (*os.File, error) {
-	path, ok := FindRealStoragePath(name)
-	if !ok {
-		path = filepath.Join(pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint), pool.Config.StoragePath, name)
-		util.LogErrWithPre("path-cache update", pool.PathDB.Put(name, path))
-	}
-	stat, err := os.Stat(path)
-	if err == nil {
+// ReceivingFile is not visible as an object until it is stored
+type ReceivingFile struct {
+	*os.File
+	name       string
+	size       int64
+	mountPoint string
+}
+
+// OpenFile returns os.ErrExist if the file has been received already
+func (ms *MigrationService) OpenFile(name string, size int64) (*ReceivingFile, error) {
+	if path, ok := FindRealStoragePath(name); ok {
 		// if size equals, see as existed
-		if stat.Size() == size {
+		if stat, err := os.Stat(path); err == nil && stat.Size() == size {
 			return nil, os.ErrExist
 		}
-		// some file may migrate failure. remove it if exists.
-		if err = os.Remove(path); err != nil {
-			return nil, err
+	}
+	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
+	tempPath := filepath.Join(mp, pool.Config.TempPath, GenerateTempID())
+	file, err := os.OpenFile(tempPath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	if err != nil {
+		return nil, err
+	}
+	return &ReceivingFile{File: file, name: name, size: size, mountPoint: mp}, nil
+}
+
+// Store makes the file an object if it is complete. It must not be used afterwards.
+func (f *ReceivingFile) Store() error {
+	stat, err := f.Stat()
+	if err == nil && stat.Size() != f.size {
+		err = fmt.Errorf("file %s size excpect %d, actual %d", f.name, f.size, stat.Size())
+	}
+	if err != nil {
+		f.Abort()
+		return err
+	}
+	if err = f.Close(); err == nil {
+		// what is stored with another size is replaced
+		if path, ok := FindRealStoragePath(f.name); ok {
+			if stat, err := os.Stat(path); err == nil && stat.Size() != f.size {
+				util.LogErr(Delete(f.name))
+			}
 		}
+		err = storeFile(f.File.Name(), f.mountPoint, f.name)
 	}
-	return os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	if err != nil {
+		util.LogErr(os.RemoveAll(f.File.Name()))
+	}
+	return err
+}
+
+// Abort removes the file
+func (f *ReceivingFile) Abort() {
+	util.LogErr(f.Close())
+	util.LogErr(os.RemoveAll(f.File.Name()))
 }
diff --git a/src/objectserver/internal/usecase/webapi/meta_server.go b/src/objectserver/internal/usecase/webapi/meta_server.go
index 27b5336..8cb444f 100644
--- a/src/objectserver/internal/usecase/webapi/meta_server.go
+++ b/src/objectserver/internal/usecase/webapi/meta_server.go
@@ -44,6 +44,7 @@ func UpdateVersionLocates(ip, versionHash string, shardIndex int, locate string)
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
-- 
2.43.0


From 7aa1f76e0779317a2d8afccb298253141e40e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 39/66] fix: the layout an object is written with must be the
 one it is read with

---
 src/apiserver/config/config.go            | 15 +++++++++++++++
 src/apiserver/internal/entity/metadata.go |  8 ++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index f65fe02..812ea1e 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -8,6 +8,7 @@ import (
 	"common/logs"
 	"common/performance"
 	"common/registry"
+	"common/util/math"
 	"os"
 	"time"
 
@@ -97,6 +98,20 @@ func (r *RsConfig) ShardSize(totalSize int64) int {
 	return int((totalSize + dsNum - 1) / dsNum)
 }
 
+// AlignBlock makes the block size a multiple of the network package size, but not larger than the object
+func (r *RsConfig) AlignBlock(objectSize int64) {
+	if r.DataShards <= 0 {
+		return
+	}
+	if i := r.BlockSize() % cst.OS.NetPkgSize; i > 0 {
+		newSize := math.MinInt(r.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
+		// an object may have fewer bytes than shards
+		if r.BlockPerShard = newSize / r.DataShards; r.BlockPerShard < 1 {
+			r.BlockPerShard = 1
+		}
+	}
+}
+
 type TLSConfig struct {
 	Enabled        bool   `yaml:"enabled" env:"ENABLED"`
 	ServerCertFile string `yaml:"server-cert-file" env:"SERVER_CERT_FILE"`
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 0d31256..842d5f9 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -2,8 +2,6 @@ package entity
 
 import (
 	"apiserver/config"
-	"common/cst"
-	"common/util/math"
 )
 
 type VerMode int32
@@ -107,12 +105,10 @@ func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg conf
 	case ECReedSolomon:
 		cfg.ReedSolomon.DataShards = b.DataShards
 		cfg.ReedSolomon.ParityShards = b.ParityShards
-		if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
-			cfg.ReedSolomon.BlockPerShard = newSize / cfg.ReedSolomon.DataShards
-		}
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
+	// must be the same layout as the one used to read the object
+	cfg.ReedSolomon.AlignBlock(objectSize)
 	return
 }
-- 
2.43.0


From 952563fc2b734f525ed40a1de76d57b1b5467d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 40/66] fix: an upload must not leave temporary objects nor
 commit incomplete shards

---
 .../usecase/service/copy_put_stream.go        | 18 ++++++++--
 .../internal/usecase/service/put_stream.go    | 34 +++++++++++++++----
 .../internal/usecase/service/rs_encoder.go    | 18 +++++++---
 .../internal/usecase/service/rs_put_stream.go | 31 +++++++++++++----
 4 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 01a1b0b..9eb06a4 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -17,6 +17,9 @@ type CopyPutStream struct {
 }
 
 func NewCopyPutStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*CopyPutStream, error) {
+	if len(opt.Locates) < rpCfg.CopiesCount {
+		return nil, fmt.Errorf("dataServers ip number mismatch %v", rpCfg.CopiesCount)
+	}
 	writers := make([]io.WriteCloser, rpCfg.CopiesCount)
 	wg := util.NewDoneGroup()
 	defer wg.Close()
@@ -32,7 +35,9 @@ func NewCopyPutStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*Copy
 			}
 		}(i)
 	}
+	wg.Wait()
 	if err := wg.WaitUntilError(); err != nil {
+		discardStreams(writers)
 		return nil, err
 	}
 	return &CopyPutStream{
@@ -58,6 +63,8 @@ func (c *CopyPutStream) Flush() (err error) {
 			}
 		}(wt)
 	}
+	// the cache must not be reused while any copy is still being written
+	dg.Wait()
 	return dg.WaitUntilError()
 }
 
@@ -93,8 +100,11 @@ func (c *CopyPutStream) Close() error {
 }
 
 func (c *CopyPutStream) Commit(ok bool) error {
-	if err := c.Flush(); err != nil {
-		return err
+	var flushErr error
+	if ok {
+		// nothing can be committed without its tail
+		flushErr = c.Flush()
+		ok = flushErr == nil
 	}
 	wg := util.NewDoneGroup()
 	defer wg.Close()
@@ -109,5 +119,9 @@ func (c *CopyPutStream) Commit(ok bool) error {
 			}(w.(Committer))
 		}
 	}
+	wg.Wait()
+	if flushErr != nil {
+		return flushErr
+	}
 	return wg.WaitUntilError()
 }
diff --git a/src/apiserver/internal/usecase/service/put_stream.go b/src/apiserver/internal/usecase/service/put_stream.go
index 625e886..53ab856 100644
--- a/src/apiserver/internal/usecase/service/put_stream.go
+++ b/src/apiserver/internal/usecase/service/put_stream.go
@@ -6,6 +6,8 @@ import (
 	"bytes"
 	"common/graceful"
 	"common/logs"
+	"common/util"
+	"io"
 	"sync/atomic"
 )
 
@@ -49,20 +51,38 @@ func (p *PutStream) Write(b []byte) (n int, err error) {
 	return len(b), nil
 }
 
+// discard IO: remove the temporary data in background
+func (p *PutStream) discard() {
+	go func() {
+		defer graceful.Recover()
+		if err := webapi.DeleteTmpObject(p.Locate, p.tmpId); err != nil {
+			logs.Std().Error(err)
+		}
+	}()
+}
+
+// discardStreams discard those streams which were created
+func discardStreams(writers []io.WriteCloser) {
+	for _, w := range writers {
+		if cm, ok := w.(Committer); ok {
+			util.LogErr(cm.Commit(false))
+		}
+	}
+}
+
 // Commit IO: send commit message and close stream
 func (p *PutStream) Commit(ok bool) error {
 	if p.committed.CompareAndSwap(false, true) {
 		if !ok {
-			go func() {
-				defer graceful.Recover()
-				if err := webapi.DeleteTmpObject(p.Locate, p.tmpId); err != nil {
-					logs.Std().Error(err)
-				}
-			}()
+			p.discard()
 			return nil
 		}
 
-		return webapi.PutTmpObject(p.Locate, p.tmpId, p.compress)
+		err := webapi.PutTmpObject(p.Locate, p.tmpId, p.compress)
+		if err != nil {
+			p.discard()
+		}
+		return err
 	}
 	return nil
 }
diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index 75441e0..fad136c 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -4,6 +4,7 @@ import (
 	"apiserver/config"
 	"common/util"
 	"errors"
+	"fmt"
 	"github.com/klauspost/reedsolomon"
 	"io"
 	"sync/atomic"
@@ -16,14 +17,20 @@ type rsEncoder struct {
 	rsConfig config.RsConfig
 }
 
-func NewEncoder(wrs []io.WriteCloser, rsCfg *config.RsConfig) *rsEncoder {
-	enc, _ := reedsolomon.New(rsCfg.DataShards, rsCfg.ParityShards, reedsolomon.WithAutoGoroutines(rsCfg.BlockPerShard))
+func NewEncoder(wrs []io.WriteCloser, rsCfg *config.RsConfig) (*rsEncoder, error) {
+	enc, err := reedsolomon.New(rsCfg.DataShards, rsCfg.ParityShards, reedsolomon.WithAutoGoroutines(rsCfg.BlockPerShard))
+	if err != nil {
+		return nil, err
+	}
+	if rsCfg.BlockPerShard <= 0 {
+		return nil, fmt.Errorf("invalid block size %d", rsCfg.BlockPerShard)
+	}
 	return &rsEncoder{
 		writers:  wrs,
 		enc:      enc,
 		cache:    make([]byte, 0, rsCfg.BlockSize()),
 		rsConfig: *rsCfg,
-	}
+	}, nil
 }
 
 func (e *rsEncoder) Close() error {
@@ -108,5 +115,8 @@ func (e *rsEncoder) Flush() (int, error) {
 		}(i, v)
 	}
 
-	return int(size), dg.WaitUntilError()
+	// shards are part of the cache, it must not be reused while any of them is still being written
+	dg.Wait()
+	err = dg.WaitUntilError()
+	return int(size), err
 }
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 2921064..3d8aec3 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -31,23 +31,36 @@ func NewRSPutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSPutStream, er
 			writers[idx] = stream
 		}(i)
 	}
-	if e := wg.WaitUntilError(); e != nil {
-		return nil, e
+	wg.Wait()
+	e := wg.WaitUntilError()
+	if e == nil {
+		var enc *rsEncoder
+		if enc, e = NewEncoder(writers, rsCfg); e == nil {
+			return &RSPutStream{enc}, nil
+		}
 	}
-	return &RSPutStream{NewEncoder(writers, rsCfg)}, nil
+	discardStreams(writers)
+	return nil, e
 }
 
-func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg *config.RsConfig) *RSPutStream {
+func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg *config.RsConfig) (*RSPutStream, error) {
 	writers := make([]io.WriteCloser, len(ids))
 	for i := range writers {
 		writers[i] = newExistedPutStream(ips[i], fmt.Sprintf("%s.%d", hash, i), ids[i], compress)
 	}
-	return &RSPutStream{NewEncoder(writers, rsCfg)}
+	enc, err := NewEncoder(writers, rsCfg)
+	if err != nil {
+		return nil, err
+	}
+	return &RSPutStream{enc}, nil
 }
 
 func (p *RSPutStream) Commit(ok bool) error {
-	if _, err := p.Flush(); err != nil {
-		return err
+	var flushErr error
+	if ok {
+		// nothing can be committed without its tail
+		_, flushErr = p.Flush()
+		ok = flushErr == nil
 	}
 
 	wg := util.NewDoneGroup()
@@ -64,5 +77,9 @@ func (p *RSPutStream) Commit(ok bool) error {
 			}
 		}(w)
 	}
+	wg.Wait()
+	if flushErr != nil {
+		return flushErr
+	}
 	return wg.WaitUntilError()
 }
-- 
2.43.0


From 336453f5c61a45f5b74cb9f60293c792d29db22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 41/66] fix: erasure coded reads must return exact data and
 record only completed repairs

---
 .../internal/usecase/service/get_stream.go    |   1 +
 .../usecase/service/repair_selector.go        |  57 +++++++
 .../internal/usecase/service/rs_decoder.go    | 122 +++++++++++----
 .../internal/usecase/service/rs_get_stream.go | 146 +++++++++++++-----
 .../internal/usecase/service/temp_stream.go   |   1 +
 5 files changed, 260 insertions(+), 67 deletions(-)
 create mode 100644 src/apiserver/internal/usecase/service/repair_selector.go

diff --git a/src/apiserver/internal/usecase/service/get_stream.go b/src/apiserver/internal/usecase/service/get_stream.go
index a2ad473..bb36d67 100644
--- a/src/apiserver/internal/usecase/service/get_stream.go
+++ b/src/apiserver/internal/usecase/service/get_stream.go
@@ -37,6 +37,7 @@ func (g *GetStream) request(offset int) error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
 		return fmt.Errorf("get object from dataServer return http code %v", resp.StatusCode)
 	}
 	g.reader = resp.Body
diff --git a/src/apiserver/internal/usecase/service/repair_selector.go b/src/apiserver/internal/usecase/service/repair_selector.go
new file mode 100644
index 0000000..d11ba08
--- /dev/null
+++ b/src/apiserver/internal/usecase/service/repair_selector.go
@@ -0,0 +1,57 @@
+package service
+
+import (
+	"apiserver/internal/usecase"
+	"apiserver/internal/usecase/logic"
+	"common/util/slices"
+)
+
+// repairSelector chooses servers for lost shards or copies, it prefers servers without any healthy one
+type repairSelector struct {
+	free   []string
+	others []string
+}
+
+func newRepairSelector(healthy []string) *repairSelector {
+	rs := &repairSelector{}
+	for _, ip := range logic.NewDiscovery().GetDataServers() {
+		if slices.Search(healthy, ip) >= 0 {
+			rs.others = append(rs.others, ip)
+		} else {
+			rs.free = append(rs.free, ip)
+		}
+	}
+	return rs
+}
+
+// try calls fn with servers until it succeeds, that server becomes a used one
+func (rs *repairSelector) try(fn func(ip string) error) error {
+	var err error = usecase.ErrServiceUnavailable
+	var failed []string
+	for len(rs.free) > 0 {
+		var ip string
+		rs.free, ip = popServer(rs.free)
+		if err = fn(ip); err == nil {
+			rs.others = append(rs.others, ip)
+			rs.free = append(rs.free, failed...)
+			return nil
+		}
+		failed = append(failed, ip)
+	}
+	rs.free = failed
+	rest := append([]string(nil), rs.others...)
+	for len(rest) > 0 {
+		var ip string
+		rest, ip = popServer(rest)
+		if err = fn(ip); err == nil {
+			return nil
+		}
+	}
+	return err
+}
+
+func popServer(ips []string) ([]string, string) {
+	lb := logic.NewDiscovery().NewIPSelector(ips)
+	ip := lb.Select()
+	return lb.IPs, ip
+}
diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 381a802..6e23748 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -5,6 +5,8 @@ import (
 	"apiserver/internal/usecase"
 	"common/graceful"
 	"common/logs"
+	"common/util"
+	"fmt"
 	"io"
 	"sync"
 
@@ -21,10 +23,62 @@ type rsDecoder struct {
 	cursor       int
 	total        int64
 	size         int64
+	rewrites     []*shardRewrite
 }
 
-func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
-	enc, _ := reedsolomon.New(rsCfg.DataShards, rsCfg.ParityShards, reedsolomon.WithAutoGoroutines(rsCfg.BlockPerShard))
+// shardRewrite stores a lost shard in order of blocks
+type shardRewrite struct {
+	wt   io.Writer
+	last chan struct{} // closed when the last block is written
+	err  error         // only valid after last is closed
+}
+
+// next writes bt after all blocks before
+func (sr *shardRewrite) next(bt []byte) {
+	prev, done := sr.last, make(chan struct{})
+	sr.last = done
+	go func() {
+		defer close(done)
+		defer func() {
+			if p := recover(); p != nil {
+				graceful.PrintStacks(p)
+				sr.err = fmt.Errorf("rewrite lost shard panic: %v", p)
+			}
+		}()
+		if prev != nil {
+			<-prev
+		}
+		if sr.err != nil {
+			return
+		}
+		if _, sr.err = sr.wt.Write(bt); sr.err != nil {
+			logs.Std().Errorf("rewrite lost shards fail: %s", sr.err)
+		}
+	}()
+}
+
+// wait until all blocks are written
+func (sr *shardRewrite) wait() error {
+	if sr.last != nil {
+		<-sr.last
+	}
+	return sr.err
+}
+
+func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) (*rsDecoder, error) {
+	enc, err := reedsolomon.New(rsCfg.DataShards, rsCfg.ParityShards, reedsolomon.WithAutoGoroutines(rsCfg.BlockPerShard))
+	if err != nil {
+		return nil, err
+	}
+	if rsCfg.BlockPerShard <= 0 {
+		return nil, fmt.Errorf("invalid block size %d", rsCfg.BlockPerShard)
+	}
+	rewrites := make([]*shardRewrite, len(writes))
+	for i, w := range writes {
+		if w != nil {
+			rewrites[i] = &shardRewrite{wt: w}
+		}
+	}
 	buf := make([]byte, rsCfg.FullSize())
 	return &rsDecoder{
 		readers:      readers,
@@ -34,7 +88,8 @@ func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *conf
 		cache:        buf[:0], // let cache and shardsBuffer using same address to reduce memory allocate and usage
 		shardsBuffer: buf,
 		rsCfg:        *rsCfg,
-	}
+		rewrites:     rewrites,
+	}, nil
 }
 
 func (d *rsDecoder) cacheSize() int {
@@ -42,6 +97,9 @@ func (d *rsDecoder) cacheSize() int {
 }
 
 func (d *rsDecoder) Read(bt []byte) (int, error) {
+	if len(bt) == 0 {
+		return 0, nil
+	}
 	if d.cacheSize() == 0 {
 		// reset cache and cursor
 		d.cache = d.cache[:0]
@@ -68,6 +126,12 @@ func (d *rsDecoder) getData() error {
 		return usecase.ErrOverRead
 	}
 
+	// all shards of a block have the same length, only the last block can be shorter
+	length := d.rsCfg.BlockPerShard
+	if remain := d.size - d.total; remain < int64(d.rsCfg.BlockSize()) {
+		length = d.rsCfg.ShardSize(remain)
+	}
+
 	// read shards
 	var wg sync.WaitGroup
 	shards := make([][]byte, d.rsCfg.AllShards())
@@ -76,17 +140,23 @@ func (d *rsDecoder) getData() error {
 			continue
 		}
 		// split shardsBuffer to avoid new memory alloc
-		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : (i+1)*d.rsCfg.BlockPerShard]
+		buf := d.shardsBuffer[i*d.rsCfg.BlockPerShard : i*d.rsCfg.BlockPerShard+length]
 		wg.Add(1)
 		go func(idx int) {
-			defer graceful.Recover()
 			defer wg.Done()
-			n, err := io.ReadFull(d.readers[idx], shards[idx])
-			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-				logs.Std().Debugf("read shard %d err: %s", idx, err)
-				shards[idx] = nil
+			defer graceful.Recover()
+			reader := d.readers[idx]
+			// a shard that fails once has lost its position
+			d.readers[idx] = nil
+			if _, err := io.ReadFull(reader, buf); err != nil {
+				logs.Std().Errorf("read shard %d err: %s", idx, err)
+				if cl, ok := reader.(io.Closer); ok {
+					util.LogErr(cl.Close())
+				}
+				return
 			}
-			shards[idx] = shards[idx][:n]
+			d.readers[idx] = reader
+			shards[idx] = buf
 		}(i)
 	}
 	wg.Wait()
@@ -96,26 +166,12 @@ func (d *rsDecoder) getData() error {
 		return err
 	}
 
-	// save lost shards
-	var err error
-	go func() {
-		defer graceful.Recover()
-		for i, w := range d.writers {
-			if w == nil {
-				continue
-			}
-			wg.Add(1)
-			go func(idx int, wt io.Writer) {
-				defer graceful.Recover()
-				defer wg.Done()
-				if _, inner := wt.Write(shards[idx]); inner != nil {
-					err = inner
-					logs.Std().Errorf("rewrite lost shards fail: %s", inner)
-					return
-				}
-			}(i, w)
+	// save lost shards, they were reconstructed into their own memory
+	for i, sr := range d.rewrites {
+		if sr != nil {
+			sr.next(shards[i])
 		}
-	}()
+	}
 
 	// combine data shards
 	for i := range shards[:d.rsCfg.DataShards] {
@@ -129,8 +185,12 @@ func (d *rsDecoder) getData() error {
 	}
 
 	if !d.rsCfg.RewriteAsync {
-		wg.Wait()
-		return err
+		// a shard that can not be saved does not affect reading
+		for _, sr := range d.rewrites {
+			if sr != nil {
+				util.LogErr(sr.wait())
+			}
+		}
 	}
 
 	return nil
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 4a12272..a106e66 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -2,7 +2,6 @@ package service
 
 import (
 	"apiserver/config"
-	"apiserver/internal/usecase/logic"
 	"bytes"
 	"common/graceful"
 	"common/logs"
@@ -11,11 +10,13 @@ import (
 	"fmt"
 	"io"
 	"sync"
+	"sync/atomic"
 )
 
 type RSGetStream struct {
 	*rsDecoder
 	*StreamOption
+	newLocates []string // locates after lost shards are repaired
 }
 
 type provideStream struct {
@@ -52,35 +53,69 @@ func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream,
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	perSize := rsCfg.ShardSize(option.Size)
-	lb := logic.NewDiscovery().NewDataServSelector()
-	for r := range provideGetStream(option.Hash, option.Locates, perSize, option.Compress) {
+	// the given locates belongs to the metadata
+	locates := make([]string, rsCfg.AllShards())
+	copy(locates, option.Locates)
+	var lost []int
+	for r := range provideGetStream(option.Hash, locates, perSize, option.Compress) {
 		if r.err != nil {
 			logs.Std().Error(r.err)
-			ip := lb.Select()
-			writers[r.index], r.err = NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
-			if r.err != nil {
-				return nil, r.err
-			}
-			// metadata update required
-			option.Locates[r.index] = ip
+			lost = append(lost, r.index)
 		} else {
 			readers[r.index] = r.stream
 		}
 	}
-	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}, nil
+	if len(lost) > rsCfg.ParityShards {
+		return nil, fmt.Errorf("%d of %d shards of %s are lost", len(lost), rsCfg.AllShards(), option.Hash)
+	}
+	if len(lost) > 0 {
+		healthy := make([]string, 0, len(locates))
+		for i, ip := range locates {
+			if readers[i] != nil {
+				healthy = append(healthy, ip)
+			}
+		}
+		sel := newRepairSelector(healthy)
+		for _, idx := range lost {
+			name := fmt.Sprintf("%s.%d", option.Hash, idx)
+			err := sel.try(func(ip string) error {
+				stream, inner := NewPutStream(ip, name, int64(perSize), option.Compress)
+				if inner == nil {
+					writers[idx] = stream
+					// metadata update required
+					locates[idx] = ip
+				}
+				return inner
+			})
+			// still readable without repairing it
+			util.LogErrWithPre("repair "+name, err)
+		}
+	}
+	dec, err := NewDecoder(readers, writers, option.Size, rsCfg)
+	if err != nil {
+		for _, w := range writers {
+			if cm, ok := w.(Committer); ok {
+				util.LogErr(cm.Commit(false))
+			}
+		}
+		return nil, err
+	}
+	return &RSGetStream{rsDecoder: dec, StreamOption: option, newLocates: locates}, nil
 }
 
-func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
+// NewRSTempStream read the data from temporary shards
+func NewRSTempStream(option *StreamOption, ids []string, rsCfg *config.RsConfig) (*RSGetStream, error) {
 	readers := make([]io.Reader, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
-	dsNum := int64(rsCfg.DataShards)
-	perSize := (option.Size + dsNum - 1) / dsNum
-	for idx, loc := range option.Locates {
-		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
+	perSize := rsCfg.ShardSize(option.Size)
+	for idx, id := range ids {
+		readers[idx] = NewTempStream(option.Locates[idx], id, int64(perSize))
+	}
+	dec, err := NewDecoder(readers, writers, option.Size, rsCfg)
+	if err != nil {
+		return nil, err
 	}
-	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}
+	return &RSGetStream{rsDecoder: dec, StreamOption: option}, nil
 }
 
 func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
@@ -111,29 +146,68 @@ func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (g *RSGetStream) Close() error {
+	for _, rd := range g.readers {
+		if cl, ok := rd.(io.Closer); ok {
+			util.LogErr(cl.Close())
+		}
+	}
+	var repairing bool
+	for _, sr := range g.rewrites {
+		repairing = repairing || sr != nil
+	}
+	if !repairing {
+		return nil
+	}
+	if g.rsCfg.RewriteAsync {
+		go func() {
+			defer graceful.Recover()
+			util.LogErrWithPre("rs-get-stream", g.finishRepair())
+		}()
+		return nil
+	}
+	return g.finishRepair()
+}
+
+// finishRepair commits the lost shards that are saved completely and updates their locates
+func (g *RSGetStream) finishRepair() error {
+	// shards are complete only if everything was read
+	complete := g.total == g.size
+	locates := make([]string, len(g.newLocates))
+	copy(locates, g.Locates)
 	wg := util.NewDoneGroup()
 	defer wg.Close()
-	var needUpdate bool
-	for _, w := range g.writers {
-		if util.InstanceOf[Committer](w) {
-			needUpdate = true
-			wg.Todo()
-			go func(cm Committer) {
-				defer wg.Done()
-				if e := cm.Commit(true); e != nil {
-					wg.Error(e)
-				}
-			}(w.(Committer))
+	var needUpdate atomic.Bool
+	for i, sr := range g.rewrites {
+		if sr == nil {
+			continue
 		}
+		wg.Todo()
+		go func(idx int, sr *shardRewrite) {
+			defer wg.Done()
+			ok := sr.wait() == nil && complete
+			cm, is := sr.wt.(Committer)
+			if !is {
+				return
+			}
+			if e := cm.Commit(ok); e != nil {
+				wg.Error(e)
+				return
+			}
+			if ok {
+				locates[idx] = g.newLocates[idx]
+				needUpdate.Store(true)
+			}
+		}(i, sr)
 	}
-	if err := wg.WaitUntilError(); err != nil {
-		return err
-	}
-	if needUpdate {
+	wg.Wait()
+	err := wg.WaitUntilError()
+	if needUpdate.Load() {
 		if g.Updater == nil {
 			return errors.New("locates updater required but nil")
 		}
-		return g.Updater(g.Locates)
+		if e := g.Updater(locates); e != nil {
+			return e
+		}
 	}
-	return nil
+	return err
 }
diff --git a/src/apiserver/internal/usecase/service/temp_stream.go b/src/apiserver/internal/usecase/service/temp_stream.go
index d6a62cd..ab721eb 100644
--- a/src/apiserver/internal/usecase/service/temp_stream.go
+++ b/src/apiserver/internal/usecase/service/temp_stream.go
@@ -36,6 +36,7 @@ func (ts *tempStream) request() error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
 		return fmt.Errorf("get temp object from dataServer return http code %v", resp.StatusCode)
 	}
 	ts.reader = resp.Body
-- 
2.43.0


From 19ca31485de6141f36272d5077ffa4e44ad486e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 42/66] fix: replicated reads must use every healthy copy and
 repair the lost ones

---
 .../usecase/service/copy_fix_stream.go        |  89 ++++++-----
 .../usecase/service/copy_get_stream.go        | 139 ++++++++++++++----
 2 files changed, 162 insertions(+), 66 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index f72fb47..3f39bdb 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -4,32 +4,37 @@ import (
 	"apiserver/config"
 	"apiserver/internal/usecase/webapi"
 	"bytes"
-	"common/collection/set"
 	"common/graceful"
 	"common/util"
+	"common/util/slices"
 	"errors"
 	"fmt"
 	"strings"
 )
 
 type CopyFixStream struct {
-	fileNames []string
-	locates   []string
-	compress  bool
-	buffer    *bytes.Buffer
-	rpConfig  *config.ReplicationConfig
-	Updater   LocatesUpdater
+	lost     []int
+	hash     string
+	locates  []string
+	size     int64
+	compress bool
+	buffer   *bytes.Buffer
+	rpConfig *config.ReplicationConfig
+	Updater  LocatesUpdater
 }
 
-func NewCopyFixStream(lostNames []string, newLocates []string, opt *StreamOption, cfg *config.ReplicationConfig) (*CopyFixStream, error) {
+// NewCopyFixStream collects data of an object to fix lost copies when it is closed
+func NewCopyFixStream(lost []int, opt *StreamOption, cfg *config.ReplicationConfig) *CopyFixStream {
 	return &CopyFixStream{
-		fileNames: lostNames,
-		locates:   newLocates,
-		rpConfig:  cfg,
-		compress:  opt.Compress,
-		buffer:    bytes.NewBuffer(make([]byte, 0, opt.Size)),
-		Updater:   opt.Updater,
-	}, nil
+		lost:     lost,
+		hash:     opt.Hash,
+		locates:  append([]string(nil), opt.Locates...),
+		size:     opt.Size,
+		rpConfig: cfg,
+		compress: opt.Compress,
+		buffer:   bytes.NewBuffer(make([]byte, 0, opt.Size)),
+		Updater:  opt.Updater,
+	}
 }
 
 func (c *CopyFixStream) Write(bt []byte) (int, error) {
@@ -37,6 +42,10 @@ func (c *CopyFixStream) Write(bt []byte) (int, error) {
 }
 
 func (c *CopyFixStream) Close() error {
+	if int64(c.buffer.Len()) != c.size {
+		// not read completely
+		return nil
+	}
 	wait := c.startFix()
 	if c.rpConfig.CopyAsync {
 		go func() {
@@ -54,29 +63,39 @@ func (c *CopyFixStream) startFix() func() error {
 	go func() {
 		defer dg.Done()
 		data := c.buffer.Bytes()
-		errs := set.NewWriteSyncSet()
-		wg := util.NewWaitGroup()
-		for idx, name := range c.fileNames {
-			wg.Todo()
-			go func(i int, key string) {
-				defer wg.Done()
-				if err := webapi.PutObject(c.locates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
-					errs.Add(fmt.Sprintf("fix %s put-api err: %w", key, err))
-				}
-			}(idx, name)
+		healthy := make([]string, 0, len(c.locates))
+		for i, ip := range c.locates {
+			if slices.Search(c.lost, i) < 0 {
+				healthy = append(healthy, ip)
+			}
 		}
-		wg.Wait()
-		if errs.Size() > 0 {
-			dg.Error(errors.New(strings.Join(set.To[string](errs), ";")))
-			return
+		sel := newRepairSelector(healthy)
+		var errs []string
+		var fixed int
+		for _, idx := range c.lost {
+			key := fmt.Sprint(c.hash, ".", idx)
+			err := sel.try(func(ip string) error {
+				inner := webapi.PutObject(ip, key, c.compress, bytes.NewReader(data))
+				if inner == nil {
+					c.locates[idx] = ip
+					fixed++
+				}
+				return inner
+			})
+			if err != nil {
+				errs = append(errs, fmt.Sprintf("fix %s put-api err: %s", key, err))
+			}
 		}
-		if c.Updater == nil {
-			dg.Error(errors.New("locates updater required but nil"))
-			return
+		// copies that can not be fixed keep their old locates
+		if fixed > 0 {
+			if c.Updater == nil {
+				errs = append(errs, "locates updater required but nil")
+			} else if err := c.Updater(c.locates); err != nil {
+				errs = append(errs, err.Error())
+			}
 		}
-		if err := c.Updater(c.locates); err != nil {
-			dg.Error(err)
-			return
+		if len(errs) > 0 {
+			dg.Error(errors.New(strings.Join(errs, ";")))
 		}
 	}()
 	return dg.WaitUntilError
diff --git a/src/apiserver/internal/usecase/service/copy_get_stream.go b/src/apiserver/internal/usecase/service/copy_get_stream.go
index 894178e..0d37b14 100644
--- a/src/apiserver/internal/usecase/service/copy_get_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_get_stream.go
@@ -2,58 +2,135 @@ package service
 
 import (
 	"apiserver/config"
-	"apiserver/internal/usecase/logic"
-	"common/util"
+	"common/logs"
 	"fmt"
 	"io"
+	"sync"
 )
 
+// CopyGetStream reads one of the healthy copies, continues with another one if it fails
 type CopyGetStream struct {
-	reader io.ReadSeekCloser
-	writer io.WriteCloser
+	readers []*GetStream
+	writer  *CopyFixStream
+	size    int64
+	offset  int64
 }
 
 func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*CopyGetStream, error) {
-	var getStream io.ReadSeekCloser
-	var err error
-	var failIds, newLocates []string
-	lb := logic.NewDiscovery().NewDataServSelector()
-	for idx, loc := range opt.Locates {
-		id := fmt.Sprint(opt.Hash, ".", idx)
-		getStream, err = NewGetStream(loc, id, opt.Size, opt.Compress)
-		if err == nil {
-			break
+	// check all copies
+	streams := make([]*GetStream, len(opt.Locates))
+	var wg sync.WaitGroup
+	for i, loc := range opt.Locates {
+		wg.Add(1)
+		go func(idx int, ip string) {
+			defer wg.Done()
+			stream, err := NewGetStream(ip, fmt.Sprint(opt.Hash, ".", idx), opt.Size, opt.Compress)
+			if err != nil {
+				logs.Std().Error(err)
+				return
+			}
+			streams[idx] = stream
+		}(i, loc)
+	}
+	wg.Wait()
+	var readers []*GetStream
+	var lost []int
+	for idx, stream := range streams {
+		if stream == nil {
+			lost = append(lost, idx)
+		} else {
+			readers = append(readers, stream)
 		}
-		failIds = append(failIds, id)
-		opt.Locates[idx] = lb.Select()
-		newLocates = append(newLocates, opt.Locates[idx])
 	}
-	if len(failIds) == len(opt.Locates) {
+	if len(readers) == 0 {
 		return nil, fmt.Errorf("not found any copies of %s", opt.Hash)
 	}
-	var fixStream io.WriteCloser
-	if len(failIds) > rpCfg.ToleranceLossNum() {
-		fixStream, err = NewCopyFixStream(failIds, newLocates, opt, rpCfg)
-		util.LogErrWithPre("fix copies err", err)
+	var fixStream *CopyFixStream
+	if len(lost) > rpCfg.ToleranceLossNum() {
+		fixStream = NewCopyFixStream(lost, opt, rpCfg)
 	}
 	return &CopyGetStream{
-		reader: getStream,
-		writer: fixStream,
+		readers: readers,
+		writer:  fixStream,
+		size:    opt.Size,
 	}, nil
 }
 
-func (c *CopyGetStream) Read(p []byte) (n int, err error) {
-	n, err = c.reader.Read(p)
-	if c.writer != nil && n > 0 {
-		if n, err = c.writer.Write(p[:n]); err != nil {
-			return
+func (c *CopyGetStream) Read(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+	remain := c.size - c.offset
+	if remain <= 0 {
+		return 0, io.EOF
+	}
+	if int64(len(p)) > remain {
+		p = p[:remain]
+	}
+	for {
+		n, err := c.readers[0].Read(p)
+		if n > 0 {
+			c.offset += int64(n)
+			if c.writer != nil {
+				if _, inner := c.writer.Write(p[:n]); inner != nil {
+					logs.Std().Error(inner)
+					c.writer = nil
+				}
+			}
+			return n, nil
+		}
+		if err == nil {
+			return 0, nil
+		}
+		if err == io.EOF {
+			// ends before the size
+			err = io.ErrUnexpectedEOF
+		}
+		if !c.next() {
+			return 0, err
 		}
 	}
-	return
+}
+
+// next switches to the next healthy copy
+func (c *CopyGetStream) next() bool {
+	for len(c.readers) > 1 {
+		c.readers[0].Close()
+		c.readers = c.readers[1:]
+		_, err := c.readers[0].Seek(c.offset, io.SeekStart)
+		if err == nil {
+			return true
+		}
+		logs.Std().Error(err)
+	}
+	return false
 }
 
 func (c *CopyGetStream) Seek(offset int64, whence int) (int64, error) {
-	return c.reader.Seek(offset, whence)
+	if offset < 0 {
+		return 0, fmt.Errorf("copy get stream only supports forward seek offest")
+	}
+	if whence == io.SeekEnd {
+		return 0, fmt.Errorf("copy get stream only supports SeekStart and SeekCurrent")
+	}
+	if offset == 0 {
+		return 0, nil
+	}
+	if c.offset+offset >= c.size {
+		// nothing left to read
+		c.offset = c.size
+		return offset, nil
+	}
+	n, err := c.readers[0].Seek(offset, whence)
+	if err == nil {
+		c.offset += n
+		return n, nil
+	}
+	c.offset += offset
+	if !c.next() {
+		return 0, err
+	}
+	return offset, nil
 }
 
 func (c *CopyGetStream) Close() (err error) {
@@ -62,7 +139,7 @@ func (c *CopyGetStream) Close() (err error) {
 			err = inner
 		}
 	}
-	if inner := c.reader.Close(); inner != nil {
+	if inner := c.readers[0].Close(); inner != nil {
 		err = inner
 	}
 	return
-- 
2.43.0


From 9f72df708db86d65d332708297896687b7204bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 43/66] fix: an upload must be acknowledged only with a
 complete recorded version

---
 .../internal/controller/http/objects_api.go   | 23 ++++--
 .../usecase/service/object_service.go         | 74 ++++++++++++-------
 .../usecase/service/stream_provider.go        |  1 +
 3 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/src/apiserver/internal/controller/http/objects_api.go b/src/apiserver/internal/controller/http/objects_api.go
index 1bd1801..656740b 100644
--- a/src/apiserver/internal/controller/http/objects_api.go
+++ b/src/apiserver/internal/controller/http/objects_api.go
@@ -3,6 +3,7 @@ package http
 import (
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
+	"bufio"
 	"common/datasize"
 	"common/logs"
 	"common/response"
@@ -74,23 +75,35 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 		return
 	}
 	defer util.CloseAndLog(stream)
+	size := metaData.Versions[0].Size
 	// try seek
 	if tp, ok := req.Range.GetFirstBytes(); ok {
 		if _, err = stream.Seek(tp.First, io.SeekCurrent); err != nil {
 			response.FailErr(err, c)
 			return
 		}
+		if size -= tp.First; size < 0 {
+			size = 0
+		}
 	}
-	// copy to response
-	n, err := io.Copy(c.Writer, stream)
-	if err != nil {
-		logs.Std().Error(err)
+	// errors can only be responded before the first byte
+	reader := bufio.NewReader(stream)
+	if _, err = reader.Peek(1); err != nil && (err != io.EOF || size > 0) {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		response.FailErr(err, c)
 		return
 	}
+	// with the length in advance, a failure while copying is recognizable
 	response.OkHeader(gin.H{
 		"Accept-Ranges":  "bytes",
-		"Content-Length": n,
+		"Content-Length": size,
 	}, c)
+	// copy to response
+	if _, err = io.Copy(c.Writer, reader); err != nil {
+		logs.Std().Error(err)
+	}
 }
 
 func (oc *ObjectsController) ValidatePut(g *gin.Context) {
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 1e4189b..9a61637 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -14,7 +14,6 @@ import (
 	"common/response"
 	"common/util"
 	"common/util/crypto"
-	"common/util/math"
 	"context"
 	"errors"
 	"fmt"
@@ -28,18 +27,13 @@ import (
 )
 
 // getLocateResp raw must like "ip#idx"
-func getLocateResp(raw string) (ip string, idx int) {
-	var err error
+func getLocateResp(raw string) (ip string, idx int, ok bool) {
 	strs := strings.Split(raw, "#")
-	if len(strs) != 2 {
-		panic("err format locating resp: " + raw)
-	}
-	idx, err = strconv.Atoi(strs[1])
-	if err != nil {
-		panic(err)
+	if len(strs) != 2 || strs[0] == "" {
+		return
 	}
-	ip = strs[0]
-	return
+	idx, err := strconv.Atoi(strs[1])
+	return strs[0], idx, err == nil
 }
 
 type ObjectService struct {
@@ -95,10 +89,20 @@ func (o *ObjectService) LocateObject(hash string, shardNum int) ([]string, bool)
 				return nil, false
 			}
 			for _, event := range resp.Events {
-				ip, idx := getLocateResp(string(event.Kv.Value))
+				if event.Type != clientv3.EventTypePut {
+					continue
+				}
+				ip, idx, valid := getLocateResp(string(event.Kv.Value))
+				if !valid || idx < 0 || idx >= shardNum {
+					logs.Std().Errorf("err format locating resp: %s", event.Kv.Value)
+					continue
+				}
 				logs.Std().Debugf("located success for index %d of %s at %s", idx, hash, ip)
-				locates[idx] = ip
-				cnt++
+				// a shard may be found by several servers
+				if locates[idx] == "" {
+					locates[idx] = ip
+					cnt++
+				}
 			}
 		case <-tt.C:
 			logs.Std().Warnf("locate object %s timeout!", hash)
@@ -119,7 +123,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 		defer dg.Done()
 		var inner error
 		metadata, inner = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
@@ -182,17 +186,36 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 	if vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver); err != nil {
 		return
 	}
-	if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-		go func() {
-			defer graceful.Recover()
-			// if not err, delete first version
-			inner := o.metaService.RemoveVersion(md.Name, md.Bucket, int32(metadata.FirstVersion))
-			util.LogErrWithPre("remove first version err", inner)
-		}()
-	}
+	RemoveOldVersions(o.metaService, bucket, md.Name)
 	return
 }
 
+// RemoveOldVersions removes the oldest versions of an object in background until only those the bucket allows are left
+func RemoveOldVersions(s IMetaService, bucket *entity.Bucket, name string) {
+	remains := 1
+	if bucket.Versioning && bucket.VersionRemains > 1 {
+		remains = bucket.VersionRemains
+	}
+	go func() {
+		defer graceful.Recover()
+		for {
+			metadata, err := s.GetMetadata(name, bucket.Name, int32(entity.VerModeNot), true)
+			if err != nil {
+				util.LogErrWithPre("remove first version err", err)
+				return
+			}
+			if metadata.Total <= remains {
+				return
+			}
+			// if not err, delete first version
+			if err = s.RemoveVersion(name, bucket.Name, int32(metadata.FirstVersion)); err != nil {
+				util.LogErrWithPre("remove first version err", err)
+				return
+			}
+		}
+	}()
+}
+
 func streamToDataServer(req *entity.PutReq, meta *entity.Version, provider StreamProvider) ([]string, error) {
 	//stream to store
 	stream, locates, err := dataServerStream(meta, provider)
@@ -256,10 +279,7 @@ func NewStreamProvider(opt *StreamOption, ver *entity.Version) StreamProvider {
 		cfg.DataShards = ver.DataShards
 		cfg.ParityShards = ver.ParityShards
 		// aligned block size
-		if i := cfg.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.BlockSize()-i+cst.OS.NetPkgSize, int(opt.Size))
-			cfg.BlockPerShard = newSize / cfg.DataShards
-		}
+		cfg.AlignBlock(opt.Size)
 		return RsStreamProvider(opt, &cfg)
 	case entity.MultiReplication:
 		cfg := pool.Config.Object.Replication
diff --git a/src/apiserver/internal/usecase/service/stream_provider.go b/src/apiserver/internal/usecase/service/stream_provider.go
index 4c21d2a..f024c9d 100644
--- a/src/apiserver/internal/usecase/service/stream_provider.go
+++ b/src/apiserver/internal/usecase/service/stream_provider.go
@@ -8,6 +8,7 @@ type StreamOption struct {
 	Locates  []string
 	Bucket   string
 	Hash     string
+	Digest   string
 	Name     string
 	Size     int64
 	Compress bool
-- 
2.43.0


From 65279016aa6573c5f07dda858aa4dd9ba93b0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 44/66] fix: a resumed upload must be verified and published
 like a plain one

---
 .../internal/controller/http/big_api.go       | 132 ++++++++----------
 src/apiserver/internal/entity/dto.go          |   2 +-
 .../usecase/service/rs_resumable_stream.go    |  68 ++++++++-
 3 files changed, 119 insertions(+), 83 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index ee8f1bc..eda549b 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -1,16 +1,14 @@
 package http
 
 import (
-	"apiserver/config"
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/pool"
 	"apiserver/internal/usecase/repo"
 	"apiserver/internal/usecase/service"
-	"common/graceful"
 	"common/response"
 	"common/util"
-	"common/util/crypto"
+	"errors"
 	"fmt"
 
 	"apiserver/internal/usecase/logic"
@@ -76,7 +74,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf)
+		verNum, err := bc.addVersion(req.Name, bucket, object)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -95,6 +93,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 	}
 	stream, e := service.NewRSResumablePutStream(&service.StreamOption{
 		Hash:     uniqueHash,
+		Digest:   req.Hash,
 		Name:     req.Name,
 		Size:     req.Size,
 		Bucket:   req.Bucket,
@@ -163,35 +162,21 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		response.FailErr(err, g)
 		return
 	}
-	curSize += n
-	if curSize < stream.Size {
-		// not read enough, see as interrupted
+	if curSize+n < stream.Size {
+		// not read enough, see as interrupted. a part of a block is not saved
 		response.Exec(g).Status(http.StatusPartialContent).
-			Header(gin.H{"Content-Length": curSize})
+			Header(gin.H{"Content-Length": stream.FlushedSize(curSize, n)})
 		return
 	}
 	// if over the intended size, its invalid
-	if curSize > stream.Size {
+	if curSize+n > stream.Size {
 		util.LogErr(stream.Commit(false))
 		response.Exec(g).Fail(http.StatusForbidden, "file exceed the intended size")
 		return
 	}
 	// if curSize equals expected size
-	verNum, err := bc.finishUpload(stream.Name, stream.Bucket, &entity.Version{
-		Hash:          stream.Hash,
-		Size:          stream.Size,
-		Locate:        stream.Servers,
-		DataShards:    stream.Config.DataShards,
-		ParityShards:  stream.Config.ParityShards,
-		ShardSize:     stream.Config.ShardSize(stream.Size),
-		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config)
+	verNum, err := bc.finishUpload(stream)
 	if err != nil {
-		util.LogErr(stream.Commit(false))
-		response.FailErr(err, g)
-		return
-	}
-	if err = stream.Commit(true); err != nil {
 		response.FailErr(err, g)
 		return
 	}
@@ -202,72 +187,67 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig) (verNum int32, err error) {
+// finishUpload the stream will be committed only if it is valid
+func (bc *BigObjectsController) finishUpload(stream *service.RSResumablePutStream) (verNum int32, err error) {
+	// get bucket
+	bucket, err := bc.bucketRepo.Get(stream.Bucket)
+	if err != nil {
+		util.LogErr(stream.Commit(false))
+		return
+	}
+	// the tail of data is still cached
+	if _, err = stream.Flush(); err != nil {
+		util.LogErr(stream.Commit(false))
+		return
+	}
 	// validate digest
 	if pool.Config.Object.Checksum {
-		getStream := service.NewRSTempStream(&service.StreamOption{
-			Hash:    v.Hash,
-			Size:    v.Size,
-			Locates: v.Locate,
-		}, conf)
-		hash := crypto.SHA256IO(getStream)
-		if hash != v.Hash {
+		var hash string
+		if hash, err = stream.DataDigest(); err == nil && hash != stream.Digest {
 			err = response.NewError(http.StatusForbidden, "signature authentication failure")
+		}
+		if err != nil {
+			util.LogErr(stream.Commit(false))
 			return
 		}
 	}
-	dg := util.NewDoneGroup()
-	defer dg.Close()
-	// get metadata if exist
-	var metadata *entity.Metadata
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		metadata, inner = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
-			dg.Error(inner)
-		}
-	}()
-	// get bucket
-	var bucket *entity.Bucket
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		bucket, inner = bc.bucketRepo.Get(bucketName)
-		if inner != nil {
-			dg.Error(inner)
-		}
-	}()
-	// wait
-	if err = dg.WaitUntilError(); err != nil {
+	// a version must never refer to shards that are not saved
+	if err = stream.Commit(true); err != nil {
 		return
 	}
-	if metadata != nil {
-		// update metadata
-		verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
-		if err != nil {
-			return
-		}
-		if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-			go func() {
-				defer graceful.Recover()
-				// if not err, delete first version
-				inner := bc.metaService.RemoveVersion(metadata.Name, metadata.Bucket, int32(metadata.FirstVersion))
-				util.LogErrWithPre("remove first version err", inner)
-			}()
-		}
-	} else {
-		// add metadata
+	return bc.addVersion(stream.Name, bucket, &entity.Version{
+		Hash:          stream.Hash,
+		Size:          stream.Size,
+		Compress:      stream.Compress,
+		Locate:        stream.Servers,
+		DataShards:    stream.Config.DataShards,
+		ParityShards:  stream.Config.ParityShards,
+		ShardSize:     stream.Config.ShardSize(stream.Size),
+		StoreStrategy: entity.ECReedSolomon,
+	})
+}
+
+func (bc *BigObjectsController) addVersion(name string, bucket *entity.Bucket, v *entity.Version) (verNum int32, err error) {
+	// add metadata if not exist
+	metadata, err := bc.metaService.GetMetadata(name, bucket.Name, int32(entity.VerModeNot), true)
+	if err != nil && !response.CheckErrStatus(404, err) {
+		return
+	}
+	if metadata == nil {
+		// if SaveMetadata returns ErrMetadataExists that means a concurrent problem, only add the version
 		verNum, err = bc.metaService.SaveMetadata(&entity.Metadata{
-			Name:     metaName,
-			Bucket:   bucketName,
+			Name:     name,
+			Bucket:   bucket.Name,
 			Versions: []*entity.Version{v},
 		})
-		if err != nil {
+		if !errors.Is(err, usecase.ErrMetadataExists) {
 			return
 		}
 	}
+	// update metadata
+	if verNum, err = bc.metaService.AddVersion(name, bucket.Name, v); err != nil {
+		return
+	}
+	service.RemoveOldVersions(bc.metaService, bucket, name)
 	return
 }
diff --git a/src/apiserver/internal/entity/dto.go b/src/apiserver/internal/entity/dto.go
index 21388e6..e44d419 100644
--- a/src/apiserver/internal/entity/dto.go
+++ b/src/apiserver/internal/entity/dto.go
@@ -43,7 +43,7 @@ type BigPostReq struct {
 	Name     string `uri:"name" binding:"required"`
 	Bucket   string `header:"bucket" binding:"required"`
 	Hash     string `header:"digest" binding:"required"`
-	Size     int64  `header:"size" binding:"required"`
+	Size     int64  `header:"size" binding:"required,min=1"`
 	Ext      string
 }
 
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index 0144921..948aa1c 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -3,9 +3,12 @@ package service
 import (
 	"apiserver/config"
 	"apiserver/internal/usecase/webapi"
+	"common/response"
 	"common/util"
+	"common/util/crypto"
 	"encoding/base64"
 	"fmt"
+	"net/http"
 )
 
 type resumeToken struct {
@@ -13,6 +16,7 @@ type resumeToken struct {
 	Size     int64            `json:"size"`
 	Name     string           `json:"name"`
 	Hash     string           `json:"hash"`
+	Digest   string           `json:"digest"`
 	Bucket   string           `json:"bucket"`
 	Servers  []string         `json:"servers"`
 	Ids      []string         `json:"ids"`
@@ -32,10 +36,17 @@ func NewRSResumablePutStreamFromToken(token string) (*RSResumablePutStream, erro
 		return nil, err
 	}
 	var tk resumeToken
-	if ok := util.GobDecode(bt, &tk); ok {
-		return &RSResumablePutStream{newExistedRSPutStream(tk.Servers, tk.Ids, tk.Hash, tk.Compress, tk.Config), &tk}, nil
+	if ok := util.GobDecode(bt, &tk); !ok || tk.Config == nil {
+		return nil, fmt.Errorf("invalid token")
 	}
-	return nil, fmt.Errorf("invalid token")
+	if n := tk.Config.AllShards(); len(tk.Ids) != n || len(tk.Servers) < n {
+		return nil, fmt.Errorf("invalid token")
+	}
+	stream, err := newExistedRSPutStream(tk.Servers, tk.Ids, tk.Hash, tk.Compress, tk.Config)
+	if err != nil {
+		return nil, err
+	}
+	return &RSResumablePutStream{stream, &tk}, nil
 }
 
 // NewRSResumablePutStream 开启新的断点续传
@@ -51,6 +62,7 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 	token := &resumeToken{
 		Name:     opt.Name,
 		Hash:     opt.Hash,
+		Digest:   opt.Digest,
 		Bucket:   opt.Bucket,
 		Servers:  opt.Locates,
 		Size:     opt.Size,
@@ -63,11 +75,36 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 
 // CurrentSize IO: 请求数据服务器获取分片大小
 func (p *RSResumablePutStream) CurrentSize() (int64, error) {
-	//只请求一个服务器，因为Rs算法保证每次上传到每个服务器的大小一致
-	size, err := webapi.HeadTmpObject(p.Servers[0], p.Ids[0])
-	if err != nil {
+	//Rs算法保证每次上传到每个服务器的大小一致, 若不一致说明某次上传只写入了部分服务器, 无法恢复
+	sizes := make([]int64, len(p.Ids))
+	wg := util.NewDoneGroup()
+	defer wg.Close()
+	for i := range p.Ids {
+		wg.Todo()
+		go func(idx int) {
+			defer wg.Done()
+			n, err := webapi.HeadTmpObject(p.Servers[idx], p.Ids[idx])
+			if err != nil {
+				wg.Error(err)
+				return
+			}
+			sizes[idx] = n
+		}(i)
+	}
+	wg.Wait()
+	if err := wg.WaitUntilError(); err != nil {
 		return 0, err
 	}
+	size := sizes[0]
+	for _, n := range sizes {
+		if n != size {
+			return 0, response.NewError(http.StatusConflict, "shards are inconsistent, upload must be restarted")
+		}
+	}
+	// a part of a block can only be the end of the object
+	if size%int64(p.rsConfig.BlockPerShard) != 0 && size != int64(p.rsConfig.ShardSize(p.Size)) {
+		return 0, response.NewError(http.StatusConflict, "shards are incomplete, upload must be restarted")
+	}
 	//求乘积得到当前大小
 	size *= int64(p.rsConfig.DataShards)
 	if size > p.Size {
@@ -76,6 +113,25 @@ func (p *RSResumablePutStream) CurrentSize() (int64, error) {
 	return size, nil
 }
 
+// FlushedSize 每次只会向数据服务器写入完整的块, 从cur继续写入n字节后可恢复的大小
+func (p *RSResumablePutStream) FlushedSize(cur, n int64) int64 {
+	return cur + n/int64(p.rsConfig.BlockSize())*int64(p.rsConfig.BlockSize())
+}
+
+// Digest IO: 从已上传的分片计算原数据的摘要
+func (p *RSResumablePutStream) DataDigest() (string, error) {
+	stream, err := NewRSTempStream(&StreamOption{
+		Hash:    p.Hash,
+		Size:    p.Size,
+		Locates: p.Servers,
+	}, p.Ids, p.Config)
+	if err != nil {
+		return "", err
+	}
+	defer stream.Close()
+	return crypto.SHA256IO(stream), nil
+}
+
 // Token 上传记录
 func (p *RSResumablePutStream) Token() string {
 	return base64.StdEncoding.EncodeToString(util.GobEncode(p.resumeToken))
-- 
2.43.0


From 0585cddfa340b64fac9264c1ffc8d712046cd8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 45/66] fix: shards of equal objects must be equal however the
 object was sent

---
 src/apiserver/internal/usecase/service/rs_encoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/apiserver/internal/usecase/service/rs_encoder.go b/src/apiserver/internal/usecase/service/rs_encoder.go
index fad136c..bead02f 100644
--- a/src/apiserver/internal/usecase/service/rs_encoder.go
+++ b/src/apiserver/internal/usecase/service/rs_encoder.go
@@ -69,6 +69,10 @@ func (e *rsEncoder) Flush() (int, error) {
 	}
 	defer func() { e.cache = e.cache[:0] }()
 
+	// padding must not contain data of former blocks, or the shards would depend on how the object was sent
+	for i, tail := 0, e.cache[len(e.cache):cap(e.cache)]; i < len(tail); i++ {
+		tail[i] = 0
+	}
 	shards, err := e.enc.Split(e.cache)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 8a9aab8ced59345feeadf085f87ced48cf88f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 46/66] fix: concurrent first uploads must not leave more
 versions than the bucket allows

---
 src/apiserver/internal/controller/http/big_api.go        | 4 ++++
 src/apiserver/internal/usecase/service/object_service.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index eda549b..8186469 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -241,6 +241,10 @@ func (bc *BigObjectsController) addVersion(name string, bucket *entity.Bucket, v
 			Versions: []*entity.Version{v},
 		})
 		if !errors.Is(err, usecase.ErrMetadataExists) {
+			if err == nil {
+				// a concurrent upload may have added its version before this one
+				service.RemoveOldVersions(bc.metaService, bucket, name)
+			}
 			return
 		}
 	}
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 9a61637..a100db4 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -176,6 +176,10 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 	if metadata == nil {
 		// if SaveMetadata returns ErrMetadataExists that means a concurrent problem, get the metadata and continue it.
 		if vn, err = o.metaService.SaveMetadata(md); !errors.Is(err, ErrMetadataExists) {
+			if err == nil {
+				// a concurrent upload may have added its version before this one
+				RemoveOldVersions(o.metaService, bucket, md.Name)
+			}
 			return
 		}
 		metadata, err = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-- 
2.43.0


From 87ad1013c8ca28d05b598b4bc39a722a7fd3668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 47/66] fix: server statistics must not be read while they are
 updated, selecting must not reorder servers

---
 .../componet/selector/space_first_selector.go | 45 ++++++++++++++-----
 .../componet/selector/weighted_io_first.go    | 40 +++++++++++++----
 2 files changed, 65 insertions(+), 20 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
index 9178f46..dab0d7d 100644
--- a/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
+++ b/src/apiserver/internal/usecase/componet/selector/space_first_selector.go
@@ -14,6 +14,8 @@ var (
 	spaceUsedMap   = map[string]int64{}
 	spaceLock      = sync.Mutex{}
 	spaceUpdatedAt time.Time
+	// spaceUsedMapGuard guards both above. A published map is never changed.
+	spaceUsedMapGuard sync.RWMutex
 )
 
 type FreeSpaceFirst struct {
@@ -26,29 +28,50 @@ func (s *FreeSpaceFirst) fetchSpaceInfo(ds []string) {
 		return
 	}
 	defer spaceLock.Unlock()
+	old, _ := s.info()
+	fetched := make(map[string]int64, len(old)+len(ds))
+	for ip, v := range old {
+		fetched[ip] = v
+	}
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
 			// ip is unreachable remove from origin
-			delete(spaceUsedMap, ip)
+			delete(fetched, ip)
 			continue
 		}
-		spaceUsedMap[ip] = util.ToInt64(hd.Get("Capacity"))
+		fetched[ip] = util.ToInt64(hd.Get("Capacity"))
 	}
-	spaceUpdatedAt = time.Now()
+	spaceUsedMapGuard.Lock()
+	defer spaceUsedMapGuard.Unlock()
+	spaceUsedMap, spaceUpdatedAt = fetched, time.Now()
 }
 
-func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
+// info returns what is known now and when it was fetched
+func (s *FreeSpaceFirst) info() (map[string]int64, time.Time) {
+	spaceUsedMapGuard.RLock()
+	defer spaceUsedMapGuard.RUnlock()
+	return spaceUsedMap, spaceUpdatedAt
+}
+
+// fetched returns what is known, after updating it if it is too old
+func (s *FreeSpaceFirst) fetched(ds []string) map[string]int64 {
+	if _, at := s.info(); time.Since(at) > 1*time.Minute {
 		s.fetchSpaceInfo(ds)
 	}
+	known, _ := s.info()
+	return known
+}
+
+func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
+	known := s.fetched(ds)
 	idx := slices.ExtremalIndex(ds, func(min, b string) bool {
-		minUsed, ok := spaceUsedMap[min]
+		minUsed, ok := known[min]
 		if !ok {
 			minUsed = math.MaxInt64
 		}
-		bUsed, ok := spaceUsedMap[b]
+		bUsed, ok := known[b]
 		if !ok {
 			// skip if b is unreachable
 			return false
@@ -61,15 +84,13 @@ func (s *FreeSpaceFirst) Pop(ds []string) ([]string, string) {
 }
 
 func (s *FreeSpaceFirst) Select(ds []string) string {
-	if time.Since(spaceUpdatedAt) > 1*time.Minute {
-		s.fetchSpaceInfo(ds)
-	}
+	known := s.fetched(ds)
 	return slices.Extremal(ds, func(min, b string) bool {
-		minUsed, ok := spaceUsedMap[min]
+		minUsed, ok := known[min]
 		if !ok {
 			minUsed = math.MaxInt64
 		}
-		bUsed, ok := spaceUsedMap[b]
+		bUsed, ok := known[b]
 		if !ok {
 			// skip if b is unreachable
 			return false
diff --git a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
index 8d3bc7a..fcc7d85 100644
--- a/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
+++ b/src/apiserver/internal/usecase/componet/selector/weighted_io_first.go
@@ -20,6 +20,8 @@ var (
 	weightedIOMap       = map[string]int32{}
 	weightedIOLock      = sync.Mutex{}
 	weightedIOUpdatedAt time.Time
+	// weightedIOMapGuard guards both above. A published map is never changed.
+	weightedIOMapGuard sync.RWMutex
 )
 
 type WeightedIOFirst struct {
@@ -32,28 +34,49 @@ func (s *WeightedIOFirst) fetchIoInfo(ds []string) {
 		return
 	}
 	defer weightedIOLock.Unlock()
+	old, _ := s.info()
+	fetched := make(map[string]int32, len(old)+len(ds))
+	for ip, v := range old {
+		fetched[ip] = v
+	}
 	for _, ip := range ds {
 		hd, err := webapi.StatObject(ip)
 		if err != nil {
 			logs.Std().Errorf("update space info of %s err: %s", ip, err)
-			delete(weightedIOMap, ip)
+			delete(fetched, ip)
 			continue
 		}
-		weightedIOMap[ip] = util.ToInt32(hd.Get("Weighted-IO"))
+		fetched[ip] = util.ToInt32(hd.Get("Weighted-IO"))
 	}
-	weightedIOUpdatedAt = time.Now()
+	weightedIOMapGuard.Lock()
+	defer weightedIOMapGuard.Unlock()
+	weightedIOMap, weightedIOUpdatedAt = fetched, time.Now()
 }
 
-func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
-	if time.Since(weightedIOUpdatedAt) > 1*time.Minute {
+// info returns what is known now and when it was fetched
+func (s *WeightedIOFirst) info() (map[string]int32, time.Time) {
+	weightedIOMapGuard.RLock()
+	defer weightedIOMapGuard.RUnlock()
+	return weightedIOMap, weightedIOUpdatedAt
+}
+
+// fetched returns what is known, after updating it if it is too old
+func (s *WeightedIOFirst) fetched(ds []string) map[string]int32 {
+	if _, at := s.info(); time.Since(at) > 1*time.Minute {
 		s.fetchIoInfo(ds)
 	}
+	known, _ := s.info()
+	return known
+}
+
+func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
+	known := s.fetched(ds)
 	idx := slices.ExtremalIndex(ds, func(target, b string) bool {
-		tWeighted, ok := weightedIOMap[target]
+		tWeighted, ok := known[target]
 		if !ok {
 			tWeighted = math.MaxInt32
 		}
-		bWeighted, ok := weightedIOMap[b]
+		bWeighted, ok := known[b]
 		if !ok {
 			// skip if unreachable
 			return false
@@ -66,7 +89,8 @@ func (s *WeightedIOFirst) Pop(ds []string) ([]string, string) {
 }
 
 func (s *WeightedIOFirst) Select(ds []string) string {
-	_, res := s.Pop(ds)
+	// the given servers must stay as they are
+	_, res := s.Pop(append([]string(nil), ds...))
 	return res
 }
 
-- 
2.43.0


From 74dabd5c62b8bac856a5eaa893bd60301f2687e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 48/66] fix: discovery must show exactly the registered
 servers, also after lost changes and failures

---
 src/common/registry/config.go         |  28 +++++-
 src/common/registry/etcd_discovery.go | 138 ++++++++++++--------------
 src/common/registry/service_list.go   |  16 ++-
 3 files changed, 106 insertions(+), 76 deletions(-)

diff --git a/src/common/registry/config.go b/src/common/registry/config.go
index 3c9e51c..6962f77 100644
--- a/src/common/registry/config.go
+++ b/src/common/registry/config.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"common/cst"
 	"common/util"
 	"fmt"
 	"net"
@@ -30,7 +31,7 @@ func (c *Config) RegisterAddr() (string, bool) {
 }
 
 func (c *Config) RegisterKey() string {
-	return fmt.Sprint(c.Group, "/", c.Name, "/", c.SID())
+	return cst.EtcdPrefix.FmtRegistry(c.Group, fmt.Sprint(c.Name, "/", c.SID()))
 }
 
 func (c *Config) SID() string {
@@ -42,3 +43,28 @@ func (c *Config) SID() string {
 	}
 	return c.ServerID
 }
+
+const (
+	roleMaster = "master"
+	roleSlave  = "slave"
+)
+
+// servicePrefix is the prefix of the keys of all servers of a service
+func servicePrefix(group, name string) string {
+	return cst.EtcdPrefix.FmtRegistry(group, name) + "/"
+}
+
+// parseKey gets the server's id and its role from a key like ${group}/registry/${serv}/${id}_${slave/master}
+func parseKey(key string) (id, role string, ok bool) {
+	idx := strings.LastIndexByte(key, '/')
+	if idx < 0 {
+		return "", "", false
+	}
+	id = key[idx+1:]
+	for _, role = range []string{roleMaster, roleSlave} {
+		if strings.HasSuffix(id, "_"+role) {
+			return id[:len(id)-len(role)-1], role, true
+		}
+	}
+	return id, "", true
+}
diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 5c35a33..e096a7c 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -1,11 +1,9 @@
 package registry
 
 import (
-	"common/cst"
 	"common/graceful"
 	"common/util"
 	"context"
-	"strings"
 	"time"
 
 	"go.etcd.io/etcd/api/v3/mvccpb"
@@ -15,6 +13,7 @@ import (
 type EtcdDiscovery struct {
 	cli      *clientv3.Client
 	group    string
+	self     string
 	services map[string]*serviceList
 	context  context.Context
 	Close    func()
@@ -26,93 +25,96 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 	d := &EtcdDiscovery{
 		cli:      cli,
 		group:    cfg.Group,
+		self:     cfg.RegisterKey(),
 		services: hs,
 		context:  ctx,
 		Close:    cancel,
 	}
+	// the map must not change any more when the services are watched
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
-		d.initService(s)
 	}
 	// save self
 	addr, _ := cfg.RegisterAddr()
-	d.addService(cfg.Name, addr, cfg.RegisterKey())
+	d.addService(cfg.Name, addr, d.self)
+	for _, s := range cfg.Services {
+		d.initService(s)
+	}
 	return d
 }
 
+// initService keeps the list of a service up to date until closed
 func (e *EtcdDiscovery) initService(serv string) {
 	go func() {
 		defer graceful.Recover()
-		// fetch kvs
-		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
-		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-		defer cancel()
-		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
-		if err != nil {
-			registryLog.Warnf("discovery init service %s error: %s", prefix, err)
-			return
-		}
-		// wrap kvs
-		mp := make(map[string]string)
-		for _, kv := range res.Kvs {
-			mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+		prefix := servicePrefix(e.group, serv)
+		for e.context.Err() == nil {
+			rev, err := e.fetch(serv, prefix)
+			if err != nil {
+				registryLog.Warnf("discovery init service %s error: %s", prefix, err)
+			} else {
+				// watch changes after those fetched
+				e.watch(serv, prefix, rev+1)
+			}
+			// wait 2 sec before retry, changes may be missed until then so that all must be fetched again
+			select {
+			case <-e.context.Done():
+			case <-time.After(2 * time.Second):
+			}
 		}
-		// init serv
-		e.services[serv].combine(mp)
-		// start watch change
-		e.asyncWatch(serv, prefix)
 	}()
 }
 
-func (e *EtcdDiscovery) asyncWatch(serv, prefix string) {
-	go func() {
-		defer graceful.Recover()
-		for {
-			var success bool
-			ch := e.cli.Watch(e.context, prefix, clientv3.WithPrefix())
-			for res := range ch {
-				if res.Canceled {
-					registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
-					success = false
-					break
-				}
-				for _, event := range res.Events {
-					// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
-					key := util.BytesToStr(event.Kv.Key)
-					addr := util.BytesToStr(event.Kv.Value)
-					switch event.Type {
-					case mvccpb.PUT:
-						registryLog.Tracef("%s:%s added", serv, addr)
-						e.addService(serv, addr, key)
-					case mvccpb.DELETE:
-						registryLog.Tracef("%s:%s removed", serv, key)
-						e.removeService(serv, key)
-					}
-				}
-			}
-			// break if canceled by context
-			if success {
-				break
+// fetch the registered servers, returns the revision of them
+func (e *EtcdDiscovery) fetch(serv, prefix string) (rev int64, err error) {
+	ctx, cancel := context.WithTimeout(e.context, 5*time.Second)
+	defer cancel()
+	res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return
+	}
+	// wrap kvs
+	mp := make(map[string]string)
+	for _, kv := range res.Kvs {
+		mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+	}
+	// init serv
+	e.services[serv].replace(mp, e.self)
+	return res.Header.GetRevision(), nil
+}
+
+// watch applies changes since a revision until the watching ends
+func (e *EtcdDiscovery) watch(serv, prefix string, rev int64) {
+	ctx, cancel := context.WithCancel(e.context)
+	defer cancel()
+	for res := range e.cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(rev)) {
+		if res.Canceled {
+			registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
+			return
+		}
+		for _, event := range res.Events {
+			// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
+			key := util.BytesToStr(event.Kv.Key)
+			addr := util.BytesToStr(event.Kv.Value)
+			switch event.Type {
+			case mvccpb.PUT:
+				registryLog.Tracef("%s:%s added", serv, addr)
+				e.addService(serv, addr, key)
+			case mvccpb.DELETE:
+				registryLog.Tracef("%s:%s removed", serv, key)
+				e.removeService(serv, key)
 			}
-			// sleep 2 sec before retry
-			time.Sleep(2 * time.Second)
 		}
-	}()
+	}
 }
 
 func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
 	res := make(map[string]string)
 	if sl, ok := e.services[name]; ok {
 		for k, addr := range sl.copy() {
-			idx1 := strings.LastIndexByte(k, '/')
-			if idx1 < 0 {
-				continue
+			if id, _, valid := parseKey(k); valid {
+				res[id] = addr
 			}
-			idx2 := strings.LastIndexByte(k, '_')
-			if idx2 < 0 {
-				idx2 = len(k)
-			}
-			res[k[idx1+1:idx2]] = addr
 		}
 	}
 	return res
@@ -143,18 +145,10 @@ func (e *EtcdDiscovery) GetService(name string, id string) (string, bool) {
 
 func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[string]string {
 	if sl, ok := e.services[name]; ok {
-		res := make(map[string]string, len(sl.data))
+		res := make(map[string]string)
 		for k, addr := range sl.copy() {
-			idx := strings.LastIndexByte(k, '/')
-			if idx < 0 {
-				continue
-			}
-			sid, role, contains := strings.Cut(k[idx+1:], "_")
-			if master {
-				if !contains || role == "master" {
-					res[sid] = addr
-				}
-			} else if role == "slave" {
+			sid, role, valid := parseKey(k)
+			if valid && (role == roleSlave) != master {
 				res[sid] = addr
 			}
 		}
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index e6f9e70..22b0e9f 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -15,7 +15,15 @@ func newServiceListOf(mp map[string]string) *serviceList {
 	return &serviceList{mp, &sync.RWMutex{}}
 }
 
-func (s *serviceList) combine(mp map[string]string) {
+// replace all services by those of mp, except the one with the key keep which stays if it is not in mp
+func (s *serviceList) replace(mp map[string]string, keep string) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	for k := range s.data {
+		if _, ok := mp[k]; !ok && k != keep {
+			delete(s.data, k)
+		}
+	}
 	for k, v := range mp {
 		s.data[k] = v
 	}
@@ -34,9 +42,9 @@ func (s *serviceList) remove(registerKey string) {
 }
 
 func (s *serviceList) list() []string {
-	ls := make([]string, 0, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make([]string, 0, len(s.data))
 	for _, v := range s.data {
 		ls = append(ls, v)
 	}
@@ -45,9 +53,9 @@ func (s *serviceList) list() []string {
 
 // copy returns a map of value=address key=registered key
 func (s *serviceList) copy() map[string]string {
-	ls := make(map[string]string, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make(map[string]string, len(s.data))
 	for k, v := range s.data {
 		ls[k] = v
 	}
@@ -55,5 +63,7 @@ func (s *serviceList) copy() map[string]string {
 }
 
 func (s *serviceList) Len() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.data)
 }
-- 
2.43.0


From 7043170fd2412bbf0f8ddaa6817ce198fadded1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 49/66] fix: a failed registration must be repeated and former
 roles removed

---
 src/common/registry/etcd_registry.go | 88 ++++++++++++++++++++++------
 1 file changed, 69 insertions(+), 19 deletions(-)

diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 3161a17..b85c4cf 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -1,12 +1,14 @@
 package registry
 
 import (
-	"bytes"
 	. "common/cst"
 	"common/logs"
 	"common/util"
 	"context"
 	"fmt"
+	"sync"
+	"time"
+
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
@@ -18,6 +20,10 @@ type EtcdRegistry struct {
 	stdName string
 	name    string
 	addr    string
+
+	mux  sync.Mutex
+	keys map[string]bool // keys which may exist
+	turn int             // changes with every Register and Unregister
 }
 
 func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
@@ -32,47 +38,53 @@ func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
 		stdName: k,
 		name:    k,
 		addr:    addr,
+		keys:    map[string]bool{},
 	}
 	return reg
 }
 
 func (e *EtcdRegistry) Key() string {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	return e.key()
+}
+
+func (e *EtcdRegistry) key() string {
 	return EtcdPrefix.FmtRegistry(e.cfg.Group, e.name)
 }
 
 func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "master")
-	return e
+	return e.as(roleMaster)
 }
 
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "slave")
+	return e.as(roleSlave)
+}
+
+func (e *EtcdRegistry) as(role string) *EtcdRegistry {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.name = fmt.Sprint(e.stdName, "_", role)
 	return e
 }
 
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), servicePrefix(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Errorf("get services: %s", err)
 		return map[string]string{}
 	}
 	res := make(map[string]string, len(resp.Kvs))
 	for _, kv := range resp.Kvs {
-		idx1 := bytes.LastIndexByte(kv.Key, '/')
-		if idx1 < 0 {
-			continue
+		if id, _, ok := parseKey(util.BytesToStr(kv.Key)); ok {
+			res[id] = util.BytesToStr(kv.Value)
 		}
-		idx2 := bytes.LastIndexByte(kv.Key, '_')
-		if idx2 < 0 {
-			idx2 = len(kv.Key)
-		}
-		res[util.BytesToStr(kv.Key[idx1+1:idx2])] = util.BytesToStr(kv.Value)
 	}
 	return res
 }
 
 func (e *EtcdRegistry) GetServices(name string) []string {
-	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
+	resp, err := e.cli.Get(context.Background(), servicePrefix(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
 		registryLog.Infof("get services: %s", err)
 		return []string{}
@@ -90,15 +102,53 @@ func (e *EtcdRegistry) GetService(name string, id string) (string, bool) {
 	return v, ok
 }
 
+// Register repeats registering in background if it fails, until the next Register or Unregister
 func (e *EtcdRegistry) Register(id clientv3.LeaseID) {
-	if _, err := e.cli.Put(context.Background(), e.Key(), e.addr, clientv3.WithLease(id)); err != nil {
-		registryLog.Errorf("register %s fails: %s", e.addr, err)
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.turn++
+	e.register(id, e.turn)
+}
+
+func (e *EtcdRegistry) register(id clientv3.LeaseID, turn int) {
+	err := e.removeKeys(e.key())
+	if err == nil {
+		// even if putting fails it may exist
+		e.keys[e.key()] = true
+		_, err = e.cli.Put(context.Background(), e.key(), e.addr, clientv3.WithLease(id))
+	}
+	if err == nil {
+		registryLog.Infof("register %s success", e.key())
 		return
 	}
-	registryLog.Infof("register %s success", e.Key())
+	registryLog.Errorf("register %s fails: %s", e.addr, err)
+	time.AfterFunc(2*time.Second, func() {
+		e.mux.Lock()
+		defer e.mux.Unlock()
+		if e.turn == turn {
+			e.register(id, turn)
+		}
+	})
+}
+
+// removeKeys removes all that may exist except one, like those of a former role
+func (e *EtcdRegistry) removeKeys(except string) error {
+	for key := range e.keys {
+		if key == except {
+			continue
+		}
+		if _, err := e.cli.Delete(context.Background(), key); err != nil {
+			return err
+		}
+		delete(e.keys, key)
+	}
+	return nil
 }
 
 func (e *EtcdRegistry) Unregister() error {
-	_, err := e.cli.Delete(context.Background(), e.Key())
-	return err
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.turn++
+	e.keys[e.key()] = true
+	return e.removeKeys("")
 }
-- 
2.43.0


From 72cdd2f2c80677fa767ad1f70e8f42e3869ccd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 50/66] fix: a lost lease must be replaced after failures, and
 none is needed after closing

---
 go.work.sum                           | 11 +++++++
 src/common/registry/etcd_lifecycle.go | 43 ++++++++++++++++-----------
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/go.work.sum b/go.work.sum
index 71a3190..72c94ba 100644
--- a/go.work.sum
+++ b/go.work.sum
@@ -275,6 +275,7 @@ go.uber.org/multierr v1.10.0/go.mod h1:20+QtiLqy0Nd6FdQB9TLXag12DsQkrbs3htMFfDN8
 golang.org/x/crypto v0.0.0-20210921155107-089bfa567519/go.mod h1:GvvjBRRGRdwPK5ydBHafDWAxML/pGHZbMvKqRZ5+Abc=
 golang.org/x/crypto v0.7.0/go.mod h1:pYwdfH91IfpZVANVyUOhSIPZaFoJGxTFbZhFTx+dXZU=
 golang.org/x/crypto v0.14.0/go.mod h1:MVFd36DqK4CsrnJYDkBA3VC4m2GkXAM0PvzMCn4JQf4=
+golang.org/x/crypto v0.17.0/go.mod h1:gCAAfMLgwOJRpTjQ2zCCt2OcSfYMTeZVSRtQlPC7Nq4=
 golang.org/x/exp v0.0.0-20190121172915-509febef88a4 h1:c2HOrn5iMezYjSlGPncknSEr/8x5LELb/ilJbXi9DEA=
 golang.org/x/lint v0.0.0-20210508222113-6edffad5e616 h1:VLliZ0d+/avPrXXH+OakdXhpJuEoBZuwh1m2j7U6Iug=
 golang.org/x/mod v0.4.2 h1:Gz96sIWK3OalVv/I/qNygP42zyoKp3xptRVCWRFEBvo=
@@ -283,6 +284,7 @@ golang.org/x/mod v0.6.0-dev.0.20220419223038-86c51ed26bb4/go.mod h1:jJ57K6gSWd91
 golang.org/x/mod v0.8.0 h1:LUYupSeNrTNCGzR/hVBk2NHZO4hXcVaW1k4Qx7rjPx8=
 golang.org/x/mod v0.8.0/go.mod h1:iBbtSCu2XBx23ZKBPSOrRkjjQPZFPuis4dIYUhu/chs=
 golang.org/x/mod v0.9.0/go.mod h1:iBbtSCu2XBx23ZKBPSOrRkjjQPZFPuis4dIYUhu/chs=
+golang.org/x/mod v0.13.0/go.mod h1:hTbmBsO62+eylJbnUtE2MGJUyE7QWk4xUqPFrRgJ+7c=
 golang.org/x/net v0.0.0-20190603091049-60506f45cf65/go.mod h1:HSz+uSET+XFnRR8LxR5pz3Of3rY3CfYBVs4xY44aLks=
 golang.org/x/net v0.0.0-20190628185345-da137c7871d7/go.mod h1:z5CRVTTTmAJ677TzLLGU+0bjPO0LkuOLi4/5GtJWs/s=
 golang.org/x/net v0.0.0-20200625001655-4c5254603344/go.mod h1:/O7V0waA8r7cgGh81Ro3o1hOxt32SMVPicZroKQ2sZA=
@@ -291,8 +293,10 @@ golang.org/x/net v0.0.0-20220722155237-a158d28d115b/go.mod h1:XRhObCWvk6IyKnWLug
 golang.org/x/net v0.8.0/go.mod h1:QVkue5JL9kW//ek3r6jTKnTFis1tRmNAW2P1shuFdJc=
 golang.org/x/net v0.10.0/go.mod h1:0qNGK6F8kojg2nk9dLZ2mShWaEBan6FAoqfSigmmuDg=
 golang.org/x/net v0.16.0/go.mod h1:NxSsAGuq816PNPmqtQdLE42eU2Fs7NoRIZrHJAlaCOE=
+golang.org/x/net v0.17.0/go.mod h1:NxSsAGuq816PNPmqtQdLE42eU2Fs7NoRIZrHJAlaCOE=
 golang.org/x/net v0.18.0/go.mod h1:/czyP5RqHAH4odGYxBJ1qz0+CE5WZ+2j1YgoEo8F2jQ=
 golang.org/x/net v0.19.0/go.mod h1:CfAk/cbD4CthTvqiEl8NpboMuiuOYsAr/7NOjZJtv1U=
+golang.org/x/net v0.21.0/go.mod h1:bIjVDfnllIU7BJ2DNgfnXvpSvtn8VRwhlsaeUTyUS44=
 golang.org/x/oauth2 v0.0.0-20190226205417-e64efc72b421/go.mod h1:gOpvHmFTYa4IltrdGE7lF6nIHvwfUNPOp7c8zoXwtLw=
 golang.org/x/oauth2 v0.0.0-20200107190931-bf48bf16ab8d h1:TzXSXBo42m9gQenoE3b9BGiEpg5IG2JkU5FkPIawgtw=
 golang.org/x/oauth2 v0.13.0/go.mod h1:/JMhi4ZRXAf4HG9LiNmxvk+45+96RUlVThiH8FzNBn0=
@@ -312,6 +316,7 @@ golang.org/x/sys v0.0.0-20200625212154-ddb9806d33ae/go.mod h1:h1NjWce9XRLGQEsW7w
 golang.org/x/sys v0.0.0-20210124154548-22da62e12c0c/go.mod h1:h1NjWce9XRLGQEsW7wpKNCjG9DtNlClVuFLEZdDNbEs=
 golang.org/x/sys v0.0.0-20210403161142-5e06dd20ab57/go.mod h1:h1NjWce9XRLGQEsW7wpKNCjG9DtNlClVuFLEZdDNbEs=
 golang.org/x/sys v0.0.0-20210603081109-ebe580a85c40/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
+golang.org/x/sys v0.0.0-20220520151302-bc2c85ada10a/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.4.0/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.13.0/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
@@ -324,6 +329,7 @@ golang.org/x/term v0.8.0 h1:n5xxQn2i3PC0yLAbjTpNT85q/Kgzcr2gIoX9OrJUols=
 golang.org/x/term v0.8.0/go.mod h1:xPskH00ivmX89bAKVGSKKtLOWNx2+17Eiy94tnKShWo=
 golang.org/x/term v0.13.0/go.mod h1:LTmsnFJwVN6bCy1rVCoS+qHT1HhALEFxKncY3WNNh4U=
 golang.org/x/term v0.16.0/go.mod h1:yn7UURbUtPyrVJPGPq404EukNFxcm/foM+bV/bfcDsY=
+golang.org/x/term v0.18.0/go.mod h1:ILwASektA3OnRv7amZ1xhE/KTR+u50pbXfZ03+6Nx58=
 golang.org/x/text v0.3.8/go.mod h1:E6s5w1FMmriuDzIBO73fBruAKo1PCIq6d2Q6DHfQ8WQ=
 golang.org/x/text v0.8.0/go.mod h1:e1OnstbJyHTd6l/uOt8jFFHp6TRDWZR/bV3emEE/zU8=
 golang.org/x/text v0.13.0/go.mod h1:TvPlkZtksWOMsz7fbANvkp4WM8x/WCo/om8BMLbz+aE=
@@ -334,6 +340,7 @@ golang.org/x/tools v0.1.12/go.mod h1:hNGJHUnrk76NpqgfD5Aqm5Crs+Hm0VOH/i9J2+nxYbc
 golang.org/x/tools v0.6.0 h1:BOw41kyTf3PuCW1pVQf8+Cyg8pMlkYB1oo9iJ6D/lKM=
 golang.org/x/tools v0.6.0/go.mod h1:Xwgl3UAJ/d3gWutnCtw505GrjyAbvKui8lOU390QaIU=
 golang.org/x/tools v0.13.0/go.mod h1:HvlwmtVNQAhOuCjW7xxvovg8wbNq7LwfXh/k7wXUl58=
+golang.org/x/tools v0.14.0/go.mod h1:uYBEerGOWcJyEORxN+Ek8+TT266gXkNlHdJBwexUsBg=
 golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 h1:go1bK/D/BFZV2I8cIQd1NKEZ+0owSTG1fDTci4IqFcE=
 golang.org/x/xerrors v0.0.0-20231012003039-104605ab7028/go.mod h1:NDW/Ps6MPRej6fsCIbMTohpP40sJ/P/vI1MoTEGwX90=
 google.golang.org/api v0.149.0/go.mod h1:Mwn1B7JTXrzXtnvmzQE2BD6bYZQ8DShKZDZbeN9I7qI=
@@ -341,6 +348,7 @@ google.golang.org/api v0.155.0/go.mod h1:GI5qK5f40kCpHfPn6+YzGAByIKWv8ujFnmoWm7I
 google.golang.org/appengine v1.4.0 h1:/wp5JvzpHIxhs/dumFmF7BXTf3Z+dd4uXta4kVyO508=
 google.golang.org/appengine v1.6.7/go.mod h1:8WjMMxjGQR8xUklV/ARdw2HLXBOI7O7uCIDZVag1xfc=
 google.golang.org/appengine v1.6.8/go.mod h1:1jJ3jBArFh5pcgW8gCtRJnepW8FzD1V44FJffLiz/Ds=
+google.golang.org/genproto v0.0.0-20230410155749-daa745c078e1/go.mod h1:nKE/iIaLqn2bQwXBg8f1g2Ylh6r5MN5CmZvuzZCgsCU=
 google.golang.org/genproto v0.0.0-20230822172742-b8732ec3820d/go.mod h1:yZTlhN0tQnXo3h00fuXNCxJdLdIdnVFVBaRJ5LWBbw4=
 google.golang.org/genproto v0.0.0-20231016165738-49dd2c1f3d0b/go.mod h1:CgAqfJo+Xmu0GwA0411Ht3OU3OntXwsGmrmjI8ioGXI=
 google.golang.org/genproto v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:J7XzRzVy1+IPwWHZUzoD0IccYZIrXILAQpc+Qy9CMhY=
@@ -353,14 +361,17 @@ google.golang.org/genproto/googleapis/api v0.0.0-20231016165738-49dd2c1f3d0b/go.
 google.golang.org/genproto/googleapis/api v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:0xJLfVdJqpAPl8tDg1ujOCGzx6LFLttXT5NhllGOXY4=
 google.golang.org/genproto/googleapis/api v0.0.0-20231211222908-989df2bf70f3/go.mod h1:k2dtGpRrbsSyKcNPKKI5sstZkrNCZwpU/ns96JoHbGg=
 google.golang.org/genproto/googleapis/api v0.0.0-20240102182953-50ed04b92917/go.mod h1:CmlNWB9lSezaYELKS5Ym1r44VrrbPUa7JTvw+6MbpJ0=
+google.golang.org/genproto/googleapis/api v0.0.0-20240116215550-a9fa1716bcac/go.mod h1:B5xPO//w8qmBDjGReYLpR6UJPnkldGkCSMoH/2vxJeg=
 google.golang.org/genproto/googleapis/bytestream v0.0.0-20231212172506-995d672761c0/go.mod h1:guYXGPwC6jwxgWKW5Y405fKWOFNwlvUlUnzyp9i0uqo=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20230822172742-b8732ec3820d/go.mod h1:+Bk1OCOj40wS2hwAMA+aCW9ypzm63QTBBHp6lQ3p+9M=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231016165738-49dd2c1f3d0b/go.mod h1:swOH3j0KzcDDgGUWr+SNpyTen5YrXjS3eyPzFYKc6lc=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:oQ5rr10WTTMvP4A36n8JpR1OrO1BEiV4f78CneXZxkA=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231212172506-995d672761c0/go.mod h1:FUoWkonphQm3RhTS+kOEhF8h0iDpm4tdXolVCeZ9KKA=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20240102182953-50ed04b92917/go.mod h1:xtjpI3tXFPP051KaWnhvxkiubL/6dJ18vLVf7q2pTOU=
+google.golang.org/genproto/googleapis/rpc v0.0.0-20240116215550-a9fa1716bcac/go.mod h1:daQN87bsDqDoe316QbbvX60nMoJQa4r6Ds0ZuoAe5yA=
 google.golang.org/grpc v1.33.2/go.mod h1:JMHMWHQWaTccqQQlmk3MJZS+GWXOdAesneDmEnv2fbc=
 google.golang.org/grpc v1.37.0/go.mod h1:NREThFqKR1f3iQ6oBuvc5LadQuXVGo9rkm5ZGrQdJfM=
+google.golang.org/grpc v1.56.3/go.mod h1:I9bI3vqKfayGqPUAwGdOSu7kt6oIJLixfffKrpXqQ9s=
 google.golang.org/grpc v1.59.0/go.mod h1:aUPDwccQo6OTjy7Hct4AfBPD1GptF4fyUjIkQ9YtF98=
 google.golang.org/grpc v1.60.1/go.mod h1:OlCHIeLYqSSsLi6i49B5QGdzaMZK9+M7LXN2FKz4eGM=
 google.golang.org/grpc/cmd/protoc-gen-go-grpc v1.1.0/go.mod h1:6Kw0yEErY5E/yWrBtf03jp27GLLJujG4z/JK95pnjjw=
diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 927c85f..e81efa9 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -29,11 +29,11 @@ func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 	}
 }
 
-func (lc *Lifecycle) notifying() {
+func (lc *Lifecycle) notifying(lease clientv3.LeaseID) {
 	for _, f := range lc.notifyLease {
 		go func(fn func(id clientv3.LeaseID)) {
 			defer graceful.Recover()
-			fn(lc.lease)
+			fn(lease)
 		}(f)
 	}
 }
@@ -46,36 +46,37 @@ func (lc *Lifecycle) Lease() clientv3.LeaseID {
 
 func (lc *Lifecycle) DeadLoop() {
 	defer graceful.Recover()
-	for {
-		// lock to update lease
-		lc.mux.Lock()
-		leaseResp, err := lc.Client.Grant(context.Background(), int64(lc.ttl.Seconds()))
+	for lc.ctx.Err() == nil {
+		leaseResp, err := lc.Client.Grant(lc.ctx, int64(lc.ttl.Seconds()))
 		if err != nil {
 			registryLog.Errorf("grant lifecycle lease err: %s", err)
-			time.Sleep(5 * time.Second)
+			lc.wait(5 * time.Second)
 			continue
 		}
-		lc.lease = leaseResp.ID
+		lease := leaseResp.ID
+		// lock to update lease
+		lc.mux.Lock()
+		lc.lease = lease
 		lc.mux.Unlock()
 
 		// notify lease change
-		lc.notifying()
+		lc.notifying(lease)
 
 		// keepalive new lease
-		response, err := lc.Client.KeepAlive(lc.ctx, lc.lease)
+		response, err := lc.Client.KeepAlive(lc.ctx, lease)
 		if err != nil {
-			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lc.lease, err)
-			time.Sleep(5 * time.Second)
-			continue
-		}
-		for r := range response {
-			registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lease, err)
+			lc.wait(5 * time.Second)
+		} else {
+			for r := range response {
+				registryLog.Tracef("keepalive lease %d success: ttl=%d", r.ID, r.TTL)
+			}
 		}
 
 		// break loop if closed
 		select {
 		case <-lc.ctx.Done():
-			_, _ = lc.Client.Revoke(context.Background(), lc.lease)
+			_, _ = lc.Client.Revoke(context.Background(), lease)
 			registryLog.Infof("stop keepalive lifecycle lease")
 			return
 		default:
@@ -84,6 +85,14 @@ func (lc *Lifecycle) DeadLoop() {
 	}
 }
 
+// wait for some time or until closed
+func (lc *Lifecycle) wait(d time.Duration) {
+	select {
+	case <-lc.ctx.Done():
+	case <-time.After(d):
+	}
+}
+
 func (lc *Lifecycle) Subscribe(fn func(id clientv3.LeaseID)) {
 	lc.notifyLease = append(lc.notifyLease, fn)
 }
-- 
2.43.0


From 9d44558e2729311276d4dfc350feb074edddf53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 51/66] fix: what a callback authorises must be what is served,
 and a refusal must be an error

---
 .../componet/auth/callback_validator.go       | 20 +++++++++++++------
 .../componet/auth/password_validator.go       |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 42ce775..0bd3448 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -29,8 +29,14 @@ func (cv *CallbackValidator) Verify(token Credential) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != http.StatusOK {
-		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		status := resp.StatusCode
+		if status < http.StatusBadRequest {
+			// the refused request must not look like a successful one
+			status = http.StatusForbidden
+		}
+		return response.NewError(status, response.MessageFromJSONBody(resp.Body))
 	}
 	return nil
 }
@@ -39,12 +45,14 @@ func (cv *CallbackValidator) Middleware(c *gin.Context) (bool, error) {
 	if !cv.cfg.Enable {
 		return false, nil
 	}
-	var bucket string
-	idx := strings.IndexByte(c.Request.Host, '.')
-	if idx > 0 {
+	// the header is what the handlers use
+	bucket := c.GetHeader("Bucket")
+	if bucket == "" {
+		idx := strings.IndexByte(c.Request.Host, '.')
+		if idx <= 0 {
+			return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
+		}
 		bucket = c.Request.Host[:idx]
-	} else if bucket = c.GetHeader("Bucket"); bucket == "" {
-		return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
 	}
 	token := &credential.CallbackToken{
 		Bucket:   bucket,
diff --git a/src/apiserver/internal/usecase/componet/auth/password_validator.go b/src/apiserver/internal/usecase/componet/auth/password_validator.go
index dcaeeef..96df5e7 100644
--- a/src/apiserver/internal/usecase/componet/auth/password_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/password_validator.go
@@ -32,7 +32,9 @@ func (pv *PasswordValidator) init(cfg *PasswordConfig) {
 	}
 	resp, err := pv.cli.Get(context.Background(), cst.EtcdPrefix.ApiCredential)
 	if err != nil {
+		// there may be a credential, it must not be replaced
 		logs.Std().Errorf("init PasswordValidator: %s", err)
+		return
 	} else if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
 		logs.Std().Info("exist credential, skip init admin credential")
 		return
-- 
2.43.0


From d9d57ad57abf58d97956f4a33822a63f2bf85783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:04 +0000
Subject: [PATCH 52/66] fix: performance samples must not be lost, duplicated
 or mixed up

- the collector flushed without its lock, lost samples recorded with PutAsync before a
  flush or around Close, and leaked its timer if closed at once
- LocalStore skipped samples when clearing, cleared those of similar names, could not clear
  by one condition, returned wrong actions and broke after clearing everything
- averages and sums broke for names with dots
- EtcdStore could not put more than one sample, lost samples of the same millisecond,
  could not parse its own values, returned sizes before counting them, mixed up similar
  names, counted its lock as data and failed for good after a lost lease
---
 src/common/performance/collector.go   |  73 +++++--
 src/common/performance/etcd_store.go  | 261 +++++++++++++++-----------
 src/common/performance/local_store.go | 131 ++++++-------
 src/common/performance/store.go       |  30 +--
 4 files changed, 295 insertions(+), 200 deletions(-)

diff --git a/src/common/performance/collector.go b/src/common/performance/collector.go
index c0eeb81..8a7f243 100644
--- a/src/common/performance/collector.go
+++ b/src/common/performance/collector.go
@@ -59,6 +59,9 @@ type pmCollector struct {
 	lastSaveTime time.Time
 	mux          sync.Locker
 	stopAutoSave func()
+	closed       bool
+	pending      []*Perform // pending are the samples of PutAsync that are not in memData yet
+	pendingMux   sync.Mutex
 }
 
 func NewCollector(cfg *Config) Collector {
@@ -85,9 +88,19 @@ func (c *pmCollector) PutAsync(action string, kindOf string, cost time.Duration)
 		stack := graceful.GetLimitStacks(6, 1)
 		return []any{fmt.Sprintf("performance: [%s-%s] spend %s:\n%s", kindOf, action, cost, stack)}
 	})
+	// keep the sample at once, so that no later flush misses it
+	c.pendingMux.Lock()
+	c.pending = append(c.pending, &Perform{
+		KindOf: kindOf,
+		Action: action,
+		Cost:   cost,
+	})
+	c.pendingMux.Unlock()
 	go func() {
 		defer graceful.Recover()
-		if err := c.Put(action, kindOf, cost); err != nil {
+		c.mux.Lock()
+		defer c.mux.Unlock()
+		if err := c.takePending(); err != nil {
 			logs.Std().Errorf("put performance err: %s", err)
 		}
 	}()
@@ -96,14 +109,23 @@ func (c *pmCollector) PutAsync(action string, kindOf string, cost time.Duration)
 func (c *pmCollector) Put(action string, kindOf string, cost time.Duration) error {
 	c.mux.Lock()
 	defer c.mux.Unlock()
-	c.memData = append(c.memData, &Perform{
+	return c.add(&Perform{
 		KindOf: kindOf,
 		Action: action,
 		Cost:   cost,
 	})
+}
+
+// add appends to the memory buffer. the caller must hold the lock.
+func (c *pmCollector) add(pm *Perform) error {
+	c.memData = append(c.memData, pm)
+	// nothing flushes later once closed
+	if c.closed {
+		return c.flush()
+	}
 	if len(c.memData) > c.conf.MaxInMemory {
 		if c.conf.FlushWhenReached {
-			if err := c.Flush(); err != nil {
+			if err := c.flush(); err != nil {
 				return err
 			}
 		} else {
@@ -113,8 +135,37 @@ func (c *pmCollector) Put(action string, kindOf string, cost time.Duration) erro
 	return nil
 }
 
-// Flush save in-memory data to Store and clear memory buffer. it's goroutine unsafe.
+// takePending moves the samples of PutAsync to the memory buffer. the caller must hold the lock.
+func (c *pmCollector) takePending() error {
+	c.pendingMux.Lock()
+	pending := c.pending
+	c.pending = nil
+	c.pendingMux.Unlock()
+	var err error
+	for _, pm := range pending {
+		if e := c.add(pm); e != nil {
+			err = e
+		}
+	}
+	return err
+}
+
+// Flush save in-memory data to Store and clear memory buffer.
 func (c *pmCollector) Flush() error {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+	return c.flushAll()
+}
+
+func (c *pmCollector) flushAll() error {
+	if err := c.takePending(); err != nil {
+		pmLog.Errorf("flush pending fail: %s", err)
+	}
+	return c.flush()
+}
+
+// flush saves the memory buffer to Store. the caller must hold the lock.
+func (c *pmCollector) flush() error {
 	c.lastSaveTime = time.Now()
 	if err := c.store.Put(c.memData); err != nil {
 		return err
@@ -126,28 +177,28 @@ func (c *pmCollector) Flush() error {
 func (c *pmCollector) Close() error {
 	c.mux.Lock()
 	defer c.mux.Unlock()
-	if err := c.Flush(); err != nil {
+	if err := c.flushAll(); err != nil {
 		return err
 	}
-	if c.stopAutoSave != nil {
-		c.stopAutoSave()
-	}
+	c.closed = true
+	c.stopAutoSave()
 	return nil
 }
 
 func (c *pmCollector) startAutoFlush() {
+	ctx, cancel := context.WithCancel(context.Background())
+	c.stopAutoSave = cancel
 	go func() {
 		defer graceful.Recover()
 		tk := time.NewTicker(c.conf.FlushInterval)
-		ctx, cancel := context.WithCancel(context.Background())
-		c.stopAutoSave = cancel
+		defer tk.Stop()
 		flushFn := func() {
 			c.mux.Lock()
 			defer c.mux.Unlock()
 			if time.Since(c.lastSaveTime) < c.conf.FlushInterval {
 				return
 			}
-			if err := c.Flush(); err != nil {
+			if err := c.flushAll(); err != nil {
 				pmLog.Errorf("auto flush fail: %s", err)
 			}
 		}
diff --git a/src/common/performance/etcd_store.go b/src/common/performance/etcd_store.go
index aa2f361..e0be439 100644
--- a/src/common/performance/etcd_store.go
+++ b/src/common/performance/etcd_store.go
@@ -2,58 +2,97 @@ package performance
 
 import (
 	"common/collection/set"
-	"common/graceful"
 	"common/util"
-	"common/util/slices"
 	"context"
+	"crypto/rand"
+	"encoding/hex"
 	"fmt"
 	clientv3 "go.etcd.io/etcd/client/v3"
 	"go.etcd.io/etcd/client/v3/concurrency"
+	"sort"
+	"strconv"
 	"strings"
-	"sync"
-	"sync/atomic"
 	"time"
 )
 
 const etcdPrefix = "performance-data"
+const etcdLockPrefix = "performance-lock"
 const maxSize = 1000 * 100
 
+// maxTxnOps is the default limit of operations in one transaction of ETCD.
+const maxTxnOps = 128
+
 // EtcdStore implements Store using ETCD to storage data.
 // it will not save all the data written.
 // maximum write capacity limit to 10,000 entries and only the specified actions are allowed to be written to.
 type EtcdStore struct {
 	kv             clientv3.KV
 	allowedActions set.Set
-	mux            sync.Locker
+	lock           func() (unlock func(), err error)
 }
 
+// getKeyPrefix returns the prefix of the records. kind could be empty for all kinds of the action.
 func (es *EtcdStore) getKeyPrefix(action, kind string) string {
-	return fmt.Sprintf("%s/%s/%s", etcdPrefix, action, kind)
+	if kind == "" {
+		return fmt.Sprintf("%s/%s/", etcdPrefix, action)
+	}
+	return fmt.Sprintf("%s/%s/%s/", etcdPrefix, action, kind)
+}
+
+func (es *EtcdStore) getActions(action string) []string {
+	if action != "" {
+		return []string{action}
+	}
+	return set.To[string](es.allowedActions)
 }
 
+func (es *EtcdStore) commit(ops []clientv3.Op) error {
+	for len(ops) > 0 {
+		n := len(ops)
+		if n > maxTxnOps {
+			n = maxTxnOps
+		}
+		if _, err := es.kv.Txn(context.Background()).Then(ops[:n]...).Commit(); err != nil {
+			return err
+		}
+		ops = ops[n:]
+	}
+	return nil
+}
+
+// removeOldKeys removes the records created first.
 func (es *EtcdStore) removeOldKeys(limit int) error {
-	resp, err := es.kv.Get(context.Background(), etcdPrefix,
-		clientv3.WithPrefix(),
-		clientv3.WithKeysOnly(),
-		clientv3.WithSort(clientv3.SortByKey, clientv3.SortAscend),
-		clientv3.WithLimit(int64(limit)),
-	)
-	if err != nil {
-		return err
+	type record struct {
+		key string
+		rev int64
 	}
-	if len(resp.Kvs) == 0 {
-		return nil
+	var records []record
+	for _, act := range es.getActions("") {
+		resp, err := es.kv.Get(context.Background(), es.getKeyPrefix(act, ""),
+			clientv3.WithPrefix(),
+			clientv3.WithKeysOnly(),
+			clientv3.WithSort(clientv3.SortByCreateRevision, clientv3.SortAscend),
+			clientv3.WithLimit(int64(limit)),
+		)
+		if err != nil {
+			return err
+		}
+		for _, kv := range resp.Kvs {
+			records = append(records, record{string(kv.Key), kv.CreateRevision})
+		}
+	}
+	sort.SliceStable(records, func(i, j int) bool { return records[i].rev < records[j].rev })
+	if len(records) > limit {
+		records = records[:limit]
+	}
+	ops := make([]clientv3.Op, 0, len(records))
+	for _, r := range records {
+		ops = append(ops, clientv3.OpDelete(r.key))
 	}
-	_, err = es.kv.Delete(context.Background(),
-		util.BytesToStr(slices.First(resp.Kvs).Key),
-		clientv3.WithRange(util.BytesToStr(slices.Last(resp.Kvs).Key)),
-	)
-	return err
+	return es.commit(ops)
 }
 
 func (es *EtcdStore) checkSize(addedSize int) error {
-	es.mux.Lock()
-	defer es.mux.Unlock()
 	curSize, err := es.Size("", "")
 	if err != nil {
 		return err
@@ -73,103 +112,95 @@ func (es *EtcdStore) Put(pm []*Perform) error {
 			allows = append(allows, data)
 		}
 	}
-	if err := es.checkSize(len(allows)); err != nil {
-		return err
+	if len(allows) == 0 {
+		return nil
 	}
-	tx := es.kv.Txn(context.Background())
+	if len(allows) > maxSize {
+		allows = allows[len(allows)-maxSize:]
+	}
+	ops := make([]clientv3.Op, 0, len(allows))
 	for _, data := range allows {
-		key := fmt.Sprintf("%s/%d", es.getKeyPrefix(data.Action, data.KindOf), time.Now().UnixMilli())
-		tx.Then(clientv3.OpPut(key, data.Cost.String()))
+		// keeps the id so that putting again after a failure adds nothing twice
+		if data.id == "" {
+			id, err := newRecordID()
+			if err != nil {
+				return err
+			}
+			data.id = id
+		}
+		key := es.getKeyPrefix(data.Action, data.KindOf) + data.id
+		ops = append(ops, clientv3.OpPut(key, strconv.FormatInt(int64(data.Cost), 10)))
+	}
+	unlock, err := es.lock()
+	if err != nil {
+		return fmt.Errorf("lock err: %w", err)
+	}
+	defer unlock()
+	if err = es.checkSize(len(allows)); err != nil {
+		return err
 	}
-	_, err := tx.Commit()
-	return err
+	return es.commit(ops)
+}
+
+func newRecordID() (string, error) {
+	bt := make([]byte, 12)
+	if _, err := rand.Read(bt); err != nil {
+		return "", err
+	}
+	return fmt.Sprintf("%d-%s", time.Now().UnixMilli(), hex.EncodeToString(bt)), nil
 }
 
 func (es *EtcdStore) Get(kindOf, action string) (res []*Perform, err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
-	}
-	resCh := make(chan []*Perform, 1)
-	go func() {
-		defer graceful.Recover()
-		defer close(resCh)
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-		dg := util.NewDoneGroup()
-		defer dg.Close()
-		for _, act := range allowedActions {
-			dg.Todo()
-			go func(a string) {
-				defer dg.Done()
-				resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix())
-				if err != nil {
-					dg.Error(err)
-					return
-				}
-				arr := make([]*Perform, 0, len(resp.Kvs))
-				for _, kv := range resp.Kvs {
-					key := util.BytesToStr(kv.Key)
-					idx := strings.LastIndexByte(key, '/')
-					if idx < 0 {
-						continue
-					}
-					arr = append(arr, &Perform{
-						KindOf: key[idx+1:],
-						Action: action,
-						Cost:   time.Duration(util.ToInt64(util.BytesToStr(kv.Value))),
-					})
-				}
-				resCh <- arr
-			}(act)
+	for _, act := range es.getActions(action) {
+		resp, err := es.kv.Get(context.Background(), es.getKeyPrefix(act, kindOf), clientv3.WithPrefix())
+		if err != nil {
+			return nil, err
+		}
+		for _, kv := range resp.Kvs {
+			key := strings.TrimPrefix(string(kv.Key), es.getKeyPrefix(act, ""))
+			idx := strings.LastIndexByte(key, '/')
+			if idx < 0 {
+				continue
+			}
+			cost, err := parseCost(string(kv.Value))
+			if err != nil {
+				return nil, err
+			}
+			res = append(res, &Perform{
+				KindOf: key[:idx],
+				Action: act,
+				Cost:   cost,
+			})
 		}
-		err = dg.WaitUntilError()
-	}()
-	for arr := range resCh {
-		res = append(res, arr...)
 	}
-	return
+	return res, nil
 }
 
-func (es *EtcdStore) Clear(kindOf, action string) (err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
+func parseCost(s string) (time.Duration, error) {
+	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
+		return time.Duration(n), nil
 	}
-	tx := es.kv.Txn(context.Background())
-	for _, act := range allowedActions {
-		tx.Then(clientv3.OpDelete(es.getKeyPrefix(act, kindOf), clientv3.WithPrefix()))
+	// records of former versions
+	return time.ParseDuration(s)
+}
+
+func (es *EtcdStore) Clear(kindOf, action string) (err error) {
+	var ops []clientv3.Op
+	for _, act := range es.getActions(action) {
+		ops = append(ops, clientv3.OpDelete(es.getKeyPrefix(act, kindOf), clientv3.WithPrefix()))
 	}
-	_, err = tx.Commit()
-	return
+	return es.commit(ops)
 }
 
 func (es *EtcdStore) Size(kindOf, action string) (total int64, err error) {
-	allowedActions := set.To[string](es.allowedActions)
-	if action != "" {
-		allowedActions = []string{action}
-	}
-	go func() {
-		defer graceful.Recover()
-		ctx, cancel := context.WithCancel(context.Background())
-		defer cancel()
-		dg := util.NewDoneGroup()
-		defer dg.Close()
-		for _, act := range allowedActions {
-			dg.Todo()
-			go func(a string) {
-				defer dg.Done()
-				resp, err := es.kv.Get(ctx, es.getKeyPrefix(a, kindOf), clientv3.WithPrefix(), clientv3.WithCountOnly())
-				if err != nil {
-					dg.Error(err)
-					return
-				}
-				atomic.AddInt64(&total, resp.Count)
-			}(act)
+	for _, act := range es.getActions(action) {
+		resp, err := es.kv.Get(context.Background(), es.getKeyPrefix(act, kindOf), clientv3.WithPrefix(), clientv3.WithCountOnly())
+		if err != nil {
+			return 0, err
 		}
-		err = dg.WaitUntilError()
-	}()
-	return
+		total += resp.Count
+	}
+	return total, nil
 }
 
 func (es *EtcdStore) Average(string, string) ([]*Perform, error) {
@@ -181,13 +212,25 @@ func (es *EtcdStore) Sum(string, string) ([]*Perform, error) {
 }
 
 func NewEtcdStore(client *clientv3.Client, allowedActions []string) Store {
-	sess, err := concurrency.NewSession(client, concurrency.WithTTL(15))
-	if err != nil {
-		util.PanicErr(fmt.Errorf("init etcd locker fail: %w", err))
-	}
 	return AvgSumStore(&EtcdStore{
 		kv:             client,
 		allowedActions: set.OfString(allowedActions),
-		mux:            concurrency.NewLocker(sess, etcdPrefix),
+		lock: func() (func(), error) {
+			// a session of its own: one shared lock would not exclude other routines,
+			// and is lost for good when its lease expires
+			sess, err := concurrency.NewSession(client, concurrency.WithTTL(15))
+			if err != nil {
+				return nil, err
+			}
+			mux := concurrency.NewMutex(sess, etcdLockPrefix)
+			if err = mux.Lock(client.Ctx()); err != nil {
+				util.LogErr(sess.Close())
+				return nil, err
+			}
+			return func() {
+				// closing revokes the lease, which releases the lock
+				util.LogErr(sess.Close())
+			}, nil
+		},
 	})
 }
diff --git a/src/common/performance/local_store.go b/src/common/performance/local_store.go
index 942b818..6dfc94a 100644
--- a/src/common/performance/local_store.go
+++ b/src/common/performance/local_store.go
@@ -110,9 +110,9 @@ func (ls *LocalStore) Put(data []*Perform) error {
 }
 
 func (ls *LocalStore) keyPrefix(key string) string {
-	sp := strings.Split(key, ".")
-	if len(sp) == 2 {
-		return sp[0]
+	// names may have dots, and key may be memory of the database
+	if i := strings.LastIndexByte(key, '.'); i >= 0 {
+		return strings.Clone(key[:i])
 	}
 	return ""
 }
@@ -131,21 +131,24 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			var k, v []byte
 			cur := kndBuk.Cursor()
 			if action != "" {
-				k, v = cur.Seek(util.StrToBytes(action))
+				k, v = cur.Seek(util.StrToBytes(action + "."))
 			} else {
 				k, v = cur.First()
 			}
-			for k != nil {
+			for ; k != nil; k, v = cur.Next() {
 				act := ls.keyPrefix(util.BytesToStr(k))
-				if action != "" && act != action {
+				if action != "" && !bytes.HasPrefix(k, util.StrToBytes(action+".")) {
 					break
 				}
+				// skip longer names
+				if action != "" && act != action {
+					continue
+				}
 				res = append(res, &Perform{
 					KindOf: kind,
 					Action: act,
 					Cost:   time.Duration(util.BytesToInt(v)),
 				})
-				k, v = cur.Next()
 			}
 			return nil
 		} else {
@@ -157,15 +160,15 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 			return actBuk.ForEach(func(k, v []byte) error {
 				if v == nil {
 					// if k is a nest bucket (when action is emtpy, action root bucket has nest buckets)
-					actBuk.Bucket(k).ForEach(func(k, v []byte) error {
+					act := string(k)
+					return actBuk.Bucket(k).ForEach(func(k, v []byte) error {
 						res = append(res, &Perform{
 							KindOf: ls.keyPrefix(util.BytesToStr(k)),
-							Action: util.BytesToStr(k),
+							Action: act,
 							Cost:   time.Duration(util.BytesToInt(v)),
 						})
 						return nil
 					})
-					return nil
 				}
 				res = append(res, &Perform{
 					KindOf: ls.keyPrefix(util.BytesToStr(k)),
@@ -179,7 +182,36 @@ func (ls *LocalStore) Get(kind, action string) ([]*Perform, error) {
 	return res, err
 }
 
-func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, prefix []byte) error {
+// deleteName removes all keys of the name from the bucket.
+func (ls *LocalStore) deleteName(bucket *bolt.Bucket, name string) error {
+	prefix := []byte(name + ".")
+	cur := bucket.Cursor()
+	bk, _ := cur.Seek(prefix)
+	for bk != nil && bytes.HasPrefix(bk, prefix) {
+		// skip longer names
+		if ls.keyPrefix(util.BytesToStr(bk)) != name {
+			bk, _ = cur.Next()
+			continue
+		}
+		key := append([]byte{}, bk...)
+		if err := cur.Delete(); err != nil {
+			return err
+		}
+		// the position of the cursor is undefined after a deletion
+		bk, _ = cur.Seek(key)
+	}
+	return nil
+}
+
+// deleteBucket removes the nested bucket if exists.
+func (ls *LocalStore) deleteBucket(root *bolt.Bucket, name string) error {
+	if err := root.DeleteBucket([]byte(name)); err != nil && err != bolt.ErrBucketNotFound {
+		return err
+	}
+	return nil
+}
+
+func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, name string) error {
 	if nestName != "" {
 		nest, err := ls.getBucket(tx, rootName, nestName)
 		if err == errNotExist {
@@ -188,18 +220,7 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if err != nil {
 			return err
 		}
-		cur := nest.Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deleteName(nest, name)
 	}
 	// get root bucket
 	root, err := ls.getBucket(tx, rootName, "")
@@ -214,18 +235,7 @@ func (ls *LocalStore) delete(tx *bolt.Tx, rootName []byte, nestName string, pref
 		if v != nil {
 			return nil
 		}
-		cur := root.Bucket(k).Cursor()
-		bk, _ := cur.Seek(prefix)
-		for bk != nil {
-			if !bytes.HasPrefix(bk, prefix) {
-				break
-			}
-			if err = cur.Delete(); err != nil {
-				return err
-			}
-			bk, _ = cur.Next()
-		}
-		return nil
+		return ls.deleteName(root.Bucket(k), name)
 	})
 }
 
@@ -264,11 +274,11 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete kind bucket directly
-			if err = kindRoot.Delete(util.StrToBytes(kind)); err != nil {
+			if err = ls.deleteBucket(kindRoot, kind); err != nil {
 				return err
 			}
 			// delete from action buckets
-			return ls.delete(tx, actionBucketRoot, action, util.StrToBytes(kind))
+			return ls.delete(tx, actionBucketRoot, action, kind)
 		})
 	} else if kind == "" && action != "" {
 		return ls.db.Update(func(tx *bolt.Tx) error {
@@ -281,34 +291,29 @@ func (ls *LocalStore) Clear(kind, action string) error {
 				return err
 			}
 			// delete action bucket directly
-			if err = actionRoot.Delete(util.StrToBytes(action)); err != nil {
+			if err = ls.deleteBucket(actionRoot, action); err != nil {
 				return err
 			}
 			// delete from kind buckets
-			return ls.delete(tx, kindBucketRoot, kind, util.StrToBytes(action))
+			return ls.delete(tx, kindBucketRoot, kind, action)
 		})
 	} else if action != "" && kind != "" {
-		kindBt := util.StrToBytes(kind)
-		actionBt := util.StrToBytes(action)
 		return ls.db.Update(func(tx *bolt.Tx) error {
-			err := ls.delete(tx, actionBucketRoot, action, kindBt)
+			err := ls.delete(tx, actionBucketRoot, action, kind)
 			if err != nil {
 				return err
 			}
-			return ls.delete(tx, kindBucketRoot, kind, actionBt)
+			return ls.delete(tx, kindBucketRoot, kind, action)
 		})
 	} else {
-		// close db
-		if err := ls.db.Close(); err != nil {
-			return err
-		}
-		// remove db file
-		path := ls.db.Path()
-		if err := os.Remove(path); err != nil {
-			return err
-		}
-		// re-open db
-		return ls.openDatabase(path)
+		return ls.db.Update(func(tx *bolt.Tx) error {
+			for _, root := range [][]byte{actionBucketRoot, kindBucketRoot} {
+				if err := tx.DeleteBucket(root); err != nil && err != bolt.ErrBucketNotFound {
+					return err
+				}
+			}
+			return nil
+		})
 	}
 }
 
@@ -316,6 +321,13 @@ func (ls *LocalStore) Size(kind, action string) (int64, error) {
 	if err := ls.checkDatabase(); err != nil {
 		return 0, err
 	}
+	if action != "" && kind != "" {
+		data, err := ls.Get(kind, action)
+		if err == errNotExist {
+			return 0, nil
+		}
+		return int64(len(data)), err
+	}
 	var total int64
 	err := ls.db.View(func(tx *bolt.Tx) error {
 		if action != "" && kind == "" {
@@ -356,17 +368,6 @@ func (ls *LocalStore) Size(kind, action string) (int64, error) {
 				return nil
 			})
 		}
-		if action != "" && kind != "" {
-			data, err := ls.Get(kind, action)
-			if err == errNotExist {
-				return nil
-			}
-			if err != nil {
-				return err
-			}
-			total = int64(len(data))
-			return nil
-		}
 		return nil
 	})
 	return total, err
diff --git a/src/common/performance/store.go b/src/common/performance/store.go
index 5f7b8b0..218f107 100644
--- a/src/common/performance/store.go
+++ b/src/common/performance/store.go
@@ -1,8 +1,6 @@
 package performance
 
 import (
-	"fmt"
-	"strings"
 	"time"
 )
 
@@ -22,6 +20,8 @@ type Perform struct {
 	KindOf string
 	Action string
 	Cost   time.Duration
+
+	id string // id identifies a stored record. only set by stores that need it.
 }
 
 // Store be used to save or load performance info.
@@ -84,6 +84,10 @@ type avgSumStore struct {
 	Store
 }
 
+type avgSumKey struct {
+	kind, action string
+}
+
 // AvgSumStore inner store could just implement Get, Put, Clear and Size.
 // this will get data from inner store and calculate their Average and Sum.
 func AvgSumStore(inner Store) Store {
@@ -95,20 +99,18 @@ func (as *avgSumStore) Average(kind, action string) ([]*Perform, error) {
 	if err != nil {
 		return nil, err
 	}
-	totalMap := make(map[string]time.Duration)
-	sizeMap := make(map[string]int)
+	totalMap := make(map[avgSumKey]time.Duration)
+	sizeMap := make(map[avgSumKey]int)
 	for _, item := range data {
-		key := fmt.Sprint(item.KindOf, ".", item.Action)
+		key := avgSumKey{item.KindOf, item.Action}
 		totalMap[key] += item.Cost
 		sizeMap[key]++
 	}
 	res := make([]*Perform, 0, len(totalMap))
 	for k, total := range totalMap {
-		sp := strings.Split(k, ".")
-		kind, action := sp[0], sp[1]
 		res = append(res, &Perform{
-			KindOf: kind,
-			Action: action,
+			KindOf: k.kind,
+			Action: k.action,
 			Cost:   total / time.Duration(sizeMap[k]),
 		})
 	}
@@ -120,18 +122,16 @@ func (as *avgSumStore) Sum(kind, action string) ([]*Perform, error) {
 	if err != nil {
 		return nil, err
 	}
-	totalMap := make(map[string]time.Duration)
+	totalMap := make(map[avgSumKey]time.Duration)
 	for _, item := range data {
-		key := fmt.Sprint(item.KindOf, ".", item.Action)
+		key := avgSumKey{item.KindOf, item.Action}
 		totalMap[key] += item.Cost
 	}
 	res := make([]*Perform, 0, len(totalMap))
 	for k, total := range totalMap {
-		sp := strings.Split(k, ".")
-		kind, action := sp[0], sp[1]
 		res = append(res, &Perform{
-			KindOf: kind,
-			Action: action,
+			KindOf: k.kind,
+			Action: k.action,
 			Cost:   total,
 		})
 	}
-- 
2.43.0


From 959f8301d91de35a2349742c2ceb414db3e088e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:02 +0000
Subject: [PATCH 53/66] fix: merged object lists must be sorted as the groups
 sort them and keep the total past the end

---
 src/adminserver/internal/usecase/logic/metadata_logic.go | 2 +-
 src/common/proto/msg/metadata.go                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 7c13dcd..d068735 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -81,7 +81,7 @@ func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, erro
 	if st, ed, ok := util.PagingOffset(cond.Page, cond.PageSize, len(lst)); ok {
 		return lst[st:ed], totals, nil
 	}
-	return []*msg.Metadata{}, 0, nil
+	return []*msg.Metadata{}, totals, nil
 }
 
 func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, error) {
diff --git a/src/common/proto/msg/metadata.go b/src/common/proto/msg/metadata.go
index a4852a9..993c672 100644
--- a/src/common/proto/msg/metadata.go
+++ b/src/common/proto/msg/metadata.go
@@ -22,7 +22,7 @@ type Metadata struct {
 }
 
 func (z *Metadata) ID() string {
-	return fmt.Sprintf(z.Bucket, "/", z.Name)
+	return fmt.Sprint(z.Bucket, "/", z.Name)
 }
 
 type Version struct {
-- 
2.43.0


From a05a4e1eeea7a25190566ba0948b57a77b35bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 54/66] fix: averages of disk statistics ignored read and write
 times and divided by zero without drives

---
 src/common/system/disk/stat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/system/disk/stat.go b/src/common/system/disk/stat.go
index 70f8262..5ca2fd0 100644
--- a/src/common/system/disk/stat.go
+++ b/src/common/system/disk/stat.go
@@ -43,9 +43,13 @@ func GetAverageIOStats() (*IOStats, error) {
 		ioStat.WeightedIO += s.WeightedIO
 		ioStat.ReadCount += s.ReadCount
 		ioStat.WriteCount += s.WriteCount
-		ioStat.ReadTime += ioStat.ReadTime
+		ioStat.ReadTime += s.ReadTime
+		ioStat.WriteTime += s.WriteTime
 	}
 	total := uint64(len(allIoStats))
+	if total == 0 {
+		return &ioStat, nil
+	}
 	ioStat.WeightedIO /= total
 	ioStat.IoTime /= total
 	ioStat.CurrentIOs /= total
-- 
2.43.0


From a7895b5452dca5cf7a4116591ecb39aa707748f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 55/66] fix: published statistics must end with their lease,
 and the console must keep following them

---
 .../internal/usecase/db/server_stat_db.go     | 100 +++++++++++++-----
 .../internal/usecase/logic/server_monitor.go  |   5 +-
 src/apiserver/internal/app/app.go             |   6 +-
 src/common/system/syncer.go                   |  48 +++++++--
 src/metaserver/internal/app/app.go            |   6 +-
 src/objectserver/internal/app/app.go          |   6 +-
 6 files changed, 118 insertions(+), 53 deletions(-)

diff --git a/src/adminserver/internal/usecase/db/server_stat_db.go b/src/adminserver/internal/usecase/db/server_stat_db.go
index 4413eb5..61233f4 100644
--- a/src/adminserver/internal/usecase/db/server_stat_db.go
+++ b/src/adminserver/internal/usecase/db/server_stat_db.go
@@ -9,6 +9,7 @@ import (
 	"common/util"
 	"container/list"
 	"context"
+	"errors"
 	"math"
 	"sync"
 	"time"
@@ -20,6 +21,8 @@ import (
 var (
 	statLog     = logs.New("stat-db")
 	maxTimeStat = 59
+	// pause before a broken watch is repeated
+	followInterval = time.Second
 )
 
 type TimeStat struct {
@@ -82,6 +85,7 @@ type ServerStatDB struct {
 	GroupName string
 	Services  []string
 	closeFn   func()
+	mux       sync.RWMutex
 	timeline  map[string]map[string]*statTimeline
 }
 
@@ -96,53 +100,91 @@ func NewServerStatDB(cli ServerStatCli, groupName string, services []string) *Se
 	return o
 }
 
+// GetTimeline returns a copy, the timeline goes on meanwhile
 func (sdb *ServerStatDB) GetTimeline(servName string) map[string]*statTimeline {
-	if tls, ok := sdb.timeline[servName]; ok {
-		return tls
+	sdb.mux.RLock()
+	defer sdb.mux.RUnlock()
+	res := make(map[string]*statTimeline, len(sdb.timeline[servName]))
+	for id, tl := range sdb.timeline[servName] {
+		cp := newStatTimeline()
+		cp.cpu.PushBackList(tl.cpu)
+		cp.mem.PushBackList(tl.mem)
+		res[id] = cp
 	}
-	return map[string]*statTimeline{}
+	return res
 }
 
 func (sdb *ServerStatDB) init() {
 	ctx, cancel := context.WithCancel(context.Background())
 	sdb.closeFn = cancel
-	var mux sync.Mutex
 	for _, name := range sdb.Services {
 		go func(v string) {
 			defer graceful.Recover()
-			prefix := cst.EtcdPrefix.FmtSystemInfo(sdb.GroupName, v, "")
-			// init value
-			res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
-			if err != nil {
-				statLog.Errorf("init stat of %s fail, %s", v, err)
-			}
-			for _, kv := range res.Kvs {
-				mux.Lock()
-				if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
-					statLog.Error(err)
+			seen := map[string]int64{}
+			for ctx.Err() == nil {
+				if err := sdb.follow(ctx, v, seen); err != nil {
+					statLog.Errorf("follow stat of %s fail, %s", v, err)
+				}
+				select {
+				case <-ctx.Done():
+				case <-time.After(followInterval):
 				}
-				mux.Unlock()
 			}
-			// watch channel
-			ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix())
-			sdb.watching(v, ch)
 		}(name)
 	}
 }
 
+// follow adds the current stats and those published from then on, until the watch is broken.
+// seen holds the revision of the last stat added of each key
+func (sdb *ServerStatDB) follow(ctx context.Context, serv string, seen map[string]int64) error {
+	prefix := cst.EtcdPrefix.FmtSystemInfo(sdb.GroupName, serv, "")
+	res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return err
+	}
+	for _, kv := range res.Kvs {
+		sdb.see(serv, kv, seen)
+	}
+	// a watch of its own, to be released when it is broken
+	watchCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	ch := sdb.Cli.Watch(watchCtx, prefix, clientv3.WithPrefix(), clientv3.WithRev(res.Header.Revision+1))
+	return sdb.watching(serv, ch, seen)
+}
+
+func (sdb *ServerStatDB) see(serv string, kv *mvccpb.KeyValue, seen map[string]int64) {
+	key := string(kv.Key)
+	if kv.ModRevision <= seen[key] {
+		return
+	}
+	seen[key] = kv.ModRevision
+	if err := sdb.addStat(serv, kv.Key, kv.Value); err != nil {
+		statLog.Errorf("decode stat %s: %s", key, err)
+	}
+}
+
 func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	ts := time.Now()
-	mp, ok := sdb.timeline[serv]
-	if !ok {
-		mp = map[string]*statTimeline{}
-		sdb.timeline[serv] = mp
-	}
 	idx := bytes.LastIndex(key, cst.EtcdPrefix.Sep)
 	id := string(key[idx+1:])
 	var sysInfo system.Info
 	if err := util.DecodeMsgp(&sysInfo, value); err != nil {
 		return err
 	}
+	if sysInfo.CpuStatus == nil || sysInfo.MemStatus == nil {
+		return errors.New("incomplete stat")
+	}
+	var memPercent float64
+	if sysInfo.MemStatus.All > 0 {
+		memPercent = math.Ceil(float64(sysInfo.MemStatus.Used)*100/float64(sysInfo.MemStatus.All)) / 100
+	}
+	sdb.mux.Lock()
+	defer sdb.mux.Unlock()
+	mp, ok := sdb.timeline[serv]
+	if !ok {
+		mp = map[string]*statTimeline{}
+		sdb.timeline[serv] = mp
+	}
 	tl, ok := mp[id]
 	if !ok {
 		mp[id] = newStatTimeline()
@@ -153,22 +195,24 @@ func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 		Percent: sysInfo.CpuStatus.UsedPercent,
 	}, &TimeStat{
 		Time:    ts,
-		Percent: math.Ceil(float64(sysInfo.MemStatus.Used)*100/float64(sysInfo.MemStatus.All)) / 100,
+		Percent: memPercent,
 	})
 	return nil
 }
 
-func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan) {
+func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan, seen map[string]int64) error {
 	for v := range ch {
 		for _, event := range v.Events {
 			if event.Type != mvccpb.PUT {
 				continue
 			}
-			if err := sdb.addStat(serv, event.Kv.Key, event.Kv.Value); err != nil {
-				statLog.Error(err)
-			}
+			sdb.see(serv, event.Kv, seen)
+		}
+		if err := v.Err(); err != nil {
+			return err
 		}
 	}
+	return nil
 }
 
 func (sdb *ServerStatDB) Close() error {
diff --git a/src/adminserver/internal/usecase/logic/server_monitor.go b/src/adminserver/internal/usecase/logic/server_monitor.go
index dafa1f4..7d86328 100644
--- a/src/adminserver/internal/usecase/logic/server_monitor.go
+++ b/src/adminserver/internal/usecase/logic/server_monitor.go
@@ -6,6 +6,7 @@ import (
 	"adminserver/internal/usecase/pool"
 	"common/cst"
 	"common/datasize"
+	"common/logs"
 	"common/system"
 	"common/util"
 	"context"
@@ -30,7 +31,9 @@ func (ServerMonitor) SysInfo(servName string) (map[string]*system.Info, error) {
 	for _, kv := range resp.Kvs {
 		var info system.Info
 		if err = util.DecodeMsgp(&info, kv.Value); err != nil {
-			return nil, err
+			// must not hide the other servers
+			logs.Std().Errorf("decode system info %s: %s", kv.Key, err)
+			continue
 		}
 		sp := strings.Split(string(kv.Key), "/")
 		serverId := sp[len(sp)-1]
diff --git a/src/apiserver/internal/app/app.go b/src/apiserver/internal/app/app.go
index ce6adc6..5817c9f 100644
--- a/src/apiserver/internal/app/app.go
+++ b/src/apiserver/internal/app/app.go
@@ -10,7 +10,6 @@ import (
 	"common/graceful"
 	"common/registry"
 	"common/system"
-	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
 func Run(cfg *Config) {
@@ -34,10 +33,7 @@ func Run(cfg *Config) {
 
 	// system-info auto saving
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
-	lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
-		_ = syncer.Sync()
-	})
+	lifecycle.Subscribe(syncer.OnLeaseChanged)
 	defer syncer.StartAutoSave()()
 
 	// start lifecycle
diff --git a/src/common/system/syncer.go b/src/common/system/syncer.go
index 9292b97..55bd0a1 100644
--- a/src/common/system/syncer.go
+++ b/src/common/system/syncer.go
@@ -6,7 +6,10 @@ import (
 	"common/system/disk"
 	"common/util"
 	"context"
+	"errors"
 	clientv3 "go.etcd.io/etcd/client/v3"
+	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -15,23 +18,35 @@ var (
 )
 
 type StatSyncer struct {
-	cli     clientv3.KV
-	key     string
-	LeaseID clientv3.LeaseID
+	cli    clientv3.KV
+	key    string
+	lease  atomic.Int64
+	mux    sync.Mutex // one publication at a time, none after clearing
+	ctx    context.Context
+	cancel func()
 }
 
 func Syncer(c clientv3.KV, key string) *StatSyncer {
-	return &StatSyncer{cli: c, key: key}
+	ctx, cancel := context.WithCancel(context.Background())
+	return &StatSyncer{cli: c, key: key, ctx: ctx, cancel: cancel}
+}
+
+// OnLeaseChanged publishes under the lease from now on
+func (d *StatSyncer) OnLeaseChanged(id clientv3.LeaseID) {
+	d.lease.Store(int64(id))
+	if err := d.Sync(); err != nil {
+		syncLog.Warnf("sync err: %s", err)
+	}
 }
 
 func (d *StatSyncer) StartAutoSave() func() {
-	ctx, cancel := context.WithCancel(context.Background())
 	tk := time.NewTicker(time.Minute)
 	go func() {
 		defer graceful.Recover()
+		defer tk.Stop()
 		for {
 			select {
-			case <-ctx.Done():
+			case <-d.ctx.Done():
 				syncLog.Info("stop sync sys-info")
 				return
 			case <-tk.C:
@@ -42,7 +57,6 @@ func (d *StatSyncer) StartAutoSave() func() {
 		}
 	}()
 	return func() {
-		cancel()
 		if err := d.Clear(); err != nil {
 			syncLog.Warnf("clear err: %s", err)
 		}
@@ -58,11 +72,27 @@ func (d *StatSyncer) Sync() error {
 	if err != nil {
 		return err
 	}
-	_, err = d.cli.Put(context.Background(), d.key, string(bt), clientv3.WithLease(d.LeaseID))
+	d.mux.Lock()
+	defer d.mux.Unlock()
+	if err = d.ctx.Err(); err != nil {
+		return err
+	}
+	lease := d.lease.Load()
+	if lease == 0 {
+		// would stay for ever
+		return errors.New("no lease to publish system info")
+	}
+	_, err = d.cli.Put(d.ctx, d.key, string(bt), clientv3.WithLease(clientv3.LeaseID(lease)))
 	return err
 }
 
+// Clear removes the published info, nothing is published after it
 func (d *StatSyncer) Clear() error {
-	_, err := d.cli.Delete(context.Background(), d.key)
+	d.cancel()
+	d.mux.Lock()
+	defer d.mux.Unlock()
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	_, err := d.cli.Delete(ctx, d.key)
 	return err
 }
diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index b21fe17..ab4ff38 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -5,7 +5,6 @@ import (
 	"common/graceful"
 	"common/system"
 	"common/util"
-	clientv3 "go.etcd.io/etcd/client/v3"
 	"metaserver/config"
 	"metaserver/internal/controller/grpc"
 	"metaserver/internal/controller/http"
@@ -43,10 +42,7 @@ func Run(cfg *config.Config) {
 	httpServer := http.NewHttpServer(cfg.Port, grpcServer, metaService, bucketServ)
 	// auto sync sys-info
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
-	pool.Lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
-		_ = syncer.Sync()
-	})
+	pool.Lifecycle.Subscribe(syncer.OnLeaseChanged)
 	defer syncer.StartAutoSave()()
 	// registry
 	if raftWrapper.Enabled {
diff --git a/src/objectserver/internal/app/app.go b/src/objectserver/internal/app/app.go
index d96bdaf..c053236 100644
--- a/src/objectserver/internal/app/app.go
+++ b/src/objectserver/internal/app/app.go
@@ -5,7 +5,6 @@ import (
 	"common/graceful"
 	"common/registry"
 	"common/system"
-	clientv3 "go.etcd.io/etcd/client/v3"
 	"objectserver/config"
 	"objectserver/internal/controller/grpc"
 	"objectserver/internal/controller/http"
@@ -22,10 +21,7 @@ func Run(cfg *config.Config) {
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
 	// lifecycle event
 	lifecycle.Subscribe(pool.Registry.Register)
-	lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
-		_ = syncer.Sync()
-	})
+	lifecycle.Subscribe(syncer.OnLeaseChanged)
 	pool.OnOpen(func() {
 		go lifecycle.DeadLoop()
 		pool.OnClose(
-- 
2.43.0


From 1469e1074f69e9e0ea1108168d81fb6f9b0c2498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:05 +0000
Subject: [PATCH 56/66] fix: refuse parameters of the wrong type, also when
 others are bound after them

---
 src/adminserver/internal/entity/binder.go  | 5 +++++
 src/apiserver/internal/entity/binder.go    | 5 +++++
 src/apiserver/internal/entity/dto.go       | 5 +++--
 src/metaserver/internal/entity/binder.go   | 5 +++++
 src/objectserver/internal/entity/binder.go | 5 +++++
 5 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/adminserver/internal/entity/binder.go b/src/adminserver/internal/entity/binder.go
index 1338252..50bf2f5 100644
--- a/src/adminserver/internal/entity/binder.go
+++ b/src/adminserver/internal/entity/binder.go
@@ -3,6 +3,7 @@ package entity
 import (
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
+	"github.com/go-playground/validator/v10"
 )
 
 var FullBindings = []any{binding.Uri, binding.Query, binding.JSON}
@@ -24,6 +25,10 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		// what is required may be bound later, but a malformed value stays malformed
+		if _, ok := e.(validator.ValidationErrors); e != nil && !ok {
+			return e
+		}
 	}
 	return e
 }
diff --git a/src/apiserver/internal/entity/binder.go b/src/apiserver/internal/entity/binder.go
index 08be0ca..1ab84d4 100644
--- a/src/apiserver/internal/entity/binder.go
+++ b/src/apiserver/internal/entity/binder.go
@@ -3,6 +3,7 @@ package entity
 import (
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
+	"github.com/go-playground/validator/v10"
 )
 
 var FullBindings = []any{binding.Uri, binding.Query, binding.Header, binding.JSON}
@@ -24,6 +25,10 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		// what is required may be bound later, but a malformed value stays malformed
+		if _, ok := e.(validator.ValidationErrors); e != nil && !ok {
+			return e
+		}
 	}
 	return e
 }
diff --git a/src/apiserver/internal/entity/dto.go b/src/apiserver/internal/entity/dto.go
index e44d419..68cafca 100644
--- a/src/apiserver/internal/entity/dto.go
+++ b/src/apiserver/internal/entity/dto.go
@@ -28,14 +28,15 @@ type PutReq struct {
 	Hash     string         `header:"digest" binding:"required"`
 	Ext      string
 	Locate   []string
-	Body     io.Reader
+	Body     io.Reader `uri:"-" header:"-" form:"-"`
 }
 
 type GetReq struct {
 	Name    string `uri:"name" binding:"required"`
 	Bucket  string `header:"bucket" binding:"required"`
 	Version int32  `form:"version" binding:"min=0"`
-	Range   request.Range
+	// Range is not bound but converted
+	Range request.Range `uri:"-" header:"-" form:"-"`
 }
 
 type BigPostReq struct {
diff --git a/src/metaserver/internal/entity/binder.go b/src/metaserver/internal/entity/binder.go
index b519136..ae3f04c 100644
--- a/src/metaserver/internal/entity/binder.go
+++ b/src/metaserver/internal/entity/binder.go
@@ -3,6 +3,7 @@ package entity
 import (
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
+	"github.com/go-playground/validator/v10"
 )
 
 var FullBindings = []any{binding.Uri, binding.JSON, binding.Query}
@@ -17,6 +18,10 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		// what is required may be bound later, but a malformed value stays malformed
+		if _, ok := e.(validator.ValidationErrors); e != nil && !ok {
+			return e
+		}
 	}
 	return e
 }
diff --git a/src/objectserver/internal/entity/binder.go b/src/objectserver/internal/entity/binder.go
index fd38502..b254f06 100644
--- a/src/objectserver/internal/entity/binder.go
+++ b/src/objectserver/internal/entity/binder.go
@@ -3,6 +3,7 @@ package entity
 import (
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
+	"github.com/go-playground/validator/v10"
 )
 
 func BindAll(c *gin.Context, obj any, bindings ...any) error {
@@ -15,6 +16,10 @@ func BindAll(c *gin.Context, obj any, bindings ...any) error {
 		} else if trans2, ok := b.(binding.Binding); ok {
 			e = c.ShouldBindWith(obj, trans2)
 		}
+		// what is required may be bound later, but a malformed value stays malformed
+		if _, ok := e.(validator.ValidationErrors); e != nil && !ok {
+			return e
+		}
 	}
 	return e
 }
-- 
2.43.0


From 26bf4420704b820f540cc52058082c6871c3e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:05 +0000
Subject: [PATCH 57/66] fix: refuse a version that is not a number instead of
 taking another one

---
 src/common/request/request.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/request/request.go b/src/common/request/request.go
index c0ebd8a..095f6ea 100644
--- a/src/common/request/request.go
+++ b/src/common/request/request.go
@@ -2,12 +2,12 @@ package request
 
 import (
 	"bytes"
-	"common/util"
 	"encoding/json"
 	"fmt"
 	"io"
 	"net/http"
 	"net/url"
+	"strconv"
 
 	"github.com/gin-gonic/gin"
 )
@@ -19,7 +19,8 @@ const (
 
 func GetQryInt(key string, c *gin.Context) (int, bool) {
 	if v, ok := c.GetQuery(key); ok {
-		return util.ToInt(v), true
+		i, err := strconv.Atoi(v)
+		return i, err == nil
 	}
 	return 0, false
 }
-- 
2.43.0


From 2a470cd8221d66b64e7e0ccc8156749b16197c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:05 +0000
Subject: [PATCH 58/66] fix: refuse an update of metadata that cannot be
 decoded instead of saving an empty one

---
 src/metaserver/internal/controller/http/metadata_rest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/controller/http/metadata_rest.go b/src/metaserver/internal/controller/http/metadata_rest.go
index d72179c..b6d769d 100644
--- a/src/metaserver/internal/controller/http/metadata_rest.go
+++ b/src/metaserver/internal/controller/http/metadata_rest.go
@@ -42,7 +42,10 @@ func (m *MetadataController) Post(g *gin.Context) {
 
 func (m *MetadataController) Put(g *gin.Context) {
 	var data msg.Metadata
-	_ = g.ShouldBindJSON(&data)
+	if err := g.ShouldBindJSON(&data); err != nil {
+		response.FailErr(err, g)
+		return
+	}
 	if err := m.service.UpdateMetadata(g.Param("name"), &data); err != nil {
 		response.FailErr(err, g)
 		return
-- 
2.43.0


From e1b8af88e633d07ef8efa6e435a9cd2264f1a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:05 +0000
Subject: [PATCH 59/66] fix: refuse to announce an upload of a negative size

---
 src/objectserver/internal/entity/dto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objectserver/internal/entity/dto.go b/src/objectserver/internal/entity/dto.go
index 98abd6e..6f472cc 100644
--- a/src/objectserver/internal/entity/dto.go
+++ b/src/objectserver/internal/entity/dto.go
@@ -12,7 +12,7 @@ const TempKeyPrefix = "TempInfo_"
 
 type TempPostReq struct {
 	Name string `uri:"name" binding:"required"`
-	Size int64  `header:"size" binding:"required"`
+	Size int64  `header:"size" binding:"required,min=1"`
 }
 
 func (tp *TempPostReq) Bind(c *gin.Context) error {
-- 
2.43.0


From eca973fbd8107e6311e45826b0479649211a92ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:06 +0000
Subject: [PATCH 60/66] fix: remove the temp file of an object that cannot be
 stored under its name

---
 .../internal/usecase/service/objects_service.go            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9ff0416..4dcbc94 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -161,7 +161,12 @@ func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
 		}
 		return
 	}
-	return storeFile(tempPath, mp, fileName)
+	if err = storeFile(tempPath, mp, fileName); err != nil {
+		if inner := os.Remove(tempPath); !os.IsNotExist(inner) {
+			util.LogErr(inner)
+		}
+	}
+	return
 }
 
 // removePadding cuts off what has been added to fill the last block
-- 
2.43.0


From e5337954f0cc2031b87be7c6a5e37afa3cb5bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:06 +0000
Subject: [PATCH 61/66] fix: refuse the names of temp files for objects of temp
 uploads, too

---
 src/objectserver/internal/usecase/service/objects_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 4dcbc94..37248a9 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -180,6 +180,9 @@ func removePadding(path string, size int64) error {
 
 // storeFile makes a complete file the object with the name. if the object exists, the file will be removed.
 func storeFile(tempPath, mountPoint, fileName string) error {
+	if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
+		return response.NewError(400, "not allowed name of object")
+	}
 	defer nameLocks.lock(fileName)()
 	if exist(fileName) {
 		if err := os.Remove(tempPath); err != nil && !os.IsNotExist(err) {
-- 
2.43.0


From 7b3f0bf6605d7414c56fe2e5f1c30f31fa2615c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 62/66] fix: keep the credential of a session on requests
 without one and forget it at logout

---
 src/adminserver/internal/controller/http/auth.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/adminserver/internal/controller/http/auth.go b/src/adminserver/internal/controller/http/auth.go
index 3b2e95d..3f9717e 100644
--- a/src/adminserver/internal/controller/http/auth.go
+++ b/src/adminserver/internal/controller/http/auth.go
@@ -17,6 +17,10 @@ func SaveToken(c *gin.Context) {
 	sess := sessions.Default(c)
 	originToken := sess.Get(authTokenKey)
 	authToken := c.GetHeader("Authorization")
+	// a request without credential is one of the session
+	if authToken == "" {
+		return
+	}
 	if originToken != nil && originToken.(string) == authToken {
 		return
 	}
@@ -44,7 +48,12 @@ func RequireToken(c *gin.Context) {
 
 func ClearCredential(router gin.IRouter) {
 	router.POST("/logout", func(c *gin.Context) {
-		sessions.Default(c).Clear()
+		sess := sessions.Default(c)
+		sess.Clear()
+		if err := sess.Save(); err != nil {
+			response.FailErr(err, c)
+			return
+		}
 		response.Ok(c)
 	})
 }
-- 
2.43.0


From 1cc9d0b89a62d501147b72c1ce35383572a1464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 63/66] fix: escape names in requests of the console to the api
 server

---
 .../internal/usecase/webapi/api_server.go        | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index 6cded40..a4b4df4 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -10,10 +10,16 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"strings"
 )
 
+// escapeName makes a name a segment of a path. The api server does not unescape it if more is escaped than necessary.
+func escapeName(name string) string {
+	return strings.ReplaceAll((&url.URL{Path: name}).EscapedPath(), "/", "%2F")
+}
+
 func ListVersion(ip, name, bucket string, page, pageSize int, token string) ([]byte, int, error) {
-	url := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize)
+	url := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, escapeName(name), page, pageSize)
 	req, err := http.NewRequest(http.MethodGet, url, nil)
 	if err != nil {
 		return nil, 0, err
@@ -34,7 +40,7 @@ func ListVersion(ip, name, bucket string, page, pageSize int, token string) ([]b
 }
 
 func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, token string) error {
-	name = url.PathEscape(name)
+	name = escapeName(name)
 	req, err := http.NewRequest(http.MethodPut, fmt.Sprintf("%s://%s/v1/objects/%s", GetSchema(), ip, name), fileIO)
 	if err != nil {
 		return err
@@ -55,7 +61,7 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 }
 
 func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, name, version), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, escapeName(name), version), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -106,7 +112,7 @@ func CreateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func UpdateBucket(ip string, b *msg.Bucket, token string) error {
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, b.Name), b)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, escapeName(b.Name)), b)
 	if err != nil {
 		return err
 	}
@@ -123,7 +129,7 @@ func UpdateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func DeleteBucket(ip, name string, token string) error {
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, escapeName(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 21be904ea74530dfded870be444e401d1734fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:50 +0000
Subject: [PATCH 64/66] fix: a download of the console that breaks off looked
 complete

---
 src/adminserver/internal/controller/http/object.go | 14 ++++++++++----
 .../internal/usecase/logic/object_logic.go         |  2 +-
 .../internal/usecase/webapi/api_server.go          | 11 ++++++-----
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/adminserver/internal/controller/http/object.go b/src/adminserver/internal/controller/http/object.go
index 4bdb5d1..1b6c444 100644
--- a/src/adminserver/internal/controller/http/object.go
+++ b/src/adminserver/internal/controller/http/object.go
@@ -4,7 +4,9 @@ import (
 	"adminserver/internal/entity"
 	"adminserver/internal/usecase/logic"
 	"adminserver/internal/usecase/pool"
+	"common/logs"
 	"common/response"
+	"common/util"
 	"github.com/gin-gonic/gin"
 	"io"
 	"mime/multipart"
@@ -52,16 +54,20 @@ func (oc *ObjectsController) Download(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	reader, err := logic.NewObjects().Download(body.Name, body.Bucket, body.Version, GetAuthToken(c))
+	reader, size, err := logic.NewObjects().Download(body.Name, body.Bucket, body.Version, GetAuthToken(c))
 	if err != nil {
 		response.FailErr(err, c)
 		return
 	}
-	if _, err = io.Copy(c.Writer, reader); err != nil {
-		response.FailErr(err, c)
-		return
+	defer util.CloseAndLog(reader)
+	// with the length in advance, a failure while copying is recognizable
+	if size >= 0 {
+		c.Header("Content-Length", util.ToString(size))
 	}
 	response.Ok(c)
+	if _, err = io.Copy(c.Writer, reader); err != nil {
+		logs.Std().Error(err)
+	}
 }
 
 func (oc *ObjectsController) Join(c *gin.Context) {
diff --git a/src/adminserver/internal/usecase/logic/object_logic.go b/src/adminserver/internal/usecase/logic/object_logic.go
index b46c4e2..e7489bb 100644
--- a/src/adminserver/internal/usecase/logic/object_logic.go
+++ b/src/adminserver/internal/usecase/logic/object_logic.go
@@ -36,7 +36,7 @@ func (Objects) Upload(file *multipart.FileHeader, bucket, token string) error {
 	return webapi.PutObjects(SelectApiServer(), file.Filename, hash, bucket, fileBody, file.Size, token)
 }
 
-func (Objects) Download(name, bucket string, version int, token string) (io.ReadCloser, error) {
+func (Objects) Download(name, bucket string, version int, token string) (io.ReadCloser, int64, error) {
 	return webapi.GetObjects(SelectApiServer(), name, bucket, version, token)
 }
 
diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index a4b4df4..a835efe 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -60,21 +60,22 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 	return nil
 }
 
-func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
+// GetObjects returns the content and its length (-1 if unknown)
+func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, int64, error) {
 	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, escapeName(name), version), nil)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	req.Header.Set("Bucket", bucket)
 	req.Header.Set("Authorization", token)
 	resp, err := pool.Http.Do(req)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	if resp.StatusCode != http.StatusOK {
-		return nil, response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		return nil, 0, response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
-	return resp.Body, nil
+	return resp.Body, resp.ContentLength, nil
 }
 
 func CheckToken(ip, token string) error {
-- 
2.43.0


From 5a25c3d24e1401b3e94a0faabb426d7f7a6eaf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:55 +0000
Subject: [PATCH 65/66] fix: report a refusal to leave a cluster of metadata
 servers

---
 .../internal/usecase/logic/metadata_logic.go           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index d068735..d5526c3 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -192,8 +192,14 @@ func (m Metadata) LeaveRaftCluster(servId string) error {
 	if err != nil {
 		return err
 	}
-	_, err = pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
-	return err
+	resp, err := pb.NewRaftCmdClient(cc).LeaveCluster(context.Background(), new(pb.EmptyReq))
+	if err != nil {
+		return err
+	}
+	if !resp.Success {
+		return response.NewError(400, resp.Message)
+	}
+	return nil
 }
 
 func (m Metadata) JoinRaftCluster(masterId, servId string) error {
-- 
2.43.0


From 058eb8afbcc153b21e17d12fa3026dd31f226da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:59 +0000
Subject: [PATCH 66/66] fix: connections of the console were looked up without
 lock

---
 src/adminserver/internal/usecase/logic/conn.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/logic/conn.go b/src/adminserver/internal/usecase/logic/conn.go
index 4d67865..7270a07 100644
--- a/src/adminserver/internal/usecase/logic/conn.go
+++ b/src/adminserver/internal/usecase/logic/conn.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
-- 
2.43.0

