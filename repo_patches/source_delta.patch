From 5607aa0c2c8f8dab284de09bd9ac258871922c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 01/32] fix: embedded lookup must not report a deleted item
 without live predecessor

---
 map_embedded.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/map_embedded.go b/map_embedded.go
index 0012d26..01e06c7 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -35,11 +35,17 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 		if item == nil {
 			return true
 		}
+		if item.IsDeleted() {
+			// every item up to i is deleted, no live item to compare with
+			return false
+		}
 		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
 		//return items.reverseAt(i) >= reverseNoMask
 	})
 	if idx < l && items.reverseAt(idx) == reverseNoMask {
-		return items._at(idx, true, true)
+		if item := items._at(idx, true, true); item != nil && !item.IsDeleted() {
+			return item
+		}
 	}
 
 	a := bucket.toBase().prevAsB()
-- 
2.43.0


From 175d7163cc3f4e51693e6e62778ee1108704a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 02/32] fix: shrinking an embedded pool must only drop deleted
 slots

---
 map_embedded.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map_embedded.go b/map_embedded.go
index 01e06c7..004c49b 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -724,7 +724,7 @@ func (sp *samepleItemPool) shrinkLen() {
 		if item == nil || !item.IsDeleted() {
 			break
 		}
-		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, l, i-1) {
+		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, i+1, i) {
 			break
 		}
 		if !item.Empty() {
-- 
2.43.0


From 1a82cd0ecb9e60fe135942efaba53bce2c6f5b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 03/32] fix: reset a recycled tail slot before handing it out

---
 map_embedded.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/map_embedded.go b/map_embedded.go
index 004c49b..25f14bc 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -317,8 +317,12 @@ func (sp *samepleItemPool) appendLast(mu sync.Locker) (newItem MapItem, nPool *s
 	if l >= items.Cap() {
 		return nil, nil, fn
 	}
+	// the slot may have been used by an item purged from the tail
+	new = items._at(l, false, false)
+	atomic.StoreUint64(&new.reverse, 0)
+	atomic.StoreUint64(&new.conflict, 0)
+	atomic.StoreUint32((*uint32)(&new.state), 0)
 	if atomic_util.CompareAndSwapInt(&items.len, l, l+1) {
-		new = items.at(l)
 		return new, nil, fn
 	}
 	Log(LogWarn, "retry to fail to expand")
-- 
2.43.0


From 5cbdbbe88b006b6d3424dfa0a68e2592bb1a0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 04/32] fix: recycle a deleted embedded slot only where the
 pool order is kept

---
 map_embedded.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/map_embedded.go b/map_embedded.go
index 25f14bc..2f9c2c8 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -264,6 +264,11 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 		return getNoCap
 	}
 
+	if tail < 0 {
+		// no live item. nothing to keep the order with
+		return getLargest
+	}
+
 	items := sp.itemSlice(false)
 	last := items._at(tail, false, true)
 	if atomic.LoadUint64(&last.reverse) < reverse {
@@ -278,7 +283,7 @@ func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, b
 
 	items := sp.ptrItems()
 
-	idx := sort.Search(tail, func(i int) bool {
+	idx := sort.Search(tail+1, func(i int) bool {
 		item := items._at(i, true, false)
 		return atomic.LoadUint64(&item.reverse) > reverse
 	})
@@ -288,6 +293,21 @@ func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, b
 	mItem := items._at(idx-1, true, false)
 
 	if mItem.IsDeleted() && !mItem.Empty() {
+		// recycle only between live neighbours that keep the order
+		left := items._at(idx-1, true, true)
+		if !left.IsDeleted() && atomic.LoadUint64(&left.reverse) >= reverse {
+			return -1, false
+		}
+		for i := idx; i <= tail; i++ {
+			right := items._at(i, true, false)
+			if right.IsDeleted() {
+				continue
+			}
+			if atomic.LoadUint64(&right.reverse) <= reverse {
+				return -1, false
+			}
+			break
+		}
 		//mItem.Init()
 		return idx - 1, true
 	}
-- 
2.43.0


From 737ab96b5ddaa61097ba41c48a0280a0e0fbe2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 05/32] fix: keep individually allocated items reachable for
 the garbage collector

---
 map.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/map.go b/map.go
index ce5b69c..356bd59 100644
--- a/map.go
+++ b/map.go
@@ -15,6 +15,7 @@ import (
 	"sync"
 	"sync/atomic"
 	"syscall"
+	"unsafe"
 
 	"github.com/kazu/elist_head"
 	"github.com/kazu/loncha"
@@ -60,6 +61,26 @@ type Map struct {
 	pooler *Pool
 
 	isEmbededItemInBucket bool
+
+	// entries allocated one by one. items are linked by relative offsets that
+	// the garbage collector cannot follow, so that the map must refer to them.
+	retained unsafe.Pointer // *retainedEntry
+}
+
+type retainedEntry struct {
+	entry HMapEntry
+	next  unsafe.Pointer // *retainedEntry
+}
+
+// retain ... keep entry reachable for the garbage collector as long as the map.
+func (h *Map) retain(entry HMapEntry) {
+	r := &retainedEntry{entry: entry}
+	for {
+		r.next = atomic.LoadPointer(&h.retained)
+		if atomic.CompareAndSwapPointer(&h.retained, r.next, unsafe.Pointer(r)) {
+			return
+		}
+	}
 }
 
 var conf mapConf = mapConf{
@@ -323,6 +344,7 @@ func (h *Map) _validateallbucket() {
 
 // TestSet ... _set() for Test
 func (h *Map) TestSet(k, conflict uint64, btable *bucket, item MapItem) bool {
+	h.retain(item)
 	return h._set(k, conflict, btable.toBase(), item)
 }
 
@@ -683,6 +705,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	} else {
 		s = &SampleItem{}
+		h.retain(s)
 	}
 
 	s.K = key.(string)
@@ -713,6 +736,7 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
 
-- 
2.43.0


From 491a7c8eb3089c8230e4730c2a5e08fc2212d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 06/32] fix: UsePool/UseEmbeddedPool return an option that
 restores the previous storage

---
 map.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/map.go b/map.go
index 356bd59..852f2b9 100644
--- a/map.go
+++ b/map.go
@@ -139,8 +139,19 @@ func ItemFn(fn func() MapItem) OptHMap {
 	}
 }
 
+// restoreStorage ... option to take back the storage selected before UsePool()/UseEmbeddedPool()
+func restoreStorage(embedded bool, pooler *Pool) OptHMap {
+	return func(h *Map) OptHMap {
+		prev := restoreStorage(h.isEmbededItemInBucket, h.pooler)
+		h.isEmbededItemInBucket = embedded
+		h.pooler = pooler
+		return prev
+	}
+}
+
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
+		prev := restoreStorage(h.isEmbededItemInBucket, h.pooler)
 		if !enable {
 			h.pooler = nil
 		} else if h.pooler == nil {
@@ -148,19 +159,19 @@ func UsePool(enable bool) OptHMap {
 			h.pooler.startMgr()
 		}
 
-		return UsePool(!enable)
+		return prev
 	}
 }
 
 func UseEmbeddedPool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
-		old := h.isEmbededItemInBucket
+		prev := restoreStorage(h.isEmbededItemInBucket, h.pooler)
 		h.isEmbededItemInBucket = enable
 		if enable {
 			UsePool(false)(h)
 		}
 
-		return UsePool(old)
+		return prev
 	}
 }
 
-- 
2.43.0


From 88d91d273789772174733a2822dbfefea017e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 07/32] fix: count deleted and purged entries out of Len

---
 map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 852f2b9..5fc43c5 100644
--- a/map.go
+++ b/map.go
@@ -244,7 +244,7 @@ func (h *Map) cactchSigBua() {
 }
 
 func (h *Map) Len() int {
-	return int(h.len)
+	return int(atomic.LoadInt64(&h.len))
 }
 
 func (h *Map) AddLen(inc int64) int64 {
@@ -1589,6 +1589,7 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	return true
 
 }
@@ -1626,6 +1627,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 
 	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
 	item.PtrListHead().MarkForDelete()
-- 
2.43.0


From 0dd779f17be9fbdef32fad6bfba9d683b21682d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 08/32] fix: values of different types can be set to one key

---
 sample_hmap_entry.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index d006d7a..ebc7978 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -20,6 +20,11 @@ type SampleItem struct {
 	MapHead
 }
 
+// itemValue ... box of a value. atomic.Value only accepts one concrete type.
+type itemValue struct {
+	v interface{}
+}
+
 var sampleItem MapItem = &SampleItem{}
 
 //var EmptySampleHMapEntry SampleItem = SampleItem{}
@@ -53,14 +58,18 @@ func (s *SampleItem) Key() interface{} {
 }
 
 func (s *SampleItem) Value() interface{} {
-	return s.V.Load()
+	v := s.V.Load()
+	if boxed, ok := v.(itemValue); ok {
+		return boxed.v
+	}
+	return v
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
 	if v == nil {
 		return false
 	}
-	s.V.Store(v)
+	s.V.Store(itemValue{v})
 	return true
 }
 
-- 
2.43.0


From 49002fb8b241af611dd133350254f8b4b1063dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 09/32] fix: SampleItem.Setup stores the bit-reversed hash

---
 sample_hmap_entry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index ebc7978..536a49e 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"math/bits"
 	"sync/atomic"
 	"unsafe"
 
@@ -74,8 +75,8 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 }
 
 func (s *SampleItem) Setup() {
-	s.reverse, s.conflict = KeyToHash(s.Key())
-
+	k, conflict := KeyToHash(s.Key())
+	s.reverse, s.conflict = bits.Reverse64(k), conflict
 }
 
 func (s *SampleItem) Next() HMapEntry {
-- 
2.43.0


From d067e71af9cbbd886e4b41de8d1085f59e286cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 10/32] fix: StoreItem without ItemFn option must not expose
 items as another type

---
 map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/map.go b/map.go
index 5fc43c5..7aef6ed 100644
--- a/map.go
+++ b/map.go
@@ -747,6 +747,13 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	// without ItemFn option, entries are looked at as the type of the stored item
+	if _, ok := h.ItemFn().(*entryHMap); ok {
+		if _, ok := item.(*entryHMap); !ok {
+			ItemFn(func() MapItem { return item })(h)
+		}
+	}
+
 	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
-- 
2.43.0


From 7ac250fbaca6916b66169814dd2a9e66a30aabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 11/32] fix: a search must not change the search option of
 other goroutines and maps

---
 map.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/map.go b/map.go
index 7aef6ed..6684536 100644
--- a/map.go
+++ b/map.go
@@ -781,14 +781,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := sharedSearchOpt(nil).with(opts...)
 	cnt = 0
 	var e MapItem
 	if start.Empty() {
@@ -1404,6 +1397,14 @@ func ignoreBucketEntry(t bool) searchArg {
 	}
 }
 
+// with ... copy of option for one call. shared option is not changed
+func (o *searchOpt) with(opts ...searchArg) *searchOpt {
+	conf := &searchOpt{h: o.h}
+	conf._ignoreBucketEntry.Store(o.ignoreBucketEntry())
+	conf.Options(opts...)
+	return conf
+}
+
 func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 
 	o.Lock()
@@ -1415,14 +1416,7 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := sharedSearchOpt(nil).with(opts...)
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
 }
-- 
2.43.0


From aef8c579ee11b735669c5fd2930b3860475be1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 12/32] fix: publish the hash of an embedded slot after its key
 and value

---
 map.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/map.go b/map.go
index 6684536..0742ab2 100644
--- a/map.go
+++ b/map.go
@@ -655,7 +655,7 @@ func (h *Map) Set(key, value interface{}) bool {
 	}
 
 	if h.isEmbededItemInBucket {
-		k, conflict := KeyToHash(key)
+		k, _ := KeyToHash(key)
 		var nPool *samepleItemPool
 
 		//lastgets = nil
@@ -669,15 +669,6 @@ func (h *Map) Set(key, value interface{}) bool {
 		if nPool != nil {
 			bucket.setItemPool(nPool)
 		}
-
-		// s.PtrMapHead().reverse = bits.Reverse64(k)
-		// s.PtrMapHead().conflict = conflict
-		if !atomic.CompareAndSwapUint64(&s.PtrMapHead().reverse, 0, bits.Reverse64(k)) {
-			Log(LogDebug, "already set reverse")
-		}
-		if !atomic.CompareAndSwapUint64(&item.PtrMapHead().conflict, 0, conflict) {
-			Log(LogDebug, "already set conflict")
-		}
 	} else if h.pooler != nil {
 		k, _ := KeyToHash(key)
 		var wg sync.WaitGroup
@@ -730,6 +721,13 @@ func (h *Map) Set(key, value interface{}) bool {
 
 	k, conflict := KeyToHash(s.K)
 	if h.isEmbededItemInBucket {
+		// the slot can be found by the hash. publish it after key and value
+		if !atomic.CompareAndSwapUint64(&s.PtrMapHead().conflict, 0, conflict) {
+			Log(LogDebug, "already set conflict")
+		}
+		if !atomic.CompareAndSwapUint64(&s.PtrMapHead().reverse, 0, bits.Reverse64(k)) {
+			Log(LogDebug, "already set reverse")
+		}
 		return h._set(k, conflict, bucket.toBase(), s)
 	}
 	if !s.IsSingle() {
-- 
2.43.0


From 376a50084831a7048d99b799438d1207159083a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 13/32] fix: find items whose hash is the boundary of a bucket

---
 map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 0742ab2..eac59e9 100644
--- a/map.go
+++ b/map.go
@@ -973,6 +973,9 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		if !e.PtrListHead().IsSingle() {
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
+		if e.PtrMapHead().IsDummy() && e.PtrMapHead().reverse == ehead.PtrMapHead().reverse {
+			return true
+		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 	if !e.PtrListHead().IsSingle() {
@@ -1509,7 +1512,8 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 		lbNext = lbCur.NextOnLevel()
 	}
 
-	if lbNext.reverse < reverseNoMask {
+	// items having the same reverse as the bucket are behind the dummy of the bucket
+	if lbNext.reverse <= reverseNoMask {
 		result := lbNext.entry(h)
 
 		// FIXME: why fail to get
-- 
2.43.0


From 879658a2f2b03aad4b9673db85b651dc7986a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 14/32] fix: a write reports success only when the item is
 linked

---
 map.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/map.go b/map.go
index eac59e9..93543be 100644
--- a/map.go
+++ b/map.go
@@ -359,6 +359,9 @@ func (h *Map) TestSet(k, conflict uint64, btable *bucket, item MapItem) bool {
 	return h._set(k, conflict, btable.toBase(), item)
 }
 
+// maxRetryAdd ... limit of retrying to link an item
+const maxRetryAdd = 100
+
 func (h *Map) _set(k, conflict uint64, btable *bucket, item MapItem) bool {
 
 	if !h.isEmbededItemInBucket {
@@ -446,15 +449,21 @@ SKIP_FETCH_BUCKET:
 		tStart = btable.head()
 	}
 
-	item.PtrListHead().Init()
-	if addOpt == nil {
-		//btable._validateItemsNear()
-		h.add2(tStart, item)
-		//btable._validateItemsNear()
-	} else {
-		//btable._validateItemsNear()
-		h.add2(tStart, item, addOpt)
-		//btable._validateItemsNear()
+	added := false
+	for i := 0; i < maxRetryAdd && !added; i++ {
+		item.PtrListHead().Init()
+		if addOpt == nil {
+			//btable._validateItemsNear()
+			added = h.add2(tStart, item)
+			//btable._validateItemsNear()
+		} else {
+			//btable._validateItemsNear()
+			added = h.add2(tStart, item, addOpt)
+			//btable._validateItemsNear()
+		}
+	}
+	if !added {
+		return false
 	}
 	atomic.AddInt64(&h.len, 1)
 	if btable.level() > 0 {
@@ -1020,6 +1029,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		_, err := inserBeforeWithCheck(pos.PtrListHead(), e.PtrListHead())
 		if err != nil {
 			Log(LogError, "fail insert")
+			return false
 		}
 		if opt == nil || opt.bucket == nil {
 			return true
@@ -1057,16 +1067,17 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 			}, ignoreBucketEntry(false))
 			nextE := nextAsE(opt.bucket.entry(h))
 			_ = nextE
+			_, err = inserBeforeWithCheck(h.tail.Prev(), e.PtrListHead())
 		}
-		return true
+		return err == nil
 	}
 	pos, _ = h.find(start, func(ehead HMapEntry) bool {
 		cnt++
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 
-	inserBeforeWithCheck(h.tail.Prev(), e.PtrListHead())
-	return true
+	_, err := inserBeforeWithCheck(h.tail.Prev(), e.PtrListHead())
+	return err == nil
 }
 
 func (h *Map) BackBucket() (bCur *bucket) {
-- 
2.43.0


From 3d8c1d2c9f774bf439d810413602c1fd13957195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 15/32] fix: pool must not keep or lose its lock when a slot is
 taken by another goroutine

---
 pool2.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pool2.go b/pool2.go
index 5a7cbe6..f7205b2 100644
--- a/pool2.go
+++ b/pool2.go
@@ -230,8 +230,8 @@ func (sp *samepleItemPool) Get() (new MapItem, isExpanded bool, lock sync.Locker
 	}
 	if !atomic_util.CompareAndSwapInt(&pItems.len, i, i+1) {
 		Log(LogWarn, "fail to increment pItem.len=%d pItem.cap=%d i=%d", pItems.len, pItems.cap, i)
-		if sp.mu.TryLock() {
-			sp.mu.Unlock()
+		if mu != nil {
+			mu.Unlock()
 		}
 		new, isExpanded, lock = sp.Get()
 		return
@@ -260,8 +260,8 @@ EXPAND:
 	if err != nil {
 		panic("already deleted")
 	}
-	new, _, _ = nPool.Get()
-	return new, isExpanded, nil
+	new, _, lock = nPool.Get()
+	return new, isExpanded, lock
 
 }
 
-- 
2.43.0


From 22062a3449f2859f00220aa56465b1538c07f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 16/32] fix: embedded slot allocation hands over its lock
 exactly once

---
 map_embedded.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 2f9c2c8..f125088 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -15,7 +15,6 @@ import (
 	"github.com/kazu/elist_head"
 	list_head "github.com/kazu/loncha/lista_encabezado"
 	"github.com/kazu/skiplistmap/atomic_util"
-	"github.com/lk4d4/trylock"
 )
 
 func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucketEnry bool) HMapEntry {
@@ -370,7 +369,8 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 	//sp.validateItems()
 	if olen != len(sp.items) {
 		Log(LogDebug, "update olen")
-		return sp.getWithFn(reverse, nil)
+		newItem, nPool, _ = sp.getWithFn(reverse, nil)
+		return newItem, nPool, fn
 	}
 	//olen = len(sp.items)
 	nlen := int64(olen)
@@ -388,7 +388,8 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 		}
 		if !atomic.CompareAndSwapInt64(&nlen, int64(len(sp.items)), nlen+1) {
 			Log(LogDebug, "update olen")
-			return sp.getWithFn(reverse, nil)
+			newItem, nPool, _ = sp.getWithFn(reverse, nil)
+			return newItem, nPool, fn
 		}
 		var err error
 		prevItem := sp.items[0].ListHead.Prev()
@@ -465,9 +466,10 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 			Log(LogFatal, "not connect sp.items[olen-1]=%p <- sp.items[olen]=%p", p, c)
 		}
 
-		return &sp.items[i], nil, lazyUnlock
+		return &sp.items[i], nil, fn
 	}
-	return sp.getWithFn(reverse, nil)
+	newItem, nPool, _ = sp.getWithFn(reverse, nil)
+	return newItem, nPool, fn
 	//return nil, nil, nil
 
 }
@@ -510,14 +512,15 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 		if new != nil {
 			return
 		}
+		if fn != nil {
+			// already locked, hand over the lock to the caller
+			nmu = nil
+		}
 		for {
-			if fn != nil {
-				nmu = nil
-			}
 			if nPool == nil {
 				nPool = sp
 			}
-			new, nPool, fn = nPool.getWithFn(reverse, nmu)
+			new, nPool, _ = nPool.getWithFn(reverse, nmu)
 			if new != nil {
 				return
 			}
@@ -531,9 +534,9 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 		new, nPool, _ = sp.getWithFn(reverse, nil)
 		return new, nPool, fn
 	case foundFree:
-		if mu != nil && !mu.(*trylock.Mutex).TryLock() {
+		if mu != nil {
 			mu.Lock()
-			mu.Unlock()
+			fn = lazyUnlock
 		}
 
 		idx, found := sp.bsearchFromFreeList(reverse, lastActiveIdx)
@@ -561,16 +564,15 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 			goto RETRY
 		}
 		new.PtrListHead().MarkForDelete()
-		if mu != nil {
-			fn = lazyUnlock
-		}
 		return new, nil, fn
 	}
 
 	return sp.insertToPool(reverse, mu)
 
 RETRY:
-	return sp.getWithFn(reverse, mu)
+	// the lock is already held if mu is not nil
+	new, nPool, _ = sp.getWithFn(reverse, nil)
+	return new, nPool, fn
 
 }
 
@@ -586,13 +588,15 @@ func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
 
 	if olen != len(sp.items) {
 		Log(LogDebug, "update olen")
-		return sp.expand(nil)
+		_, err := sp.expand(nil)
+		return fn, err
 	}
 	nlen := int64(olen)
 
 	if !atomic.CompareAndSwapInt64(&nlen, int64(len(sp.items)), nlen+1) {
 		Log(LogDebug, "update olen")
-		return sp.expand(nil)
+		_, err := sp.expand(nil)
+		return fn, err
 	}
 
 	var err error
-- 
2.43.0


From b5b6237c0306e500e141a41a8d2d54bd59e6b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 17/32] fix: buckets sharing an embedded pool must use the same
 lock

---
 map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 93543be..6e9459a 100644
--- a/map.go
+++ b/map.go
@@ -519,7 +519,8 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if h.isEmbededItemInBucket {
 		reverse = bits.Reverse64(k)
-		bucket = h.findBucket(reverse)
+		// pool and its lock belong to the base bucket
+		bucket = h.findBucket(reverse).toBase()
 		e = h.bsearchBybucket(bucket, reverse, true)
 
 	} else {
-- 
2.43.0


From 154a7acad43f8d4e623354fe306d821f6ad34266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 18/32] fix: look up an embedded item again after locking its
 pool

---
 map.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/map.go b/map.go
index 6e9459a..8c130a6 100644
--- a/map.go
+++ b/map.go
@@ -611,9 +611,13 @@ func (h *Map) loadItem(k uint64, conflict uint64, key interface{}) (item MapItem
 			break
 		}
 		if bucket.muPool.TryLock() {
-			//defer bucket.muPool.Unlock()
-			lock = &bucket.muPool
-			break
+			// the item may have been moved before locking
+			if cur, cBucket, ok := h._loadItem(0, 0, key); ok && cBucket == bucket {
+				//defer bucket.muPool.Unlock()
+				item, lock = cur, &bucket.muPool
+				break
+			}
+			bucket.muPool.Unlock()
 		}
 	}
 	return
@@ -647,8 +651,12 @@ func (h *Map) Set(key, value interface{}) bool {
 			return h._update(item, value)
 		}
 		if bucket.muPool.TryLock() {
-			defer bucket.muPool.Unlock()
-			return h._update(item, value)
+			// the item may have been moved before locking
+			if cur, cBucket, ok := h._loadItem(0, 0, key); ok && cBucket == bucket {
+				defer bucket.muPool.Unlock()
+				return h._update(cur, value)
+			}
+			bucket.muPool.Unlock()
 		}
 	}
 
-- 
2.43.0


From d767be1fa7bc36c9215ea993124df39591f9531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 19/32] fix: delete an embedded item under the lock of its pool

---
 map.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 8c130a6..3e1e2e1 100644
--- a/map.go
+++ b/map.go
@@ -1607,7 +1607,18 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 //Delete ... set nil to the key of MapItem. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
 
-	item, ok := h.LoadItem(key)
+	var item MapItem
+	var ok bool
+	if h.isEmbededItemInBucket {
+		// items are moved by other goroutines unless the pool is locked
+		var lock *trylock.Mutex
+		item, _, lock, ok = h.loadItem(0, 0, key)
+		if lock != nil {
+			defer lock.Unlock()
+		}
+	} else {
+		item, ok = h.LoadItem(key)
+	}
 	if !ok {
 		return false
 	}
-- 
2.43.0


From b8de0236afcb0122e457036cd77b2456bd180d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 20/32] fix: a bucket that cannot be split must not leave a
 bucket without pool

---
 map_embedded.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index f125088..bf26ccc 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -74,6 +74,13 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	if newReverse&1 > 0 {
 		newReverse++
 	}
+
+	// nothing to split. must not leave a bucket without pool
+	idx, err := bucket.itemPool().findIdx(newReverse)
+	if err != nil || idx == 0 {
+		return err
+	}
+
 	b := h.bucketFromPoolEmbedded(newReverse)
 	if b == nil {
 		return ErrBucketAllocatedFail
@@ -88,11 +95,6 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.LevelHead.Init()
 	b.initItemPool()
 
-	idx, err := bucket.itemPool().findIdx(newReverse)
-	if err != nil || idx == 0 {
-		return err
-	}
-
 	olen := len(bucket.itemPool().items)
 	nPool, err2 := bucket.itemPool()._split(idx, false)
 	_ = err2
-- 
2.43.0


From b970c5a98cfc98364a39f4ecf94fbd159b5c7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 21/32] fix: deleted embedded slots keep slot order and link
 order the same

---
 map.go          | 23 ++++-------------------
 map_embedded.go | 50 ++++++++++++++++---------------------------------
 2 files changed, 20 insertions(+), 53 deletions(-)

diff --git a/map.go b/map.go
index 3e1e2e1..d440433 100644
--- a/map.go
+++ b/map.go
@@ -1653,8 +1653,9 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 
 	// remove item
 	// 1. item status to remove
-	// 2. purge from linked-list
-	// 3. insert free list ( keep pointer order ?)
+	// 2. purge from linked-list and shrink pool if item is in last slot
+	// 3. other slot stay in linked-list until reused, because order of
+	//    linked-list must be same as order of slots.
 
 	pool := bucket.itemPool()
 	if pool == nil {
@@ -1663,23 +1664,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 	item.Delete()
 	h.AddLen(-1)
 
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	item.PtrListHead().MarkForDelete()
-	elist_head.SharedTrav(pOpts...)
-	item.PtrListHead().Init()
-
-	pItems := pool.ptrItems()
-	len := pItems.Len()
-	if item.PtrListHead() == &pItems._at(len-1, true, false).ListHead &&
-		atomic_util.CompareAndSwapInt(&pItems.len, len, len-1) {
-		pool.shrinkLen()
-		return true
-	}
-
-	err := pool.PushWithOrder(item.(*SampleItem))
-	if err != nil {
-		return false
-	}
+	pool.shrinkLen()
 	return true
 }
 
diff --git a/map_embedded.go b/map_embedded.go
index bf26ccc..f17d682 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -265,13 +265,9 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 		return getNoCap
 	}
 
-	if tail < 0 {
-		// no live item. nothing to keep the order with
-		return getLargest
-	}
-
+	// deleted slots keep their place too
 	items := sp.itemSlice(false)
-	last := items._at(tail, false, true)
+	last := items._at(len-1, false, false)
 	if atomic.LoadUint64(&last.reverse) < reverse {
 		return getLargest
 	}
@@ -284,33 +280,20 @@ func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, b
 
 	items := sp.ptrItems()
 
-	idx := sort.Search(tail+1, func(i int) bool {
+	l := items.Len()
+	idx := sort.Search(l, func(i int) bool {
 		item := items._at(i, true, false)
 		return atomic.LoadUint64(&item.reverse) > reverse
 	})
-	if idx <= 1 || idx > tail {
-		return -1, false
-	}
-	mItem := items._at(idx-1, true, false)
-
-	if mItem.IsDeleted() && !mItem.Empty() {
-		// recycle only between live neighbours that keep the order
-		left := items._at(idx-1, true, true)
-		if !left.IsDeleted() && atomic.LoadUint64(&left.reverse) >= reverse {
-			return -1, false
+	// idx-1 or idx keeps the order between neighbours
+	for i := idx - 1; i <= idx; i++ {
+		if i < 0 || i >= l {
+			continue
 		}
-		for i := idx; i <= tail; i++ {
-			right := items._at(i, true, false)
-			if right.IsDeleted() {
-				continue
-			}
-			if atomic.LoadUint64(&right.reverse) <= reverse {
-				return -1, false
-			}
-			break
+		mItem := items._at(i, true, false)
+		if mItem.IsDeleted() && !mItem.Empty() {
+			return i, true
 		}
-		//mItem.Init()
-		return idx - 1, true
 	}
 	return -1, false
 }
@@ -379,9 +362,7 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 
 	for i := 0; i < olen; i++ {
 		//for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
+		// deleted slots keep their place too
 		if sp.items[i].reverse < reverse {
 			continue
 		}
@@ -665,9 +646,7 @@ func nextListHeadOfSampleItem() elist_head.ListHead {
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
 
 	for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
+		// deleted slots keep their place too
 		if reverse <= sp.items[i].reverse {
 			return i, nil
 		}
@@ -758,7 +737,10 @@ func (sp *samepleItemPool) shrinkLen() {
 			break
 		}
 		if !item.Empty() {
+			pOpts := elist_head.SharedTrav(list_head.WaitNoM())
 			item.MarkForDelete()
+			elist_head.SharedTrav(pOpts...)
+			item.Init()
 		}
 	}
 }
-- 
2.43.0


From 7e269a460d77f9e8eac79d8cd172fa1276c96fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 22/32] fix: rmap updates the cells it reads and tells keys
 apart by hash and conflict

---
 rmap/rmap.go | 84 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 0e8a59b..57e7566 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -22,8 +22,14 @@ type RMap struct {
 	dirty *smap.Map
 }
 
+// readKey ... hash and conflict of key. hash alone does not identify a key.
+type readKey struct {
+	hash     uint64
+	conflict uint64
+}
+
 type readMap struct {
-	m       map[uint64]atomic.Value
+	m       map[readKey]*atomic.Value // cell of *smap.SampleItem. nil if deleted
 	amended bool // include dirty map
 }
 
@@ -32,6 +38,7 @@ func New() (rmap *RMap) {
 	rmap = &RMap{
 		limit: 1000,
 	}
+	rmap.read.Store(&readMap{})
 	rmap.initDirty()
 
 	return rmap
@@ -65,6 +72,9 @@ func (m *RMap) getDirtyEntry(k, conflict uint64) (e smap.MapItem) {
 func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
 
 	e := m.getDirtyEntry(k, conflict)
+	if e == nil {
+		return nil, false
+	}
 	return e.Value(), true
 }
 
@@ -85,7 +95,7 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 		return true
 	}
 
-	_, ok := read.m[k]
+	_, ok := read.m[readKey{k, conflict}]
 	if !ok {
 		e := m.getDirtyEntry(k, conflict)
 		if e != nil {
@@ -153,26 +163,20 @@ func (m *RMap) Get(key string) (v interface{}, ok bool) {
 func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
 	read := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	var e *smap.SampleItem
+	av, ok := read.m[readKey{k, conflict}]
 	if ok {
-		e, ok = av.Load().(*smap.SampleItem)
-		if e.MapHead.ConflictInHamp() != conflict {
-			ok = false
-		} else {
-			v = e.V
+		e, _ := av.Load().(*smap.SampleItem)
+		if e == nil || e.MapHead.ConflictInHamp() != conflict {
+			return nil, false
 		}
+		return e.Value(), true
 	}
 
-	if !ok && read.amended {
+	if read.amended {
 		// m.Lock()
 		// defer m.Unlock()
-		read := m.read.Load().(*readMap)
-		av, ok = read.m[k]
-		if !ok && read.amended {
-			v, ok = m.getDirty(k, conflict)
-			m.missLocked()
-		}
+		v, ok = m.getDirty(k, conflict)
+		m.missLocked()
 	}
 	return
 }
@@ -181,7 +185,7 @@ func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
 	read, _ := m.read.Load().(*readMap)
-	av, ok := read.m[k]
+	av, ok := read.m[readKey{k, conflict}]
 	if !ok && read.amended {
 		m.Lock()
 		defer m.Unlock()
@@ -196,19 +200,32 @@ func (m *RMap) Delete(key string) bool {
 			}
 
 			m.missLocked()
+			return e != nil
 		}
 	}
 
-	if ok {
-		ohead := av.Load().(*smap.SampleItem)
+	for ok {
+		ohead, _ := av.Load().(*smap.SampleItem)
+		if ohead == nil {
+			return false
+		}
 		//ohead.conflict = conflict
-		return av.CompareAndSwap(ohead, nil)
-
+		if av.CompareAndSwap(ohead, (*smap.SampleItem)(nil)) {
+			return true
+		}
 	}
 	return false
 }
-func (m *RMap) Len() int {
-	return int(m.dirty.Len())
+
+// Len ... count of keys in read and dirty. a key is only in one of both.
+func (m *RMap) Len() (cnt int) {
+	read, _ := m.read.Load().(*readMap)
+	for _, a := range read.m {
+		if e, _ := a.Load().(*smap.SampleItem); e != nil {
+			cnt++
+		}
+	}
+	return cnt + m.dirty.Len()
 }
 
 func (m *RMap) storeReadFromDirty(amended bool) {
@@ -220,14 +237,13 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 		oread, _ := m.read.Load().(*readMap)
 
 		nread := &readMap{
-			m:       map[uint64]atomic.Value{},
+			m:       map[readKey]*atomic.Value{},
 			amended: amended,
 		}
 
 		//MENTION: not require copy oread ?
 		for k, a := range oread.m {
-			_, ok := a.Load().(*smap.SampleItem)
-			if !ok {
+			if e, _ := a.Load().(*smap.SampleItem); e == nil {
 				continue
 			}
 			nread.m[k] = a
@@ -235,9 +251,9 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 		m.dirty.RangeItem(func(item smap.MapItem) bool {
 			e, ok := item.(*smap.SampleItem)
 			if ok {
-				a := atomic.Value{}
+				a := &atomic.Value{}
 				a.Store(e)
-				nread.m[e.KeyInHmap()] = a
+				nread.m[readKey{e.KeyInHmap(), e.ConflictInHamp()}] = a
 
 			}
 
@@ -271,16 +287,18 @@ func (m *RMap) initDirty() {
 }
 
 func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
-	ov, ok := r.m[k]
+	ov, ok := r.m[readKey{k, conflict}]
 	if !ok {
 		return nil, ok
 	}
-	ohead := ov.Load().(*smap.SampleItem)
 	item := smap.NewSampleItem(kstr, v)
 	item.PtrListHead().Init()
 	item.Setup()
 
-	ok = ov.CompareAndSwap(ohead, item)
-	return item, ok
-
+	for {
+		ohead, _ := ov.Load().(*smap.SampleItem)
+		if ov.CompareAndSwap(ohead, item) {
+			return item, true
+		}
+	}
 }
-- 
2.43.0


From 9662264f67a52234385872e54fb4464d258990a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 23/32] fix: rmap moves and updates entries only with its lock

---
 rmap/rmap.go | 99 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 57e7566..27af07a 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -30,7 +30,7 @@ type readKey struct {
 
 type readMap struct {
 	m       map[readKey]*atomic.Value // cell of *smap.SampleItem. nil if deleted
-	amended bool // include dirty map
+	amended bool                      // include dirty map
 }
 
 func New() (rmap *RMap) {
@@ -79,11 +79,7 @@ func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
 }
 
 func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
-	read, succ := m.read.Load().(*readMap)
-	if !succ {
-		m.read.Store(&readMap{})
-		read, succ = m.read.Load().(*readMap)
-	}
+	read := m.read.Load().(*readMap)
 
 	ensure := func(item smap.MapItem) {
 		for _, fn := range m.onNewStores {
@@ -95,29 +91,45 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 		return true
 	}
 
-	_, ok := read.m[readKey{k, conflict}]
-	if !ok {
-		e := m.getDirtyEntry(k, conflict)
-		if e != nil {
-			ok = true
-			e.SetValue(v)
-		}
+	e := m.storeDirty(k, conflict, kstr, v)
+	if e != nil {
+		defer ensure(e)
+	}
+	return true
+}
+
+// storeDirty ... set value to dirty. return new item, nil if the key already exists.
+func (m *RMap) storeDirty(k, conflict uint64, kstr string, v interface{}) smap.MapItem {
+	m.Lock()
+	defer m.Unlock()
+
+	// dirty may have been moved to read before locking
+	read := m.read.Load().(*readMap)
+	if _, ok := read.store2(k, conflict, kstr, v); ok {
+		return nil
+	}
+	if av, ok := read.m[readKey{k, conflict}]; ok {
+		// deleted. only used again with lock
+		e := newItem(kstr, v)
+		av.Store(e)
+		return e
+	}
+	if e := m.getDirtyEntry(k, conflict); e != nil {
+		e.SetValue(v)
+		return nil
 	}
-	if !ok && !read.amended {
+	if !read.amended {
 		m.storeReadFromDirty(true)
 	}
 
-	if !ok {
-		e := smap.NewSampleItem(kstr, v)
-		e.Init()
-		m.dirty.StoreItem(e)
+	e := smap.NewSampleItem(kstr, v)
+	e.Init()
+	m.dirty.StoreItem(e)
 
-		if len(read.m) == 0 {
-			m.storeReadFromDirty(true)
-		}
-		defer ensure(e)
+	if len(read.m) == 0 {
+		m.storeReadFromDirty(true)
 	}
-	return true
+	return e
 }
 
 // func (m *RMap) ValidateDirty() {
@@ -173,8 +185,17 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 	}
 
 	if read.amended {
-		// m.Lock()
-		// defer m.Unlock()
+		m.Lock()
+		defer m.Unlock()
+		// dirty may have been moved to read before locking
+		read := m.read.Load().(*readMap)
+		if av, found := read.m[readKey{k, conflict}]; found {
+			e, _ := av.Load().(*smap.SampleItem)
+			if e == nil {
+				return nil, false
+			}
+			return e.Value(), true
+		}
 		v, ok = m.getDirty(k, conflict)
 		m.missLocked()
 	}
@@ -190,6 +211,8 @@ func (m *RMap) Delete(key string) bool {
 		m.Lock()
 		defer m.Unlock()
 		read, _ := m.read.Load().(*readMap)
+		// dirty may have been moved to read before locking
+		av, ok = read.m[readKey{k, conflict}]
 		if !ok && read.amended {
 			// av, ok = m.dirty[k]
 			// delete(m.dirty, k)
@@ -219,6 +242,9 @@ func (m *RMap) Delete(key string) bool {
 
 // Len ... count of keys in read and dirty. a key is only in one of both.
 func (m *RMap) Len() (cnt int) {
+	m.Lock()
+	defer m.Unlock()
+
 	read, _ := m.read.Load().(*readMap)
 	for _, a := range read.m {
 		if e, _ := a.Load().(*smap.SampleItem); e != nil {
@@ -228,11 +254,9 @@ func (m *RMap) Len() (cnt int) {
 	return cnt + m.dirty.Len()
 }
 
+// storeReadFromDirty ... move items from dirty to read. m must be locked.
 func (m *RMap) storeReadFromDirty(amended bool) {
 
-	m.Lock()
-	defer m.Unlock()
-
 	for {
 		oread, _ := m.read.Load().(*readMap)
 
@@ -260,16 +284,14 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 			return true
 		})
 
-		if len(nread.m) == 0 {
+		if len(nread.m) == 0 && len(oread.m) == 0 {
 			break
 		}
 		if len(oread.m) == 0 {
 			nread.amended = true
 		}
 		if m.read.CompareAndSwap(oread, nread) {
-			m.Unlock()
 			m.initDirty()
-			m.Lock()
 			break
 		}
 		_ = "???"
@@ -291,14 +313,23 @@ func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.M
 	if !ok {
 		return nil, ok
 	}
-	item := smap.NewSampleItem(kstr, v)
-	item.PtrListHead().Init()
-	item.Setup()
+	item := newItem(kstr, v)
 
 	for {
 		ohead, _ := ov.Load().(*smap.SampleItem)
+		if ohead == nil {
+			// deleted. the cell may be out of the next read
+			return nil, false
+		}
 		if ov.CompareAndSwap(ohead, item) {
 			return item, true
 		}
 	}
 }
+
+func newItem(kstr string, v interface{}) *smap.SampleItem {
+	item := smap.NewSampleItem(kstr, v)
+	item.PtrListHead().Init()
+	item.Setup()
+	return item
+}
-- 
2.43.0


From 12f73534a4a78dee7421c9a3c34d2f3bb41da90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 24/32] fix: Pool.Put must use the shard of Pool.Get

---
 pool2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool2.go b/pool2.go
index f7205b2..fc76ffd 100644
--- a/pool2.go
+++ b/pool2.go
@@ -87,7 +87,7 @@ func (p *Pool) Get(reverse uint64, fn successFn) {
 
 func (p *Pool) Put(item MapItem) {
 	reverse := item.PtrMapHead().reverse
-	idx := reverse >> (4 * 15)
+	idx := reverse >> (4 * 15) % cntOfPoolMgr
 
 	if !UseGoroutineInPool {
 		p := samepleItemPoolFromListHead(p.itemPool[idx].Next())
-- 
2.43.0


From bf677d049619dfdc8f104d45631001a12e2e6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 25/32] fix: load a level bucket from the shared cell, not from
 a copy of it

---
 map.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/map.go b/map.go
index d440433..d2db20a 100644
--- a/map.go
+++ b/map.go
@@ -1315,8 +1315,7 @@ func (h *Map) setLevel(level int32, b *bucket) bool {
 }
 
 func (h *Map) levelBucket(level int32) (b *bucket) {
-	ov := h.levels[level-1]
-	b = ov.Load().(*bucket)
+	b = h.levels[level-1].Load().(*bucket)
 
 	return b
 }
-- 
2.43.0


From 41b3fc548e1f86f8f20cfabed0bc8eef70129630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 26/32] fix: rmap reports a failed write

---
 rmap/rmap.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 27af07a..c98fe4e 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -91,32 +91,31 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 		return true
 	}
 
-	e := m.storeDirty(k, conflict, kstr, v)
+	e, ok := m.storeDirty(k, conflict, kstr, v)
 	if e != nil {
 		defer ensure(e)
 	}
-	return true
+	return ok
 }
 
-// storeDirty ... set value to dirty. return new item, nil if the key already exists.
-func (m *RMap) storeDirty(k, conflict uint64, kstr string, v interface{}) smap.MapItem {
+// storeDirty ... set value to dirty. item is nil if the key already exists.
+func (m *RMap) storeDirty(k, conflict uint64, kstr string, v interface{}) (item smap.MapItem, ok bool) {
 	m.Lock()
 	defer m.Unlock()
 
 	// dirty may have been moved to read before locking
 	read := m.read.Load().(*readMap)
 	if _, ok := read.store2(k, conflict, kstr, v); ok {
-		return nil
+		return nil, true
 	}
 	if av, ok := read.m[readKey{k, conflict}]; ok {
 		// deleted. only used again with lock
 		e := newItem(kstr, v)
 		av.Store(e)
-		return e
+		return e, true
 	}
 	if e := m.getDirtyEntry(k, conflict); e != nil {
-		e.SetValue(v)
-		return nil
+		return nil, e.SetValue(v)
 	}
 	if !read.amended {
 		m.storeReadFromDirty(true)
@@ -124,12 +123,14 @@ func (m *RMap) storeDirty(k, conflict uint64, kstr string, v interface{}) smap.M
 
 	e := smap.NewSampleItem(kstr, v)
 	e.Init()
-	m.dirty.StoreItem(e)
+	if !m.dirty.StoreItem(e) {
+		return nil, false
+	}
 
 	if len(read.m) == 0 {
 		m.storeReadFromDirty(true)
 	}
-	return e
+	return e, true
 }
 
 // func (m *RMap) ValidateDirty() {
-- 
2.43.0


From b2dd80db054956f46101d392e4bc4e543db781ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 27/32] fix: restore the traversal mode when a pool cannot
 expand

---
 pool2.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pool2.go b/pool2.go
index fc76ffd..a127e58 100644
--- a/pool2.go
+++ b/pool2.go
@@ -307,6 +307,7 @@ func (sp *samepleItemPool) _expand() (*samepleItemPool, error) {
 	pOpts = list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
 	e = sp.MarkForDelete()
 	if e != nil {
+		list_head.DefaultModeTraverse.Option(pOpts...)
 		return nil, EPoolAlreadyDeleted
 	}
 NO_DELETE:
@@ -339,6 +340,7 @@ NO_DELETE:
 		int(SampleItemOffsetOf))
 
 	if err != nil {
+		list_head.DefaultModeTraverse.Option(pOpts...)
 		return nil, EPoolExpandFail
 	}
 
-- 
2.43.0


From a2ecbbaf67a18c89e157386101e9acb931e78332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 28/32] fix: store nil values too, a reused entry kept the old
 value

---
 sample_hmap_entry.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 536a49e..a654980 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -67,9 +67,6 @@ func (s *SampleItem) Value() interface{} {
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
-	if v == nil {
-		return false
-	}
 	s.V.Store(itemValue{v})
 	return true
 }
-- 
2.43.0


From 94ed91ec689cd53952ae09316c0bc35ded720175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 29/32] fix: StoreItem with embedded pools must not link an
 item without hashes

---
 map.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/map.go b/map.go
index d2db20a..7de8195 100644
--- a/map.go
+++ b/map.go
@@ -364,13 +364,11 @@ const maxRetryAdd = 100
 
 func (h *Map) _set(k, conflict uint64, btable *bucket, item MapItem) bool {
 
-	if !h.isEmbededItemInBucket {
-		if !atomic.CompareAndSwapUint64(&item.PtrMapHead().reverse, 0, bits.Reverse64(k)) {
-			Log(LogDebug, "already set reverse")
-		}
-		if !atomic.CompareAndSwapUint64(&item.PtrMapHead().conflict, 0, conflict) {
-			Log(LogDebug, "already set conflict")
-		}
+	if !atomic.CompareAndSwapUint64(&item.PtrMapHead().reverse, 0, bits.Reverse64(k)) {
+		Log(LogDebug, "already set reverse")
+	}
+	if !atomic.CompareAndSwapUint64(&item.PtrMapHead().conflict, 0, conflict) {
+		Log(LogDebug, "already set conflict")
 	}
 
 	h.initBeforeSet()
@@ -756,6 +754,11 @@ func (h *Map) Set(key, value interface{}) bool {
 
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
+	if h.isEmbededItemInBucket {
+		// items are only found in the pools of buckets
+		return h.Set(item.Key(), item.Value())
+	}
+
 	k, conflict := item.KeyHash()
 
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
-- 
2.43.0


From 8bb073c4434b416c93a7a32c17583ca6b6bc8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 30/32] fix: entries of a pool were freed when the map stopped
 using the pool

---
 map.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/map.go b/map.go
index 7de8195..134f0c5 100644
--- a/map.go
+++ b/map.go
@@ -62,18 +62,18 @@ type Map struct {
 
 	isEmbededItemInBucket bool
 
-	// entries allocated one by one. items are linked by relative offsets that
+	// entries allocated one by one and pools. items are linked by relative offsets that
 	// the garbage collector cannot follow, so that the map must refer to them.
 	retained unsafe.Pointer // *retainedEntry
 }
 
 type retainedEntry struct {
-	entry HMapEntry
+	entry interface{} // HMapEntry or *Pool
 	next  unsafe.Pointer // *retainedEntry
 }
 
-// retain ... keep entry reachable for the garbage collector as long as the map.
-func (h *Map) retain(entry HMapEntry) {
+// retain ... keep entry or pool reachable for the garbage collector as long as the map.
+func (h *Map) retain(entry interface{}) {
 	r := &retainedEntry{entry: entry}
 	for {
 		r.next = atomic.LoadPointer(&h.retained)
@@ -155,7 +155,10 @@ func UsePool(enable bool) OptHMap {
 		if !enable {
 			h.pooler = nil
 		} else if h.pooler == nil {
-			h.pooler = newPool()
+			// entries stay in the pool when it is not used any more
+			pooler := newPool()
+			h.retain(pooler)
+			h.pooler = pooler
 			h.pooler.startMgr()
 		}
 
-- 
2.43.0


From bbcd6cd7e0f5240ae16269f3b716595c322350df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:54 +0000
Subject: [PATCH 31/32] fix: Set with a new key that is no string must not use
 up a slot

---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 134f0c5..506ee9c 100644
--- a/map.go
+++ b/map.go
@@ -661,6 +661,9 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	}
 
+	// a key that is rejected must not use up a slot
+	kstr := key.(string)
+
 	var s *SampleItem
 	useDump := false
 
@@ -729,7 +732,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		h.retain(s)
 	}
 
-	s.K = key.(string)
+	s.K = kstr
 	s.SetValue(value)
 
 	if _, ok := h.ItemFn().(*SampleItem); !ok {
-- 
2.43.0


From 0c55abdf08a0533e6d83ef40eefb8eef8a03bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:23 +0000
Subject: [PATCH 32/32] fix: Get of a full pool could use a slot more than the
 pool has

Get compared the length with the capacity and read the length again to
take the slot; when another goroutine took the last slot in between, the
slot behind the last one was handed out.
---
 pool2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pool2.go b/pool2.go
index a127e58..a55952f 100644
--- a/pool2.go
+++ b/pool2.go
@@ -215,10 +215,10 @@ func (sp *samepleItemPool) Get() (new MapItem, isExpanded bool, lock sync.Locker
 	var mu *trylock.Mutex
 	var i int
 	var new2 *SampleItem
-	if pItems.Cap() <= pItems.Len() {
+	i = pItems.Len()
+	if pItems.Cap() <= i {
 		goto EXPAND
 	}
-	i = pItems.Len()
 	if i+1 == pItems.Cap() {
 		mu = &sp.mu
 		mu.Lock()
-- 
2.43.0

