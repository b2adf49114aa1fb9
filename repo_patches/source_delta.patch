From 892ec31de2d412c019f9195a0c33ab98f12f0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 01/21] fix: genmap.LoadOrStore returns the stored value when
 it stores

---
 genmap/genmap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..e0a4137 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,6 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
+	actual = v
 	return
 }
 
-- 
2.43.0


From 477507b4aee743d8d3016af3ca272fe69b46e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 02/21] fix: set.IsSupperSet was negated

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From a352b24f32507e64b1c20cacfd0fc0f359551899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 03/21] fix: tree.IsDescendantRelation is true only for nodes
 of the subtree

---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 497786b..3261eca 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -164,7 +164,7 @@ func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsDescendantRelation(node *Node[T]) bool {
-	return !node.IsAncestorRelation(n)
+	return node != n && n.IsAncestorRelation(node)
 }
 
 func (n *Node[T]) HasLeft() bool {
-- 
2.43.0


From 2d105f644d0f9192f7ce56fd889b4241ebcc7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 04/21] fix: tree.DrawTree breaks lines at the end of every
 level

---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3261eca..a7c9cb2 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -52,7 +52,7 @@ func (n *Node[T]) DrawTree() string {
 		}
 		builder.WriteString(fmt.Sprintf("%v\t", node.Val))
 		count++
-		if layer*2 == count {
+		if 1<<layer == count {
 			builder.WriteRune('\n')
 			layer++
 			count = 0
-- 
2.43.0


From 748c8dfb078651da1c258387ec5959c14325e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 05/21] fix: hashring.GetNode returns a member when the key
 hits a point exactly

---
 hashring/hashring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..98b600b 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -70,7 +70,8 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		hash: hash,
 		Node: key,
 	}); ok {
-		return key
+		n, _ := hr.nodes.Get(i)
+		return n.Node
 	} else {
 		if i == hr.nodes.Len() {
 			n, _ := hr.nodes.First()
-- 
2.43.0


From 3b41c6648df7873c4733ea3b77dd57976a3cc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 06/21] fix: hashring orders nodes that share a point
 independently of history

---
 hashring/hashring.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 98b600b..9dbdc27 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -50,7 +50,12 @@ func (hr *HashRing[Node]) AddNodes(nodes ...Node) *HashRing[Node] {
 		return true
 	})
 	hr.rawNodes.Push(s.Slice()...)
-	hr.nodes.Sort()
+	hr.nodes.SortFunc(func(t1, t2 node[Node]) bool {
+		// nodes sharing a point are kept in a fixed order
+		return t1.hash < t2.hash || (t1.hash == t2.hash && t1.Node < t2.Node)
+	}, func(t1, t2 node[Node]) bool {
+		return t1 == t2
+	})
 	return hr
 }
 
-- 
2.43.0


From 074159ce6d8c95d6803e2de557a7b8451758e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 07/21] fix: vec.Cut returns the removed elements, not the ones
 moved over them

---
 vec/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..4c4d8bb 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -258,7 +258,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 	if i < 0 || j > v.Len() || i > j {
 		return
 	}
-	val := v.d[i:j]
+	val := slices.Clone(v.d[i:j])
 	v.d = append(v.d[:i], v.d[j:]...)
 	return val
 }
-- 
2.43.0


From 8571fd9b472a461b01351b38440c4468b01a6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 08/21] fix: vec detects the order of pointers to basic types
 without panicking

---
 vec/vec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 4c4d8bb..e0416d4 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -45,19 +45,19 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() < reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() < reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
+			return natural.Less(reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String())
 		}
 
 	default:
@@ -77,19 +77,19 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() == reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() == reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() == reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
+			return reflect.Indirect(reflect.ValueOf(a)).String() == reflect.Indirect(reflect.ValueOf(b)).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
-- 
2.43.0


From 9f37149aeb940d72aa59ac1ecdc7767a8c271c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 09/21] fix: vec orders NaNs before other floats, as Sort
 documents

---
 vec/vec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index e0416d4..1d346e9 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -53,7 +53,8 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
+			fa, fb := reflect.Indirect(reflect.ValueOf(a)).Float(), reflect.Indirect(reflect.ValueOf(b)).Float()
+			return fa < fb || (fa != fa && fb == fb)
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-- 
2.43.0


From fe381475940b4d94a82918b6892488a15df9b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 10/21] fix: dllist.Clear detaches the elements it drops

---
 dllist/dllist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 3c0a33c..8bff6ce 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -16,6 +16,11 @@ func New[T any]() *Dllist[T] {
 }
 
 func (l *Dllist[T]) Clear() *Dllist[T] {
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From a8adfc48699eb7920b989fb01d41a278f949f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:46 +0000
Subject: [PATCH 11/21] fix: dllist.PushBackListTo keeps the order and both
 ListTo methods accept the list itself

---
 dllist/dllist.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 8bff6ce..fe577c3 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -186,8 +186,8 @@ func (l *Dllist[T]) PushBackListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Front(); i > 0; i, e = i-1, e.Next() {
-		l.insertValue(e.Value, mark)
+	for _, v := range other.Slice() {
+		mark = l.insertValue(v, mark)
 	}
 }
 
@@ -202,8 +202,8 @@ func (l *Dllist[T]) PushFrontListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Back(); i > 0; i, e = i-1, e.Prev() {
-		l.insertValue(e.Value, mark)
+	for _, v := range other.Slice() {
+		mark = l.insertValue(v, mark)
 	}
 }
 
-- 
2.43.0


From 4d18e4e925daf7d8f9ffa62b9602989d0a65dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:18 +0000
Subject: [PATCH 12/21] fix: rwmap.Clear neither races on nor corrupts Len

---
 rwmap/rwmap.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..d12195d 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -521,10 +521,19 @@ func (m *RWMap[K, V]) Clear() {
 		m.read.Store(&readOnly[K, V]{})
 	}
 
+	// Retire the dropped entries, so that calls still holding one see it gone,
+	// and take each live one off the length exactly once.
+	for _, dropped := range []map[K]*entry[V]{read.m, m.dirty} {
+		for _, e := range dropped {
+			if p := e.p.Swap((*V)(expunged)); p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr {
+				atomic.AddInt64(&m.len, -1)
+			}
+		}
+	}
+
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From ab920ed2ef72b9eb696b20608e213b670a606fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:18 +0000
Subject: [PATCH 13/21] fix: synccache.LoadOrStore never returns an expired
 entry

---
 synccache/synccache.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..0ba5c6c 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,8 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		// expired: remove it, unless another call already has, and try again
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From 7e9a65fbe2af65b2f9187b152c1feb9e4455ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:18 +0000
Subject: [PATCH 14/21] fix: synccache.CompareValueAndDelete retries when the
 same value was stored again meanwhile

---
 synccache/synccache.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 0ba5c6c..40aed7c 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -135,10 +135,15 @@ func (sc *SyncCache[K, V]) CompareAndDelete(key K, oldEntry *Entry[V]) (success
 }
 
 func (sc *SyncCache[K, V]) CompareValueAndDelete(key K, oldValue V) (success bool) {
-	if e, ok := sc.Load(key); ok && reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
-		return sc.CompareAndDelete(key, e)
+	for {
+		e, ok := sc.Load(key)
+		if !ok || !reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
+			return false
+		}
+		if sc.CompareAndDelete(key, e) {
+			return true
+		}
 	}
-	return false
 }
 
 func (sc *SyncCache[K, V]) Clear() {
-- 
2.43.0


From f39d0d941bc1562891ffd2b21b51db6a9ad16797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:37 +0000
Subject: [PATCH 15/21] fix: refreshcache reads last and lastErr atomically
 under the lock too

---
 refreshcache/refreshcache.go   | 5 +++--
 refreshcache0/refreshcache0.go | 5 +++--
 refreshcache1/refreshcache1.go | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..0dcf3a4 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -105,10 +105,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	defer func() {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..b500461 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -105,10 +105,11 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	defer func() {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..ecc4415 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -105,10 +105,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	defer func() {
-- 
2.43.0


From d6d8ea91a474306cd71655ec38edd8bbb39578bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:37 +0000
Subject: [PATCH 16/21] fix: refreshcache does not take "never" for a time
 within a very long age

---
 refreshcache/refreshcache.go   | 12 ++++++------
 refreshcache0/refreshcache0.go | 12 ++++++------
 refreshcache1/refreshcache1.go | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 0dcf3a4..8a16e47 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,19 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
 	last = atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -179,10 +179,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index b500461..e454bd1 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,19 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
 	last = atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -179,10 +179,10 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index ecc4415..2785bae 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,19 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
 	last = atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -179,10 +179,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From 36d129dec1dd40c6f6581a2a9d0d9d09adc8a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:37 +0000
Subject: [PATCH 17/21] fix: refreshcache does not publish anything when the
 refresh function panics

---
 refreshcache/refreshcache.go   | 16 ++++++++++++++--
 refreshcache0/refreshcache0.go | 16 ++++++++++++++--
 refreshcache1/refreshcache1.go | 16 ++++++++++++++--
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 8a16e47..f208d32 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -112,7 +112,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -123,13 +127,19 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	returned = true
+	return
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -140,7 +150,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	returned = true
+	return
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index e454bd1..b2948c2 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -112,7 +112,11 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -123,13 +127,19 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	returned = true
+	return
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -140,7 +150,9 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	returned = true
+	return
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 2785bae..9d695ad 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -112,7 +112,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if lastErr := atomic.LoadInt64(&r.lastErr); lastErr > 0 && r.errAge > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -123,13 +127,19 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	returned = true
+	return
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	returned := false
 	defer func() {
+		if !returned {
+			return // refreshFunc panicked
+		}
 		if err == nil {
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
@@ -140,7 +150,9 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	returned = true
+	return
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0


From 36f053bf6acce7bf7bfdef2b240a0822269f826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:15 +0000
Subject: [PATCH 18/21] fix: refreshcache retracts the old outcome before it
 publishes the new one

---
 refreshcache/refreshcache.go   | 10 ++++++----
 refreshcache0/refreshcache0.go | 10 ++++++----
 refreshcache1/refreshcache1.go | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index f208d32..9574d5f 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -117,14 +117,15 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 		if !returned {
 			return // refreshFunc panicked
 		}
+		// retract the old outcome before publishing the new one: nobody may see them in the opposite order
 		if err == nil {
+			atomic.StoreInt64(&r.lastErr, 0)
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
@@ -140,14 +141,15 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 		if !returned {
 			return // refreshFunc panicked
 		}
+		// retract the old outcome before publishing the new one: nobody may see them in the opposite order
 		if err == nil {
+			atomic.StoreInt64(&r.lastErr, 0)
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index b2948c2..0228425 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -117,14 +117,15 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 		if !returned {
 			return // refreshFunc panicked
 		}
+		// retract the old outcome before publishing the new one: nobody may see them in the opposite order
 		if err == nil {
+			atomic.StoreInt64(&r.lastErr, 0)
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
@@ -140,14 +141,15 @@ func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]
 		if !returned {
 			return // refreshFunc panicked
 		}
+		// retract the old outcome before publishing the new one: nobody may see them in the opposite order
 		if err == nil {
+			atomic.StoreInt64(&r.lastErr, 0)
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 9d695ad..82515f0 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -117,14 +117,15 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 		if !returned {
 			return // refreshFunc panicked
 		}
+		// retract the old outcome before publishing the new one: nobody may see them in the opposite order
 		if err == nil {
+			atomic.StoreInt64(&r.lastErr, 0)
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
@@ -140,14 +141,15 @@ func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc
 		if !returned {
 			return // refreshFunc panicked
 		}
+		// retract the old outcome before publishing the new one: nobody may see them in the opposite order
 		if err == nil {
+			atomic.StoreInt64(&r.lastErr, 0)
 			r.data.Store(&data)
 			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
 		} else {
+			atomic.StoreInt64(&r.last, 0)
 			r.err.Store(&err)
 			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
 		}
 	}()
 	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
-- 
2.43.0


From 683f7e03b64fbc2fe1c62131be6147dad83e542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 19/21] fix: set.Clear left NaN elements in the set

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index 1361870..c725791 100644
--- a/set/set.go
+++ b/set/set.go
@@ -68,7 +68,7 @@ func (s Set[T]) IsEmpty() bool {
 }
 
 func (s Set[T]) Clear() Set[T] {
-	maps.Clear(s)
+	clear(s)
 	return s
 }
 
-- 
2.43.0


From b1f1aaf9a0d812e85fb729c5c5cf77adc7d9386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 20/21] fix: genmap.Clear left entries with NaN keys in the map

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index e0a4137..b9f4b85 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -99,7 +99,7 @@ func (m GenMap[K, V]) EqualFunc(m2 GenMap[K, V], eq func(V, V) bool) bool {
 }
 
 func (m GenMap[K, V]) Clear() GenMap[K, V] {
-	maps.Clear(m)
+	clear(m)
 	return m
 }
 
-- 
2.43.0


From b79cce612b2e4eb92423b2c8c32a5dc504b76418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:19 +0000
Subject: [PATCH 21/21] fix: rwmap.CompareAndDelete left deleted keys in the
 dirty map for ever

---
 rwmap/rwmap.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index d12195d..0888464 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -430,15 +430,16 @@ func (m *RWMap[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}()
 	read := m.loadReadOnly()
 	e, ok := read.m[key]
+	fromDirty := false
 	if !ok && read.amended {
 		m.mu.Lock()
 		read = m.loadReadOnly()
 		e, ok = read.m[key]
 		if !ok && read.amended {
 			e, ok = m.dirty[key]
-			// Don't delete key from m.dirty: we still need to do the “compare” part
-			// of the operation. The entry will eventually be expunged when the
-			// dirty map is promoted to the read map.
+			fromDirty = ok
+			// Don't delete key from m.dirty yet: we still need to do the “compare”
+			// part of the operation.
 			//
 			// Regardless of whether the entry was present, record a miss: this key
 			// will take the slow path until the dirty map is promoted to the read
@@ -454,12 +455,25 @@ func (m *RWMap[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
+			if fromDirty {
+				m.dropDeleted(key, e)
+			}
 			return true
 		}
 	}
 	return false
 }
 
+// dropDeleted removes the deleted entry e from the dirty map if it is only
+// there, so that it does not stay until the dirty map is promoted.
+func (m *RWMap[K, V]) dropDeleted(key K, e *entry[V]) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if _, ok := m.loadReadOnly().m[key]; !ok && m.dirty[key] == e && e.p.Load() == nil {
+		delete(m.dirty, key)
+	}
+}
+
 // Range calls f sequentially for each key and value present in the map.
 // If f returns false, range stops the iteration.
 //
-- 
2.43.0

