From 812b503c71232d01c7b0654f5ba2cfcb30b5f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 01/13] fix: array2d: use the width as row stride so non-square
 arrays address distinct cells

---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From 921aef6122053f83be2a1d16446a3b0776e8ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 02/13] fix: array2d: OfJagged ignores rows beyond the height
 instead of panicking

---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..dad7379 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -32,6 +32,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
 	for y, row := range jagged {
+		if y >= height {
+			break
+		}
 		copy(arr.Row(y), row)
 	}
 	return arr
-- 
2.43.0


From 242a57900a294b83413cf762beda1e81a613a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 03/13] fix: btree: overwriting a key does not change the size

---
 btree/btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..adf20ee 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,10 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	if _, ok := t.Get(key); !ok {
+		t.n++
+	}
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
 	if u == nil {
 		return
 	}
-- 
2.43.0


From 4169ddd109d26393a0232d3f1e3eb3a4adb97f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 04/13] fix: cache: Put into a cache of capacity zero stores
 nothing instead of panicking

---
 cache/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..4078a2a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,9 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity == 0 {
+		return
+	}
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From 465659435f3923708e3373fd143539ea005019d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 05/13] fix: hashmap: Clear does not wipe entries shared with
 copies

---
 hashmap/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..d50edf1 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,12 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		m.entries = make([]entry[K, V], len(m.entries))
+		m.length = 0
+		m.readonly = false
+		return
+	}
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From 6e3625894a20028febaba58e8e5c1376ce586820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 06/13] fix: set: IsDisjoint reported the opposite

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From b7b2f8febbf3f3a9844d9a32c6787c4b68aa3ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 07/13] fix: set: InPlaceIntersection does not remove from the
 set it iterates over

---
 set/set.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..c6ca7b6 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,11 +108,12 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		// Removing while iterating over a hashset can skip elements.
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
-- 
2.43.0


From e1febcca63ef8a6c91ef91e8190dce9bcc9ea2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 08/13] fix: set: InPlaceDifference with the receiver itself
 removes every element

---
 set/set.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index c6ca7b6..cd4d63e 100644
--- a/set/set.go
+++ b/set/set.go
@@ -120,9 +120,15 @@ func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
+		// 'other' may share its storage with 's', and removing while iterating
+		// over a hashset can skip elements.
+		keys := make([]K, 0, other.Size())
 		other.Each(func(key K) {
-			s.Remove(key)
+			keys = append(keys, key)
 		})
+		for _, key := range keys {
+			s.Remove(key)
+		}
 	}
 	return s
 }
-- 
2.43.0


From ac146f4378e51aecbd1317de70c02595a50dd0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 09/13] fix: trie: removing an absent key does not change the
 size

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..0ac663e 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -145,7 +145,7 @@ func (t *Trie[V]) put(x *node[V], key string, val V, d int) *node[V] {
 // Remove removes the value associated with 'key', along with any nodes of the key that are no
 // longer used.
 func (t *Trie[V]) Remove(key string) {
-	if len(key) == 0 {
+	if len(key) == 0 || !t.Contains(key) {
 		return
 	}
 
-- 
2.43.0


From 22821aad0cfb0dfe4a169d1594985c0c2535551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 10/13] fix: rope: Rebuild turns the node into a leaf before
 adjusting it

---
 rope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..199d2ef 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,7 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From d1b6928554bea7d823642f419bcb66caa12f4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 11/13] fix: ulist: Remove at the end of a block moves the
 iterator to the next entry

---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..f57afa6 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index == len(iter.node.Value) && iter.node.Next != nil {
+		// The last entry of a block was removed: move on to the next block.
+		iter.node = iter.node.Next
+		iter.index = 0
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0


From 4b3090dd4cc25dfb241602fa5bdb1c8901ccf9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:39 +0000
Subject: [PATCH 12/13] fix: cache: evict removes the entry it reported even if
 the callback looks up entries

---
 cache/cache.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4078a2a..6606621 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -71,11 +71,13 @@ func (t *Cache[K, V]) Put(k K, e V) {
 }
 
 func (t *Cache[K, V]) evict() {
-	entry := t.lru.Back.Value
+	n := t.lru.Back
+	entry := n.Value
 	if t.evictCb != nil {
+		// The callback may look up entries, which reorders the list.
 		t.evictCb(entry.Key, entry.Val)
 	}
-	t.lru.Remove(t.lru.Back)
+	t.lru.Remove(n)
 	delete(t.table, entry.Key)
 }
 
-- 
2.43.0


From 5b6c5280521e456e4920e50bcb6ea4cdd7a92b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:39 +0000
Subject: [PATCH 13/13] fix: rope: inserting a part of the rope itself does not
 corrupt the inserted values

---
 rope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 199d2ef..b131176 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -268,6 +268,8 @@ func (n *Node[V]) Each(fn func(n *Node[V])) {
 // from slice tricks
 func insert[V any](s []V, k int, vs []V) []V {
 	if n := len(s) + len(vs); n <= cap(s) {
+		// 'vs' may be a part of 's', which is about to be moved.
+		vs = append([]V(nil), vs...)
 		s2 := s[:n]
 		copy(s2[k+len(vs):], s[k:])
 		copy(s2[k:], vs)
-- 
2.43.0

