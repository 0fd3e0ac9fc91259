@state K V
@callback list.List list.Node
@prelude
pub open spec fn lst<K, V>(s: S<K, V>, p: int) -> int { s.Cache[p].lru }
pub open spec fn nds<K, V>(s: S<K, V>, p: int) -> Seq<int> { list::nodes(s.list, s.Cache[p].lru) }
pub open spec fn tab<K, V>(s: S<K, V>, p: int) -> Map<K, int> { s.map_K_int[s.Cache[p].table] }
pub open spec fn has_key<K, V>(m: Map<K, int>, h: Map<int, list::Node<KV<K, V>>>, q: Seq<int>, i: int) -> bool { m.dom().contains(h[q[i]].Value.Key) && m[h[q[i]].Value.Key] == q[i] }
pub open spec fn has_node<K, V>(m: Map<K, int>, h: Map<int, list::Node<KV<K, V>>>, q: Seq<int>, k: K) -> bool { m.dom().contains(k) ==> q.contains(m[k]) && h[m[k]].Value.Key == k }
// the table maps each key of the nodes q to its node, and nothing else
pub open spec fn indexed<K, V>(m: Map<K, int>, h: Map<int, list::Node<KV<K, V>>>, q: Seq<int>) -> bool {
  &&& forall|i: int| 0 <= i < q.len() ==> #[trigger] has_key(m, h, q, i)
  &&& forall|k: K| #[trigger] has_node(m, h, q, k)
  &&& m.dom().len() == q.len()
}
pub open spec fn inner<K, V>(s: S<K, V>, p: int) -> bool {
  &&& p != 0 && s.Cache.dom().contains(p) && s.Cache[p].table != 0 && s.map_K_int.dom().contains(s.Cache[p].table) && list::wf(s.list, s.Cache[p].lru)
  &&& indexed(tab(s, p), s.list.Node, nds(s, p)) && 0 <= s.Cache[p].capacity
}
pub open spec fn wf<K, V>(s: S<K, V>, p: int) -> bool { inner(s, p) && view(s, p).len() <= s.Cache[p].capacity }
// the entries, from most to least recently used
pub open spec fn view<K, V>(s: S<K, V>, p: int) -> Seq<KV<K, V>> { list::view(s.list, s.Cache[p].lru) }
pub open spec fn holds<K, V>(q: Seq<KV<K, V>>, k: K) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Key == k }
pub open spec fn at<K, V>(q: Seq<KV<K, V>>, k: K) -> int { choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Key == k }
pub open spec fn distinct<K, V>(q: Seq<KV<K, V>>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).Key != (#[trigger] q[j]).Key }
// what the eviction callback f has seen when the n least recently used entries of q were evicted
pub open spec fn evicted<K, V>(f: int, q: Seq<KV<K, V>>, n: int) -> Seq<(int, K, V)> {
  if f == 0 { Seq::empty() } else { Seq::new(n as nat, |j: int| (f, q[q.len() - 1 - j].Key, q[q.len() - 1 - j].Val)) }
}
#[verifier::opaque]
pub open spec fn within<K, V>(r: Seq<KV<K, V>>, q: Seq<KV<K, V>>) -> bool { forall|x: KV<K, V>| #[trigger] r.contains(x) ==> q.contains(x) }
pub open spec fn ent<K, V>(e: (int, K, V)) -> KV<K, V> { KV { Key: e.1, Val: e.2 } }
pub open spec fn saw<K, V>(e: (int, K, V), f: int, q: Seq<KV<K, V>>) -> bool { e.0 == f && q.contains(ent(e)) }
#[verifier::opaque]
// the events after e0 are one for every entry of q that r lacks, and those are in q and not in r
pub open spec fn gone<K, V>(e0: Seq<(int, K, V)>, e: Seq<(int, K, V)>, f: int, q: Seq<KV<K, V>>, r: Seq<KV<K, V>>) -> bool {
  let d = e.skip(e0.len() as int);
  e.len() >= e0.len() && e == e0 + d && (if f == 0 { d.len() == 0 } else { d.len() == q.len() - r.len() }) && forall|j: int| 0 <= j < d.len() ==> #[trigger] saw(d[j], f, q) && !r.contains(ent(d[j]))
}
// a callback that does not use the cache
pub uninterp spec fn calm(f: int) -> bool;
pub open spec fn quiet(f: int) -> bool { f == 0 || calm(f) }
// the same entries, in whatever order
pub open spec fn same<K, V>(q: Seq<KV<K, V>>, r: Seq<KV<K, V>>) -> bool { q.len() == r.len() && forall|x: KV<K, V>| #![trigger q.contains(x)] #![trigger r.contains(x)] q.contains(x) == r.contains(x) }
// entries of p were looked up: they may have been reordered, and nothing else happened
pub open spec fn looked<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  &&& inner(s, p) && moved(s0, s, p) && s.Cache == s0.Cache && s.map_K_int == s0.map_K_int && same(view(s0, p), view(s, p))
  &&& forall|n: int| nds(s0, p).contains(n) == #[trigger] nds(s, p).contains(n)
  &&& forall|n: int| nds(s0, p).contains(n) ==> (#[trigger] s.list.Node[n]).Value == s0.list.Node[n].Value
}
pub open spec fn evicts<K, V>(s: S<K, V>, p: int, f: int, k: K, v: V) -> bool { inner(s, p) && s.Cache[p].evictCb == f && view(s, p).len() > 0 && view(s, p).last() == (KV { Key: k, Val: v }) }
// the callback f is invoked with the least recently used entry of a cache while it is still there
pub open spec fn callback_ok<K, V>(s: S<K, V>, f: int, k: K, v: V) -> bool { exists|p: int| #[trigger] evicts(s, p, f, k, v) }
// and may look up entries of that cache
pub open spec fn callback_may<K, V>(s0: S<K, V>, s: S<K, V>, f: int, k: K, v: V) -> bool {
  &&& s.Cache == s0.Cache && s.map_K_int == s0.map_K_int && s.ev == s0.ev
  &&& calm(f) ==> s == s0
  &&& forall|p: int| #[trigger] evicts(s0, p, f, k, v) ==> looked(s0, s, p)
}
pub open spec fn separate<K, V>(s: S<K, V>, p: int, o: int) -> bool {
  p != o && s.Cache[p].lru != s.Cache[o].lru && s.Cache[p].table != s.Cache[o].table && forall|n: int| !(#[trigger] nds(s, p).contains(n) && #[trigger] nds(s, o).contains(n))
}
pub open spec fn others_kept<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  forall|o: int| #[trigger] wf(s0, o) && separate(s0, p, o) ==> wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o) && s.Cache[o] == s0.Cache[o]
}
// all that a change to p may do to the rest
pub open spec fn moved<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  &&& s.Cache.dom() == s0.Cache.dom() && s.Cache[p].lru == s0.Cache[p].lru && s.Cache[p].table == s0.Cache[p].table && s.Cache[p].evictCb == s0.Cache[p].evictCb
  &&& forall|o: int| o != p ==> #[trigger] s.Cache[o] == s0.Cache[o]
  &&& s.map_K_int =~= s0.map_K_int.insert(s0.Cache[p].table, tab(s, p))
  &&& s.list.List =~= s0.list.List.insert(lst(s0, p), s.list.List[lst(s0, p)])
  &&& forall|n: int| #[trigger] s0.list.Node.dom().contains(n) ==> s.list.Node.dom().contains(n) && (!nds(s0, p).contains(n) ==> s.list.Node[n] == s0.list.Node[n])
  &&& forall|n: int| #[trigger] nds(s, p).contains(n) ==> nds(s0, p).contains(n) || !s0.list.Node.dom().contains(n)
}
pub proof fn lemma_moved<K, V>(s0: S<K, V>, s1: S<K, V>, s: S<K, V>, p: int)
  requires moved(s0, s1, p), moved(s1, s, p)
  ensures moved(s0, s, p)
{
  assert forall|n: int| #[trigger] s0.list.Node.dom().contains(n) implies s.list.Node.dom().contains(n) && (!nds(s0, p).contains(n) ==> s.list.Node[n] == s0.list.Node[n]) by { assert(s1.list.Node.dom().contains(n)); if !nds(s0, p).contains(n) { assert(!nds(s1, p).contains(n)); } }
  assert forall|n: int| #[trigger] nds(s, p).contains(n) implies nds(s0, p).contains(n) || !s0.list.Node.dom().contains(n) by { if s0.list.Node.dom().contains(n) { assert(s1.list.Node.dom().contains(n)); assert(nds(s1, p).contains(n)); } }
  assert forall|o: int| o != p implies #[trigger] s.Cache[o] == s0.Cache[o] by { assert(s1.Cache[o] == s0.Cache[o]); }
}
// list operations between the old and the new state only touched the nodes of p
pub proof fn lemma_members<K, V>(s: S<K, V>, p: int)
  requires inner(s, p)
  ensures forall|n: int| #[trigger] nds(s, p).contains(n) ==> n != 0 && s.list.Node.dom().contains(n),
    nds(s, p).no_duplicates(), view(s, p).len() == nds(s, p).len(),
    forall|i: int| 0 <= i < nds(s, p).len() ==> #[trigger] view(s, p)[i] == s.list.Node[nds(s, p)[i]].Value,
    s.list.List[lst(s, p)].Back == (if nds(s, p).len() > 0 { nds(s, p).last() } else { 0 }),
{
  let q = nds(s, p); assert(list::isseq(s.list, lst(s, p), q));
  assert forall|n: int| #[trigger] q.contains(n) implies n != 0 && s.list.Node.dom().contains(n) by { let i = q.index_of(n); assert(q[i] == n); }
}
pub proof fn lemma_other<K, V>(s0: S<K, V>, s: S<K, V>, p: int, o: int)
  requires inner(s0, p), moved(s0, s, p), wf(s0, o), separate(s0, p, o)
  ensures wf(s, o), separate(s, p, o), view(s, o) == view(s0, o), s.Cache[o] == s0.Cache[o]
{
  let l = lst(s0, o); let q = list::nodes(s0.list, l);
  assert(s.Cache[o] == s0.Cache[o]);
  lemma_members(s0, o);
  assert(list::isseq(s0.list, l, q));
  assert forall|i: int| 0 <= i < q.len() implies s.list.Node[#[trigger] q[i]] == s0.list.Node[q[i]] && s.list.Node.dom().contains(q[i]) by { assert(nds(s0, o).contains(q[i])); assert(!nds(s0, p).contains(q[i])); assert(s0.list.Node.dom().contains(q[i])); }
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.list.Node[q[i]]).Next == (if i + 1 < q.len() { q[i + 1] } else { 0 }) by { assert(q[i] == q[i]); assert(tk(s0.list.Node[q[i]])); }
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.list.Node[q[i]]).Prev == (if i > 0 { q[i - 1] } else { 0 }) by { assert(q[i] == q[i]); assert(tk(s0.list.Node[q[i]])); }
  assert(list::isseq(s.list, l, q));
  list::lemma_unique(s.list, l, q);
  assert(view(s, o) =~= view(s0, o));
  assert(tab(s, o) == tab(s0, o));
  assert forall|i: int| 0 <= i < q.len() implies #[trigger] has_key(tab(s, o), s.list.Node, q, i) by { assert(has_key(tab(s0, o), s0.list.Node, q, i)); }
  assert forall|k: K| #[trigger] has_node(tab(s, o), s.list.Node, q, k) by { assert(has_node(tab(s0, o), s0.list.Node, q, k)); if tab(s0, o).dom().contains(k) { let i = q.index_of(tab(s0, o)[k]); assert(q[i] == tab(s0, o)[k]); } }
  assert(indexed(tab(s, o), s.list.Node, q));
  assert forall|n: int| !(#[trigger] nds(s, p).contains(n) && #[trigger] nds(s, o).contains(n)) by { if nds(s, o).contains(n) { assert(nds(s0, o).contains(n)); assert(s0.list.Node.dom().contains(n)); } }
}
pub proof fn lemma_others<K, V>(s0: S<K, V>, s: S<K, V>, p: int)
  requires inner(s0, p), moved(s0, s, p)
  ensures others_kept(s0, s, p)
{ assert forall|o: int| #[trigger] wf(s0, o) && separate(s0, p, o) implies wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o) && s.Cache[o] == s0.Cache[o] by { lemma_other(s0, s, p, o); } }
// the key k in the table and in the entries
pub proof fn lemma_at<K, V>(s: S<K, V>, p: int, k: K)
  requires inner(s, p)
  ensures tab(s, p).dom().contains(k) == holds(view(s, p), k), distinct(view(s, p)),
    holds(view(s, p), k) ==> ({ let i = at(view(s, p), k); let n = tab(s, p)[k]; 0 <= i < view(s, p).len() && view(s, p)[i].Key == k && nds(s, p).contains(n) && nds(s, p).index_of(n) == i && nds(s, p)[i] == n && n != 0 && s.list.Node.dom().contains(n) && s.list.Node[n].Value == view(s, p)[i] })
{
  lemma_members(s, p); let q = nds(s, p); let w = view(s, p); let m = tab(s, p);
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).Key != (#[trigger] w[j]).Key by { assert(has_key(m, s.list.Node, q, i)); assert(has_key(m, s.list.Node, q, j)); assert(q[i] != q[j]); }
  assert(has_node(m, s.list.Node, q, k));
  if m.dom().contains(k) { let i = q.index_of(m[k]); assert(q[i] == m[k]); assert(w[i].Key == k); }
  if holds(w, k) { let i = at(w, k); assert(has_key(m, s.list.Node, q, i)); assert(m[w[i].Key] == q[i]); assert(q.contains(q[i])); let j = q.index_of(q[i]); assert(q[j] == q[i]); assert(i == j); }
}
// the entry at i was moved to the front (and its value may have changed)
pub proof fn lemma_front<K, V>(s0: S<K, V>, s: S<K, V>, p: int, i: int)
  requires inner(s0, p), 0 <= i < nds(s0, p).len(), moved(s0, s, p), s.Cache[p] == s0.Cache[p], tab(s, p) == tab(s0, p), list::wf(s.list, lst(s, p)),
    nds(s, p) == seq![nds(s0, p)[i]] + nds(s0, p).remove(i),
    forall|n: int| #[trigger] nds(s0, p).contains(n) ==> s.list.Node[n].Value.Key == s0.list.Node[n].Value.Key,
  ensures inner(s, p)
{
  let q0 = nds(s0, p); let q = nds(s, p); let m = tab(s, p);
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] has_key(m, s.list.Node, q, j) by { let z = if j == 0 { i } else if j <= i { j - 1 } else { j }; assert(q[j] == q0[z]); assert(has_key(m, s0.list.Node, q0, z)); assert(q0.contains(q0[z])); }
  assert forall|k: K| #[trigger] has_node(m, s.list.Node, q, k) by { if m.dom().contains(k) { assert(has_node(m, s0.list.Node, q0, k)); let z = q0.index_of(m[k]); assert(q0[z] == m[k]); let j = if z == i { 0 } else if z < i { z + 1 } else { z }; assert(q[j] == q0[z]); } }
}
// the entry at i was removed
pub proof fn lemma_gone<K, V>(s0: S<K, V>, s: S<K, V>, p: int, i: int)
  requires inner(s0, p), 0 <= i < nds(s0, p).len(), moved(s0, s, p), s.Cache[p] == s0.Cache[p], tab(s, p) == tab(s0, p).remove(view(s0, p)[i].Key), list::wf(s.list, lst(s, p)),
    nds(s, p) == nds(s0, p).remove(i),
    forall|n: int| #[trigger] nds(s0, p).contains(n) ==> s.list.Node[n].Value.Key == s0.list.Node[n].Value.Key,
  ensures inner(s, p)
{
  let q0 = nds(s0, p); let q = nds(s, p); let m = tab(s, p); let m0 = tab(s0, p); let kk = view(s0, p)[i].Key;
  lemma_members(s0, p); lemma_at(s0, p, kk);
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] has_key(m, s.list.Node, q, j) by { let z = if j < i { j } else { j + 1 }; assert(q[j] == q0[z]); assert(has_key(m0, s0.list.Node, q0, z)); assert(q0.contains(q0[z])); assert(view(s0, p)[z].Key != kk); }
  assert forall|k: K| #[trigger] has_node(m, s.list.Node, q, k) by { if m.dom().contains(k) { assert(has_node(m0, s0.list.Node, q0, k)); let z = q0.index_of(m0[k]); assert(q0[z] == m0[k]); let j = if z < i { z } else { z - 1 }; assert(z != i); assert(q[j] == q0[z]); } }
  assert(has_key(m0, s0.list.Node, q0, i)); assert(m0[kk] == q0[i]);
}
// the new node n came in at the front
pub proof fn lemma_new<K, V>(s0: S<K, V>, s: S<K, V>, p: int, n: int)
  requires inner(s0, p), !nds(s0, p).contains(n), moved(s0, s, p), s.Cache[p] == s0.Cache[p], tab(s, p) == tab(s0, p).insert(s.list.Node[n].Value.Key, n), list::wf(s.list, lst(s, p)),
    nds(s, p) == seq![n] + nds(s0, p), !holds(view(s0, p), s.list.Node[n].Value.Key),
    forall|x: int| #[trigger] nds(s0, p).contains(x) ==> s.list.Node[x].Value.Key == s0.list.Node[x].Value.Key,
  ensures inner(s, p)
{
  let q0 = nds(s0, p); let q = nds(s, p); let m = tab(s, p); let m0 = tab(s0, p); let kk = s.list.Node[n].Value.Key;
  lemma_members(s0, p); lemma_at(s0, p, kk);
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] has_key(m, s.list.Node, q, j) by { if j > 0 { assert(q[j] == q0[j - 1]); assert(has_key(m0, s0.list.Node, q0, j - 1)); assert(q0.contains(q0[j - 1])); assert(view(s0, p)[j - 1].Key != kk); } }
  assert forall|k: K| #[trigger] has_node(m, s.list.Node, q, k) by { if m.dom().contains(k) { if k == kk { assert(q[0] == n); } else { assert(has_node(m0, s0.list.Node, q0, k)); let z = q0.index_of(m0[k]); assert(q0[z] == m0[k]); assert(q[z + 1] == q0[z]); } } }
}
// storing into a node's value leaves the list's links alone
pub proof fn lemma_value<K, V>(s0: S<K, V>, s: S<K, V>, p: int, n: int)
  requires inner(s0, p), nds(s0, p).contains(n), s.list.List == s0.list.List, s.Cache == s0.Cache, s.map_K_int == s0.map_K_int, s.list.Node =~= s0.list.Node.insert(n, list::Node { Value: s.list.Node[n].Value, ..s0.list.Node[n] }), s.list.Node[n].Value.Key == s0.list.Node[n].Value.Key
  ensures inner(s, p), nds(s, p) == nds(s0, p), moved(s0, s, p), view(s, p) == view(s0, p).update(nds(s0, p).index_of(n), s.list.Node[n].Value)
{
  let q = nds(s0, p); let l = lst(s0, p); lemma_members(s0, p); assert(list::isseq(s0.list, l, q));
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.list.Node[q[i]]).Next == (if i + 1 < q.len() { q[i + 1] } else { 0 }) by { assert(tk(s0.list.Node[q[i]])); }
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.list.Node[q[i]]).Prev == (if i > 0 { q[i - 1] } else { 0 }) by { assert(tk(s0.list.Node[q[i]])); }
  assert(list::isseq(s.list, l, q)); list::lemma_unique(s.list, l, q);
  assert(q[q.index_of(n)] == n); let m = tab(s, p);
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] has_key(m, s.list.Node, q, j) by { assert(has_key(m, s0.list.Node, q, j)); assert(s.list.Node[q[j]].Value.Key == s0.list.Node[q[j]].Value.Key); }
  assert forall|k: K| #[trigger] has_node(m, s.list.Node, q, k) by { assert(has_node(m, s0.list.Node, q, k)); assert(s.list.Node[m[k]].Value.Key == s0.list.Node[m[k]].Value.Key || !m.dom().contains(k)); }
  assert(view(s, p) =~= view(s0, p).update(q.index_of(n), s.list.Node[n].Value));
}
// a new node came into being
pub proof fn lemma_alloc<K, V>(s0: S<K, V>, s: S<K, V>, p: int, n: int)
  requires inner(s0, p), n != 0, !s0.list.Node.dom().contains(n), s.list.List == s0.list.List, s.Cache == s0.Cache, s.map_K_int == s0.map_K_int, s.list.Node =~= s0.list.Node.insert(n, s.list.Node[n])
  ensures inner(s, p), nds(s, p) == nds(s0, p), moved(s0, s, p), view(s, p) == view(s0, p), !nds(s, p).contains(n)
{
  let q = nds(s0, p); let l = lst(s0, p); lemma_members(s0, p); assert(list::isseq(s0.list, l, q)); let m = tab(s, p);
  assert forall|i: int| 0 <= i < q.len() implies s.list.Node[#[trigger] q[i]] == s0.list.Node[q[i]] by { assert(nds(s0, p).contains(q[i])); }
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.list.Node[q[i]]).Next == (if i + 1 < q.len() { q[i + 1] } else { 0 }) by { assert(tk(s0.list.Node[q[i]])); }
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.list.Node[q[i]]).Prev == (if i > 0 { q[i - 1] } else { 0 }) by { assert(tk(s0.list.Node[q[i]])); }
  assert(list::isseq(s.list, l, q)); list::lemma_unique(s.list, l, q);
  assert(view(s, p) =~= view(s0, p));
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] has_key(m, s.list.Node, q, j) by { assert(has_key(m, s0.list.Node, q, j)); assert(s.list.Node[q[j]] == s0.list.Node[q[j]]); }
  assert forall|k: K| #[trigger] has_node(m, s.list.Node, q, k) by { assert(has_node(m, s0.list.Node, q, k)); if m.dom().contains(k) { assert(nds(s0, p).contains(m[k])); } }
}
// without the same entry they are still the same
pub proof fn lemma_less<K, V>(q: Seq<KV<K, V>>, r: Seq<KV<K, V>>, i: int, j: int)
  requires same(q, r), distinct(q), distinct(r), i == q.len() - 1, 0 <= i, 0 <= j < r.len(), q[i] == r[j]
  ensures same(q.drop_last(), r.remove(j))
{
  let a = q.drop_last(); let b = r.remove(j);
  assert forall|x: KV<K, V>| a.contains(x) == b.contains(x) by {
    if a.contains(x) { let n = a.index_of(x); assert(q[n] == x); assert(q.contains(x)); let m = r.index_of(x); assert(r[m] == x); assert(m != j); assert(b[if m < j { m } else { m - 1 }] == x); }
    if b.contains(x) { let n = b.index_of(x); let m = if n < j { n } else { n + 1 }; assert(r[m] == x); assert(r.contains(x)); let o = q.index_of(x); assert(q[o] == x); assert(o != i); assert(a[o] == x); }
  }
}
pub proof fn lemma_distinct<K, V>(s: S<K, V>, p: int)
  requires inner(s, p)
  ensures distinct(view(s, p))
{ lemma_members(s, p); if view(s, p).len() > 0 { lemma_at(s, p, view(s, p)[0].Key); } }
pub proof fn lemma_start<K, V>(e: Seq<(int, K, V)>, f: int, q: Seq<KV<K, V>>)
  ensures gone(e, e, f, q, q), within(q, q)
{ reveal(gone); reveal(within); assert(e =~= e + e.skip(e.len() as int)); }
pub proof fn lemma_next<K, V>(e0: Seq<(int, K, V)>, e1: Seq<(int, K, V)>, e2: Seq<(int, K, V)>, f: int, q: Seq<KV<K, V>>, a: Seq<KV<K, V>>, b: Seq<KV<K, V>>)
  requires gone(e0, e1, f, q, a), within(a, q), a.len() > 0, distinct(a), same(a.drop_last(), b), e2 == e1 + evicted(f, a, 1)
  ensures gone(e0, e2, f, q, b), within(b, q),
    a == q.take(a.len() as int) && b == a.drop_last() && a.len() <= q.len() && e1 == e0 + evicted(f, q, q.len() - a.len()) ==> b == q.take(b.len() as int) && e2 == e0 + evicted(f, q, q.len() - b.len())
{
  reveal(gone); reveal(within);
  if a == q.take(a.len() as int) && b == a.drop_last() && a.len() <= q.len() { assert(b =~= q.take(b.len() as int)); if e1 == e0 + evicted(f, q, q.len() - a.len()) { assert(e2 =~= e0 + evicted(f, q, q.len() - b.len())); } }
  assert forall|x: KV<K, V>| #[trigger] b.contains(x) implies q.contains(x) && a.contains(x) by { assert(a.drop_last().contains(x)); let n = a.drop_last().index_of(x); assert(a[n] == x); assert(a.contains(x)); }
  if f != 0 {
    let d = e2.skip(e0.len() as int); let d1 = e1.skip(e0.len() as int);
    assert(d =~= d1.push((f, a.last().Key, a.last().Val)));
    assert(e2 =~= e0 + d);
    assert forall|j: int| 0 <= j < d.len() implies #[trigger] saw(d[j], f, q) && !b.contains(ent(d[j])) by {
      if j < d1.len() { assert(saw(d1[j], f, q) && !a.contains(ent(d1[j]))); } else { assert(ent(d[j]) == a.last()); assert(a.contains(a.last())); assert(q.contains(a.last()));
        if b.contains(a.last()) { assert(a.drop_last().contains(a.last())); let n = a.drop_last().index_of(a.last()); assert(a[n] == a[a.len() - 1]); } }
    }
  } else { assert(e2 =~= e1); }
}
// another capacity
pub proof fn lemma_cap<K, V>(s0: S<K, V>, s: S<K, V>, p: int)
  requires inner(s0, p), s.list == s0.list, s.map_K_int == s0.map_K_int, s.Cache =~= s0.Cache.insert(p, Cache { capacity: s.Cache[p].capacity, ..s0.Cache[p] }), 0 <= s.Cache[p].capacity
  ensures inner(s, p), nds(s, p) == nds(s0, p), moved(s0, s, p), view(s, p) == view(s0, p)
{ lemma_members(s0, p); assert(s.Cache.dom() =~= s0.Cache.dom()); }

@func New (capacity) (r)
@requires 0 <= capacity
@ensures wf(s, r) && view(s, r) == Seq::<KV<K, V>>::empty() && s.Cache[r].capacity == capacity && s.Cache[r].evictCb == 0 && !s0.Cache.dom().contains(r)
@ensures s.list.Node == s0.list.Node && (forall|o: int| #[trigger] wf(s0, o) ==> wf(s, o) && separate(s, r, o) && view(s, o) == view(s0, o) && s.Cache[o] == s0.Cache[o])
@exit let l = s.Cache[r].lru; assert(list::isseq(s.list, l, Seq::empty())); list::lemma_unique(s.list, l, Seq::empty()); assert(view(s, r) =~= Seq::<KV<K, V>>::empty()); assert forall|o: int| #[trigger] wf(s0, o) implies wf(s, o) && separate(s, r, o) && view(s, o) == view(s0, o) && s.Cache[o] == s0.Cache[o] by { let lo = lst(s0, o); assert(s0.list.List.dom().contains(lo)); let q = list::nodes(s0.list, lo); assert(list::isseq(s0.list, lo, q)); assert(list::isseq(s.list, lo, q)); list::lemma_unique(s.list, lo, q); assert(view(s, o) =~= view(s0, o)); }

@func Cache.Get (p, k) (v, found)
@requires wf(s, p)
@ensures wf(s, p) && others_kept(s0, s, p) && s.Cache == s0.Cache
@ensures found == holds(view(s0, p), k)
@ensures ({ let q = view(s0, p); let i = at(q, k); if holds(q, k) { 0 <= i < q.len() && q[i].Key == k && v == q[i].Val && view(s, p) == seq![q[i]] + q.remove(i) } else { v == zero::<V>() && view(s, p) == q } })
@entry lemma_at(s, p, k); lemma_members(s, p); let nd = nds(s, p); let i = at(view(s, p), k);
@exit if found { assert(nds(s, p) == seq![nd[i]] + nd.remove(i)); assert(moved(s0, s, p)); lemma_front(s0, s, p, i); lemma_members(s, p); assert(view(s, p) =~= seq![view(s0, p)[i]] + view(s0, p).remove(i)); } lemma_others(s0, s, p);

@func Cache.Put (p, k, e)
@requires wf(s, p)
@ensures wf(s, p) && others_kept(s0, s, p) && s.Cache == s0.Cache
@ensures ({ let q = view(s0, p); let x = KV { Key: k, Val: e }; let c = s0.Cache[p].capacity; let full = !holds(q, k) && c > 0 && q.len() == c; let r = if holds(q, k) { seq![x] + q.remove(at(q, k)) } else if c == 0 { q } else if q.len() == c { seq![x] + q.drop_last() } else { seq![x] + q }; (!full || quiet(s0.Cache[p].evictCb) ==> view(s, p) == r) && (full ==> view(s, p).len() == c && view(s, p)[0] == x && same(q.drop_last(), view(s, p).skip(1))) })
@ensures ({ let q = view(s0, p); let c = s0.Cache[p].capacity; s.ev == s0.ev + evicted(s0.Cache[p].evictCb, q, if !holds(q, k) && c > 0 && q.len() == c { 1 } else { 0 }) })
@entry lemma_at(s, p, k); lemma_members(s, p); let nd = nds(s, p); let q = view(s, p); let i = at(q, k); let mut s1 = s; let mut s2 = s;
@before List.Remove#1 s1 = s; lemma_value(s0, s1, p, nd[i]); lemma_members(s1, p);
@before List.PushFrontNode#2 lemma_alloc(s1, s, p, $2); s2 = s; lemma_members(s2, p); lemma_at(s2, p, k);
@after List.PushFront s2 = s; assert(nds(s2, p) =~= seq![nds(s2, p)[0]] + nds(s1, p)); assert(view(s2, p)[0] == s2.list.Node[nds(s2, p)[0]].Value);
@after Cache.evict s1 = s; lemma_members(s1, p); lemma_at(s1, p, k); assert(!holds(view(s1, p), k)) by { if holds(view(s1, p), k) { let x = view(s1, p)[at(view(s1, p), k)]; assert(view(s1, p).contains(x)); assert(q.drop_last().contains(x)); let o = q.drop_last().index_of(x); assert(q[o].Key == k); } }
@exit if holds(q, k) { assert(nds(s, p) == seq![nd[i]] + nd.remove(i)); assert(moved(s0, s, p)); lemma_front(s0, s, p, i); lemma_members(s, p); assert(view(s, p) =~= seq![KV { Key: k, Val: e }] + q.remove(i)); assert(evicted(s0.Cache[p].evictCb, q, 0) =~= Seq::empty()); assert(s.ev =~= s0.ev + evicted(s0.Cache[p].evictCb, q, 0)); } else { let n = nds(s, p)[0]; if s0.Cache[p].capacity > 0 { assert(moved(s1, s, p)); lemma_new(s1, s, p, n); lemma_moved(s0, s1, s, p); lemma_members(s, p); assert(view(s, p) =~= seq![KV { Key: k, Val: e }] + view(s1, p)); assert(view(s, p).skip(1) =~= view(s1, p)); } assert(s.ev =~= s0.ev + evicted(s0.Cache[p].evictCb, q, if s0.Cache[p].capacity > 0 && q.len() == s0.Cache[p].capacity { 1 } else { 0 })); } lemma_others(s0, s, p);

@func Cache.evict (p)
@requires inner(s, p) && view(s, p).len() > 0
@ensures inner(s, p) && moved(s0, s, p) && s.Cache == s0.Cache
@ensures quiet(s0.Cache[p].evictCb) ==> view(s, p) == view(s0, p).drop_last()
@ensures same(view(s0, p).drop_last(), view(s, p))
@ensures s.ev == s0.ev + evicted(s0.Cache[p].evictCb, view(s0, p), 1)
@entry let q = nds(s, p); lemma_members(s, p); let z = q.len() - 1; assert(q[z] == q.last()); let k = view(s, p)[z].Key; lemma_at(s, p, k); assert(at(view(s, p), k) == z); let f = s.Cache[p].evictCb; let mut s1 = s0; assert(evicts(s0, p, f, k, view(s0, p)[z].Val));
@after callback s1 = s; assert(evicts(S { ev: s1.ev, ..s0 }, p, f, k, view(s0, p)[z].Val)); assert(looked(S { ev: s1.ev, ..s0 }, s1, p)); lemma_members(s1, p); lemma_at(s1, p, k);
@exit let q1 = nds(s1, p); assert(q1.contains(q[z])); let y = q1.index_of(q[z]); assert(nds(s, p) == q1.remove(y)); assert(tab(s, p) =~= tab(s0, p).remove(k)); assert(moved(s1, s, p)); lemma_moved(s0, s1, s, p); lemma_gone(s1, s, p, y); lemma_members(s, p); assert(view(s, p) =~= view(s1, p).remove(y)); lemma_less(view(s0, p), view(s1, p), z, y); if quiet(f) { assert(y == z); assert(view(s, p) =~= view(s0, p).drop_last()); } assert(s.ev =~= s0.ev + evicted(f, view(s0, p), 1));

@func Cache.Remove (p, k)
@requires wf(s, p)
@ensures wf(s, p) && others_kept(s0, s, p) && s.Cache == s0.Cache
@ensures ({ let q = view(s0, p); view(s, p) == if holds(q, k) { q.remove(at(q, k)) } else { q } })
@entry lemma_at(s, p, k); lemma_members(s, p); let nd = nds(s, p); let q = view(s, p); let i = at(q, k);
@exit if holds(q, k) { assert(nds(s, p) == nd.remove(i)); assert(moved(s0, s, p)); lemma_gone(s0, s, p, i); lemma_members(s, p); assert(view(s, p) =~= q.remove(i)); } lemma_others(s0, s, p);

@func Cache.Resize (p, capacity)
@requires wf(s, p) && 0 <= capacity
@ensures wf(s, p) && others_kept(s0, s, p) && s.Cache[p] == (Cache { capacity: capacity, ..s0.Cache[p] })
@ensures ({ let q = view(s0, p); let n = if q.len() > capacity { q.len() - capacity } else { 0 }; view(s, p).len() == q.len() - n && (n == 0 || quiet(s0.Cache[p].evictCb) ==> view(s, p) == q.take(q.len() - n) && s.ev == s0.ev + evicted(s0.Cache[p].evictCb, q, n)) })
@ensures within(view(s, p), view(s0, p)) && gone(s0.ev, s.ev, s0.Cache[p].evictCb, view(s0, p), view(s, p))
@entry let q = view(s, p); let f = s.Cache[p].evictCb; lemma_members(s, p); assert(q.take(q.len() as int) =~= q); assert(evicted(f, q, 0) =~= Seq::empty()); assert(s.ev + Seq::empty() =~= s.ev); lemma_start(s.ev, f, q);
@loop 1
@loopbefore lemma_cap(s0, s, p);
@invariant v_t == p && v_capacity == capacity && inner(s, p) && moved(s0, s, p) && s.Cache[p] == (Cache { capacity: capacity, ..s0.Cache[p] })
@invariant view(s, p).len() <= q.len() && (view(s, p).len() < q.len() ==> capacity <= view(s, p).len())
@invariant view(s, p).len() == q.len() || quiet(f) ==> view(s, p) == q.take(view(s, p).len() as int) && s.ev == s0.ev + evicted(f, q, q.len() - view(s, p).len())
@invariant within(view(s, p), q) && gone(s0.ev, s.ev, f, q, view(s, p))
@loopentry lemma_members(s, p); lemma_distinct(s, p); let sl = s;
@loopend lemma_members(s, p); lemma_distinct(s, p); lemma_moved(s0, sl, s, p); lemma_next(s0.ev, sl.ev, s.ev, f, q, view(sl, p), view(s, p));
@loopexit lemma_members(s, p);
@decreases view(s, p).len()
@exit lemma_others(s0, s, p);

@func Cache.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).len()
@entry lemma_members(s, p);

@func Cache.Capacity (p) (n)
@requires wf(s, p)
@ensures n == s.Cache[p].capacity

@func Cache.Each (p, fn)
@requires wf(s, p)
@ensures tr == tr0 + Seq::new(view(s, p).len(), |i: int| (view(s, p)[i].Key, view(s, p)[i].Val)) && distinct(view(s, p))
@entry list::lemma_walk(s.list, lst(s, p), 0); let q = nds(s, p); assert(q.skip(0) =~= q); if q.len() > 0 { lemma_at(s, p, view(s, p)[0].Key); } lemma_members(s, p);
@loop 1
@invariant tr =~= tr0 + Seq::new(it1 as nat, |i: int| (ctr1[i].Key, ctr1[i].Val))
@exit assert(tr =~= tr0 + Seq::new(view(s, p).len(), |i: int| (view(s, p)[i].Key, view(s, p)[i].Val)));

@func Cache.SetEvictCallback (p, cb)
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) == view(s0, p) && others_kept(s0, s, p) && s.ev == s0.ev
@ensures s.Cache[p] == (Cache { evictCb: cb, ..s0.Cache[p] })
