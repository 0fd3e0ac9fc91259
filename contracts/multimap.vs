@state K V
@sub ak avl K int
@sub as_ avl K multimap::valuesSet
@sub av avl V ()
@comp mkslice Map<int, ()>
@comp mkset Map<int, spec_fn(V,V)->bool>
@mono avlMultiMap C *valuesSlice slice
@mono avlMultiMap C valuesSet set
@mono mapMultiMap C *valuesSlice slice
@mono mapMultiMap C valuesSet set
@counter size
@prelude
// ---- associations as values
// the number of entries
pub open spec fn total<K, V>(a: Seq<(K, Seq<V>)>) -> int decreases a.len() { if a.len() == 0 { 0 } else { total(a.drop_last()) + a.last().1.len() } }
// the entries one by one
pub open spec fn flat<K, V>(a: Seq<(K, Seq<V>)>) -> Seq<(K, V)> decreases a.len() { if a.len() == 0 { Seq::empty() } else { flat(a.drop_last()) + pairup(a.last().0, a.last().1) } }
pub open spec fn pairup<K, V>(k: K, x: Seq<V>) -> Seq<(K, V)> { Seq::new(x.len(), |j: int| (k, x[j])) }
pub open spec fn mtotal<K, V>(m: Map<K, Seq<V>>) -> int decreases m.dom().len() {
  if m.dom().len() > 0 { let k = m.dom().choose(); if m.dom().contains(k) { mtotal(m.remove(k)) + m[k].len() } else { 0 } } else { 0 }
}
// the entries of m in the key order ks
pub open spec fn listed<K, V>(m: Map<K, Seq<V>>, ks: Seq<K>) -> Seq<(K, Seq<V>)> { Seq::new(ks.len(), |i: int| (ks[i], m[ks[i]])) }
pub open spec fn orders<K>(ks: Seq<K>, d: Set<K>) -> bool { ks.no_duplicates() && ks.to_set() == d }
pub proof fn lemma_update<K, V>(a: Seq<(K, Seq<V>)>, i: int, e: (K, Seq<V>))
  requires 0 <= i < a.len()
  ensures total(a.update(i, e)) == total(a) - a[i].1.len() + e.1.len()
  decreases a.len()
{
  let b = a.update(i, e);
  if i == a.len() - 1 { assert(b.drop_last() =~= a.drop_last()); } else { assert(b.drop_last() =~= a.drop_last().update(i, e)); assert(b.last() == a.last()); lemma_update(a.drop_last(), i, e); }
}
pub proof fn lemma_insert<K, V>(a: Seq<(K, Seq<V>)>, i: int, e: (K, Seq<V>))
  requires 0 <= i <= a.len()
  ensures total(a.insert(i, e)) == total(a) + e.1.len()
  decreases a.len()
{
  let b = a.insert(i, e);
  if i == a.len() { assert(b.drop_last() =~= a); } else { assert(b.drop_last() =~= a.drop_last().insert(i, e)); assert(b.last() == a.last()); lemma_insert(a.drop_last(), i, e); }
}
pub proof fn lemma_remove<K, V>(a: Seq<(K, Seq<V>)>, i: int)
  requires 0 <= i < a.len()
  ensures total(a.remove(i)) == total(a) - a[i].1.len()
{ let b = a.remove(i); lemma_insert(b, i, a[i]); assert(b.insert(i, a[i]) =~= a); }
pub proof fn lemma_mtotal<K, V>(m: Map<K, Seq<V>>, k: K)
  requires m.dom().contains(k)
  ensures mtotal(m) == mtotal(m.remove(k)) + m[k].len()
  decreases m.dom().len()
{
  let c = m.dom().choose(); assert(m.dom().len() > 0); assert(m.dom().contains(c));
  if c != k {
    lemma_mtotal(m.remove(c), k); lemma_mtotal(m.remove(k), c);
    assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
  }
}
pub proof fn lemma_minsert<K, V>(m: Map<K, Seq<V>>, k: K, x: Seq<V>)
  ensures mtotal(m.insert(k, x)) == mtotal(m) - (if m.dom().contains(k) { m[k].len() as int } else { 0 }) + x.len()
{
  let b = m.insert(k, x); lemma_mtotal(b, k);
  if m.dom().contains(k) { lemma_mtotal(m, k); assert(b.remove(k) =~= m.remove(k)); } else { assert(b.remove(k) =~= m); }
}
pub proof fn lemma_flat_step<K, V>(a: Seq<(K, Seq<V>)>, i: int)
  requires 0 <= i < a.len()
  ensures flat(a.take(i + 1)) == flat(a.take(i)) + pairup(a[i].0, a[i].1)
{ assert(a.take(i + 1).drop_last() =~= a.take(i)); }
// the values listed under k
pub open spec fn vals<K, V>(a: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K) -> Seq<V> {
  if avl::holds_key(a, less, k) { a[choose|i: int| 0 <= i < a.len() && avl::eqv(less, (#[trigger] a[i]).0, k)].1 } else { Seq::empty() }
}
pub open spec fn mvals<K, V>(m: Map<K, Seq<V>>, k: K) -> Seq<V> { if m.dom().contains(k) { m[k] } else { Seq::empty() } }
pub proof fn lemma_vals<K, V>(a: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K, i: int)
  requires strict_weak(less), avl::sorted(a, less), 0 <= i < a.len(), avl::eqv(less, a[i].0, k)
  ensures vals(a, less, k) == a[i].1, avl::holds_key(a, less, k)
{
  let j = choose|j: int| 0 <= j < a.len() && avl::eqv(less, (#[trigger] a[j]).0, k);
  assert(avl::eqv(less, a[j].0, k));
  if j < i { assert(less(a[j].0, a[i].0)); assert(less(a[j].0, k) || less(k, a[i].0)); }
  if i < j { assert(less(a[i].0, a[j].0)); assert(less(a[i].0, k) || less(k, a[j].0)); }
}
pub proof fn lemma_none<K, V>(a: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K)
  requires forall|i: int| 0 <= i < a.len() ==> !avl::eqv(less, (#[trigger] a[i]).0, k)
  ensures vals(a, less, k) == Seq::<V>::empty(), !avl::holds_key(a, less, k)
{}
// ---- bags of values
pub open spec fn lput<V>(x: Seq<V>, y: Seq<V>, v: V) -> bool { y.len() == x.len() + 1 && y.to_multiset() == x.to_multiset().insert(v) }
pub open spec fn ldel<V>(x: Seq<V>, y: Seq<V>, v: V) -> bool { if x.contains(v) { y.len() + 1 == x.len() && y.to_multiset() == x.to_multiset().remove(v) } else { y == x } }
pub open spec fn lok<V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, c: int) -> bool { c != 0 && h.dom().contains(c) && slwf(m, h[c]) }
pub open spec fn lval<V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, c: int) -> Seq<V> { sv(m, h[c]) }
pub open spec fn lsep<V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, c: int, d: int) -> bool { c != d && (h[c].arr != h[d].arr || h[c].arr == 0) }
pub open spec fn lsame<V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, d: int) -> bool { lok(h, m, d) && h[d] == h0[d] && lval(h, m, d) == lval(h0, m0, d) }
pub open spec fn first<V>(q: Seq<V>, v: V) -> int { choose|r: int| 0 <= r < q.len() && #[trigger] q[r] == v && forall|j: int| 0 <= j < r ==> #[trigger] q[j] != v }
pub proof fn lemma_lput<V>(x: Seq<V>, v: V)
  ensures lput(x, x + seq![v], v)
{ x.to_multiset_ensures(); assert(x + seq![v] =~= x.push(v)); }
// the element at i replaced by the last one, which goes
pub proof fn lemma_ldel<V>(x: Seq<V>, y: Seq<V>, v: V, i: int)
  requires 0 <= i < x.len(), x[i] == v, y =~= x.update(i, x.last()).take(x.len() - 1)
  ensures ldel(x, y, v)
{
  let z = x.update(i, x.last());
  vstd::seq_lib::to_multiset_update(x, i, x.last());
  z.to_multiset_ensures(); x.to_multiset_ensures(); y.to_multiset_ensures();
  assert(z =~= y.push(x.last()));
  assert(z.to_multiset() == y.to_multiset().insert(x.last()));
  assert(x.contains(v)); assert(x.to_multiset().count(v) > 0);
  assert forall|u: V| #[trigger] y.to_multiset().count(u) == x.to_multiset().remove(v).count(u) by { assert(z.to_multiset().count(u) == y.to_multiset().insert(x.last()).count(u)); assert(z.to_multiset().count(u) == x.to_multiset().insert(x.last()).remove(v).count(u)); }
  assert(y.to_multiset() =~= x.to_multiset().remove(v));
}
// ---- ordered sets of values
pub open spec fn vin<V>(x: Seq<V>, lt: spec_fn(V, V) -> bool, v: V) -> bool { exists|i: int| 0 <= i < x.len() && avl::eqv(lt, #[trigger] x[i], v) }
pub open spec fn increasing<V>(x: Seq<V>, lt: spec_fn(V, V) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < x.len() ==> lt(#[trigger] x[i], #[trigger] x[j]) }
pub open spec fn tput<V>(x: Seq<V>, y: Seq<V>, v: V, lt: spec_fn(V, V) -> bool) -> bool { increasing(y, lt) && if vin(x, lt, v) { y == x } else { exists|i: int| 0 <= i <= x.len() && y == #[trigger] x.insert(i, v) } }
pub open spec fn tdel<V>(x: Seq<V>, y: Seq<V>, v: V, lt: spec_fn(V, V) -> bool) -> bool { if vin(x, lt, v) { exists|i: int| 0 <= i < x.len() && avl::eqv(lt, #[trigger] x[i], v) && y == x.remove(i) } else { y == x } }
pub open spec fn tok<V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, c: valuesSet) -> bool { avl::wf(a, c.t) && avl::balanced(a, c.t) && a.Tree[c.t].less == lt }
pub open spec fn tval<V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, c: valuesSet) -> Seq<V> { keys_of(avl::view(a, c.t)) }
pub open spec fn keys_of<V>(q: Seq<(V, ())>) -> Seq<V> { Seq::new(q.len(), |i: int| q[i].0) }
pub proof fn lemma_vin<V>(q: Seq<(V, ())>, lt: spec_fn(V, V) -> bool, v: V)
  ensures vin(keys_of(q), lt, v) == avl::holds_key(q, lt, v)
{
  let x = keys_of(q);
  if avl::holds_key(q, lt, v) { let i = choose|i: int| 0 <= i < q.len() && avl::eqv(lt, (#[trigger] q[i]).0, v); assert(x[i] == q[i].0); }
  if vin(x, lt, v) { let i = choose|i: int| 0 <= i < x.len() && avl::eqv(lt, #[trigger] x[i], v); assert(x[i] == q[i].0); }
}
pub proof fn lemma_increasing<V>(q: Seq<(V, ())>, lt: spec_fn(V, V) -> bool)
  requires avl::sorted(q, lt)
  ensures increasing(keys_of(q), lt)
{ let x = keys_of(q); assert forall|i: int, j: int| 0 <= i < j < x.len() implies lt(#[trigger] x[i], #[trigger] x[j]) by { assert(x[i] == q[i].0 && x[j] == q[j].0); } }
pub proof fn lemma_tput<V>(q: Seq<(V, ())>, q2: Seq<(V, ())>, v: V, lt: spec_fn(V, V) -> bool)
  requires avl::sorted(q2, lt), if avl::holds_key(q, lt, v) { q2 == q } else { avl::put(q, q2, lt, v, ()) }
  ensures tput(keys_of(q), keys_of(q2), v, lt), q2.len() - q.len() == (if avl::holds_key(q, lt, v) { 0int } else { 1 })
{
  lemma_vin(q, lt, v); lemma_increasing(q2, lt);
  if !avl::holds_key(q, lt, v) {
    let i = choose|i: int| #[trigger] avl::put_at(q, q2, lt, v, (), i);
    assert(!(i < q.len() && avl::eqv(lt, q[i].0, v)));
    assert(keys_of(q2) =~= keys_of(q).insert(i, v));
  }
}
pub proof fn lemma_tdel<V>(q: Seq<(V, ())>, q2: Seq<(V, ())>, v: V, lt: spec_fn(V, V) -> bool)
  requires avl::del(q, q2, lt, v)
  ensures tdel(keys_of(q), keys_of(q2), v, lt), q.len() - q2.len() == (if avl::holds_key(q, lt, v) { 1int } else { 0 })
{
  lemma_vin(q, lt, v);
  if avl::holds_key(q, lt, v) {
    let i = choose|i: int| 0 <= i < q.len() && avl::eqv(lt, (#[trigger] q[i]).0, v) && q2 == q.remove(i);
    assert(keys_of(q)[i] == q[i].0);
    assert(keys_of(q2) =~= keys_of(q).remove(i));
  }
}
pub proof fn lemma_nolevels<K, V>(t: avl::T<K, V>)
  ensures avl::levels(t) >= 0, (avl::levels(t) == 0) == (avl::sq(t).len() == 0)
  decreases t
{ match t { avl::T::E => {}, avl::T::N { l, r, .. } => { lemma_nolevels(*l); lemma_nolevels(*r); } } }
pub open spec fn tsep<V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, c: valuesSet, d: valuesSet) -> bool { avl::separate(a, c.t, d.t) }
pub open spec fn tsame<V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, d: valuesSet) -> bool { tok(a, lt, d) && avl::tr_of(a, d.t) == avl::tr_of(a0, d.t) && tval(a, lt, d) == tval(a0, lt, d) }

pub proof fn llemma_sym<V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, c: int, d: int)
  ensures lsep(h, m, c, d) == lsep(h, m, d, c)
{  }
// containers of kind slice under the keys of an association
pub open spec fn lkept<V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, c: int) -> bool { forall|o: int| #[trigger] lok(h0, m0, o) && lsep(h0, m0, c, o) ==> lsame(h0, m0, h, m, o) && lsep(h, m, c, o) }
pub open spec fn lnew<V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, c: int) -> bool { lok(h, m, c) && lval(h, m, c).len() == 0 && forall|o: int| #[trigger] lok(h0, m0, o) ==> lsame(h0, m0, h, m, o) && lsep(h, m, c, o) }
pub open spec fn lat<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, i: int) -> bool { lok(h, m, q[i].1) }
pub open spec fn lpair<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, i: int, j: int) -> bool { lsep(h, m, q[i].1, q[j].1) }
pub open spec fn lgood<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>) -> bool {
  (forall|i: int| 0 <= i < q.len() ==> #[trigger] lat(h, m, q, i)) && (forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j ==> #[trigger] lpair(h, m, q, i, j))
}
pub open spec fn lents<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>) -> Seq<(K, Seq<V>)> { Seq::new(q.len(), |i: int| (q[i].0, lval(h, m, q[i].1))) }
pub open spec fn full<K, V>(a: Seq<(K, Seq<V>)>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1.len() > 0 }
// the container at i changed
pub proof fn llemma_change<K, V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, i: int)
  requires lgood(h0, m0, q), 0 <= i < q.len(), lok(h, m, q[i].1), lkept(h0, m0, h, m, q[i].1)
  ensures lgood(h, m, q), lents(h, m, q) == lents(h0, m0, q).update(i, (q[i].0, lval(h, m, q[i].1)))
{
  assert forall|j: int| 0 <= j < q.len() && j != i implies #[trigger] lat(h, m, q, j) && lsame(h0, m0, h, m, q[j].1) by { assert(lat(h0, m0, q, j)); assert(lpair(h0, m0, q, i, j)); }
  assert forall|j: int, k: int| 0 <= j < q.len() && 0 <= k < q.len() && j != k implies #[trigger] lpair(h, m, q, j, k) by { assert(lpair(h0, m0, q, j, k)); assert(lpair(h0, m0, q, i, j) || i == j); assert(lpair(h0, m0, q, i, k) || i == k); assert(lat(h0, m0, q, j) && lat(h0, m0, q, k)); assert(i == j || lat(h, m, q, j)); assert(i == k || lat(h, m, q, k)); llemma_sym::<V>(h, m, q[k].1, q[j].1); }
  let b = lents(h0, m0, q).update(i, (q[i].0, lval(h, m, q[i].1)));
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] lents(h, m, q)[j] == b[j] by { if j != i { assert(lat(h, m, q, j)); } }
  assert(lents(h, m, q) =~= b);
}
// a new container was added
pub proof fn llemma_add<K, V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, i: int, k: K, c: int)
  requires lgood(h0, m0, q), 0 <= i <= q.len(), lnew(h0, m0, h, m, c)
  ensures lgood(h, m, q.insert(i, (k, c))), lents(h, m, q.insert(i, (k, c))) == lents(h0, m0, q).insert(i, (k, Seq::empty()))
{
  let r = q.insert(i, (k, c));
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] lat(h, m, q, j) && lsame(h0, m0, h, m, q[j].1) && lsep(h, m, c, q[j].1) && lsep(h, m, q[j].1, c) by { assert(lat(h0, m0, q, j)); llemma_sym::<V>(h, m, c, q[j].1); }
  assert forall|j: int| 0 <= j < r.len() implies #[trigger] lat(h, m, r, j) by { if j < i { assert(lat(h, m, q, j)); } else if j > i { assert(lat(h, m, q, j - 1)); } }
  assert forall|j: int, l: int| 0 <= j < r.len() && 0 <= l < r.len() && j != l implies #[trigger] lpair(h, m, r, j, l) by {
    let x = if j < i { j } else { j - 1 }; let y = if l < i { l } else { l - 1 };
    if j != i { assert(lat(h0, m0, q, x)); assert(lat(h, m, q, x)); } if l != i { assert(lat(h0, m0, q, y)); assert(lat(h, m, q, y)); }
    if j != i && l != i { assert(lpair(h0, m0, q, x, y)); }
  }
  assert(lval(h, m, c) =~= Seq::<V>::empty());
  let b = lents(h0, m0, q).insert(i, (k, Seq::empty()));
  assert forall|j: int| 0 <= j < r.len() implies #[trigger] lents(h, m, r)[j] == b[j] by { if j < i { assert(lat(h, m, q, j)); } else if j > i { assert(lat(h, m, q, j - 1)); } }
  assert(lents(h, m, r) =~= b);
}
pub proof fn llemma_drop<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, i: int)
  requires lgood(h, m, q), 0 <= i < q.len()
  ensures lgood(h, m, q.remove(i)), lents(h, m, q.remove(i)) == lents(h, m, q).remove(i)
{
  let r = q.remove(i);
  assert forall|j: int| 0 <= j < r.len() implies #[trigger] lat(h, m, r, j) by { assert(lat(h, m, q, if j < i { j } else { j + 1 })); }
  assert forall|j: int, l: int| 0 <= j < r.len() && 0 <= l < r.len() && j != l implies #[trigger] lpair(h, m, r, j, l) by { assert(lpair(h, m, q, if j < i { j } else { j + 1 }, if l < i { l } else { l + 1 })); }
  assert(lents(h, m, r) =~= lents(h, m, q).remove(i));
}

pub proof fn tlemma_sym<V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, c: valuesSet, d: valuesSet)
  ensures tsep(a, lt, c, d) == tsep(a, lt, d, c)
{ if tsep(a, lt, c, d) { assert(avl::separate(a, d.t, c.t)); } if tsep(a, lt, d, c) { assert(avl::separate(a, c.t, d.t)); } }
// containers of kind set under the keys of an association
pub open spec fn tkept<V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, c: valuesSet) -> bool { forall|o: valuesSet| #[trigger] tok(a0, lt, o) && tsep(a0, lt, c, o) ==> tsame(a0, a, lt, o) && tsep(a, lt, c, o) }
pub open spec fn tnew<V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, c: valuesSet) -> bool { tok(a, lt, c) && tval(a, lt, c).len() == 0 && forall|o: valuesSet| #[trigger] tok(a0, lt, o) ==> tsame(a0, a, lt, o) && tsep(a, lt, c, o) }
pub open spec fn tat<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, i: int) -> bool { tok(a, lt, q[i].1) }
pub open spec fn tpair<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, i: int, j: int) -> bool { tsep(a, lt, q[i].1, q[j].1) }
pub open spec fn tgood<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>) -> bool {
  (forall|i: int| 0 <= i < q.len() ==> #[trigger] tat(a, lt, q, i)) && (forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j ==> #[trigger] tpair(a, lt, q, i, j))
}
pub open spec fn tents<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>) -> Seq<(K, Seq<V>)> { Seq::new(q.len(), |i: int| (q[i].0, tval(a, lt, q[i].1))) }
// the container at i changed
pub proof fn tlemma_change<K, V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, i: int)
  requires tgood(a0, lt, q), 0 <= i < q.len(), tok(a, lt, q[i].1), tkept(a0, a, lt, q[i].1)
  ensures tgood(a, lt, q), tents(a, lt, q) == tents(a0, lt, q).update(i, (q[i].0, tval(a, lt, q[i].1)))
{
  assert forall|j: int| 0 <= j < q.len() && j != i implies #[trigger] tat(a, lt, q, j) && tsame(a0, a, lt, q[j].1) by { assert(tat(a0, lt, q, j)); assert(tpair(a0, lt, q, i, j)); }
  assert forall|j: int, k: int| 0 <= j < q.len() && 0 <= k < q.len() && j != k implies #[trigger] tpair(a, lt, q, j, k) by { assert(tpair(a0, lt, q, j, k)); assert(tpair(a0, lt, q, i, j) || i == j); assert(tpair(a0, lt, q, i, k) || i == k); assert(tat(a0, lt, q, j) && tat(a0, lt, q, k)); assert(i == j || tat(a, lt, q, j)); assert(i == k || tat(a, lt, q, k)); tlemma_sym::<V>(a, lt, q[k].1, q[j].1); }
  let b = tents(a0, lt, q).update(i, (q[i].0, tval(a, lt, q[i].1)));
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] tents(a, lt, q)[j] == b[j] by { if j != i { assert(tat(a, lt, q, j)); } }
  assert(tents(a, lt, q) =~= b);
}
// a new container was added
pub proof fn tlemma_add<K, V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, i: int, k: K, c: valuesSet)
  requires tgood(a0, lt, q), 0 <= i <= q.len(), tnew(a0, a, lt, c)
  ensures tgood(a, lt, q.insert(i, (k, c))), tents(a, lt, q.insert(i, (k, c))) == tents(a0, lt, q).insert(i, (k, Seq::empty()))
{
  let r = q.insert(i, (k, c));
  assert forall|j: int| 0 <= j < q.len() implies #[trigger] tat(a, lt, q, j) && tsame(a0, a, lt, q[j].1) && tsep(a, lt, c, q[j].1) && tsep(a, lt, q[j].1, c) by { assert(tat(a0, lt, q, j)); tlemma_sym::<V>(a, lt, c, q[j].1); }
  assert forall|j: int| 0 <= j < r.len() implies #[trigger] tat(a, lt, r, j) by { if j < i { assert(tat(a, lt, q, j)); } else if j > i { assert(tat(a, lt, q, j - 1)); } }
  assert forall|j: int, l: int| 0 <= j < r.len() && 0 <= l < r.len() && j != l implies #[trigger] tpair(a, lt, r, j, l) by {
    let x = if j < i { j } else { j - 1 }; let y = if l < i { l } else { l - 1 };
    if j != i { assert(tat(a0, lt, q, x)); assert(tat(a, lt, q, x)); } if l != i { assert(tat(a0, lt, q, y)); assert(tat(a, lt, q, y)); }
    if j != i && l != i { assert(tpair(a0, lt, q, x, y)); }
  }
  assert(tval(a, lt, c) =~= Seq::<V>::empty());
  let b = tents(a0, lt, q).insert(i, (k, Seq::empty()));
  assert forall|j: int| 0 <= j < r.len() implies #[trigger] tents(a, lt, r)[j] == b[j] by { if j < i { assert(tat(a, lt, q, j)); } else if j > i { assert(tat(a, lt, q, j - 1)); } }
  assert(tents(a, lt, r) =~= b);
}
pub proof fn tlemma_drop<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, i: int)
  requires tgood(a, lt, q), 0 <= i < q.len()
  ensures tgood(a, lt, q.remove(i)), tents(a, lt, q.remove(i)) == tents(a, lt, q).remove(i)
{
  let r = q.remove(i);
  assert forall|j: int| 0 <= j < r.len() implies #[trigger] tat(a, lt, r, j) by { assert(tat(a, lt, q, if j < i { j } else { j + 1 })); }
  assert forall|j: int, l: int| 0 <= j < r.len() && 0 <= l < r.len() && j != l implies #[trigger] tpair(a, lt, r, j, l) by { assert(tpair(a, lt, q, if j < i { j } else { j + 1 }, if l < i { l } else { l + 1 })); }
  assert(tents(a, lt, r) =~= tents(a, lt, q).remove(i));
}

// ---- changes of an association ordered by key
pub proof fn lemma_put_found<K, V>(e: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K, i: int, y: Seq<V>)
  requires strict_weak(less), avl::sorted(e, less), 0 <= i < e.len(), avl::eqv(less, e[i].0, k)
  ensures ({ let f = e.update(i, (e[i].0, y)); avl::put(e, f, less, k, y) && vals(e, less, k) == e[i].1 && vals(f, less, k) == y && avl::sorted(f, less) && total(f) == total(e) - e[i].1.len() + y.len() && (full(e) && y.len() > 0 ==> full(f)) && avl::holds_key(e, less, k) && (y == e[i].1 ==> f == e) })
{
  let f = e.update(i, (e[i].0, y));
  lemma_vals(e, less, k, i); lemma_update(e, i, (e[i].0, y));
  assert forall|a: int, b: int| 0 <= a < b < f.len() implies less((#[trigger] f[a]).0, (#[trigger] f[b]).0) by { assert(f[a].0 == e[a].0 && f[b].0 == e[b].0); }
  lemma_vals(f, less, k, i);
  assert forall|j: int| 0 <= j < i implies less((#[trigger] e[j]).0, k) by { assert(less(e[j].0, e[i].0)); assert(less(e[j].0, k) || less(k, e[i].0)); }
  assert(avl::put_at(e, f, less, k, y, i));
  if full(e) && y.len() > 0 { assert forall|j: int| 0 <= j < f.len() implies (#[trigger] f[j]).1.len() > 0 by { if j != i { assert(f[j] == e[j]); } } }
  if y == e[i].1 { assert(f =~= e); }
}
pub proof fn lemma_put_new<K, V>(e: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K, i: int, y: Seq<V>)
  requires strict_weak(less), avl::sorted(e, less), avl::cut(e, less, k, i), forall|j: int| i <= j < e.len() ==> less(k, (#[trigger] e[j]).0)
  ensures ({ let f = e.insert(i, (k, y)); avl::put(e, f, less, k, y) && vals(e, less, k) == Seq::<V>::empty() && vals(f, less, k) == y && avl::sorted(f, less) && total(f) == total(e) + y.len() && (full(e) && y.len() > 0 ==> full(f)) && !avl::holds_key(e, less, k) })
{
  let f = e.insert(i, (k, y));
  lemma_insert(e, i, (k, y));
  assert forall|j: int| 0 <= j < e.len() implies !avl::eqv(less, (#[trigger] e[j]).0, k) by { if j < i { assert(less(e[j].0, k)); } else { assert(less(k, e[j].0)); } }
  lemma_none(e, less, k);
  assert forall|a: int, b: int| 0 <= a < b < f.len() implies less((#[trigger] f[a]).0, (#[trigger] f[b]).0) by {
    let x = if a < i { a } else { a - 1 }; let z = if b < i { b } else { b - 1 };
    if a != i { assert(f[a] == e[x]); } if b != i { assert(f[b] == e[z]); }
    if a != i && b != i { assert(less(e[x].0, e[z].0)); }
  }
  lemma_vals(f, less, k, i);
  assert(avl::put_at(e, f, less, k, y, i));
  if full(e) && y.len() > 0 { assert forall|j: int| 0 <= j < f.len() implies (#[trigger] f[j]).1.len() > 0 by { if j < i { assert(f[j] == e[j]); } else if j > i { assert(f[j] == e[j - 1]); } } }
}
pub proof fn lemma_del<K, V>(e: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K, i: int)
  requires strict_weak(less), avl::sorted(e, less), 0 <= i < e.len(), avl::eqv(less, e[i].0, k)
  ensures ({ let f = e.remove(i); avl::del(e, f, less, k) && vals(e, less, k) == e[i].1 && vals(f, less, k) == Seq::<V>::empty() && avl::sorted(f, less) && total(f) == total(e) - e[i].1.len() && (full(e) ==> full(f)) && avl::holds_key(e, less, k) && !avl::holds_key(f, less, k) })
{
  let f = e.remove(i);
  lemma_vals(e, less, k, i); lemma_remove(e, i);
  assert forall|a: int, b: int| 0 <= a < b < f.len() implies less((#[trigger] f[a]).0, (#[trigger] f[b]).0) by { assert(f[a] == e[if a < i { a } else { a + 1 }] && f[b] == e[if b < i { b } else { b + 1 }]); }
  assert forall|j: int| 0 <= j < f.len() implies !avl::eqv(less, (#[trigger] f[j]).0, k) by {
    if j < i { assert(f[j] == e[j]); assert(less(e[j].0, e[i].0)); assert(less(e[j].0, k) || less(k, e[i].0)); } else { assert(f[j] == e[j + 1]); assert(less(e[i].0, e[j + 1].0)); assert(less(e[i].0, k) || less(k, e[j + 1].0)); } }
  lemma_none(f, less, k);
  if full(e) { assert forall|j: int| 0 <= j < f.len() implies (#[trigger] f[j]).1.len() > 0 by { assert(f[j] == e[if j < i { j } else { j + 1 }]); } }
}
// what an iteration over lists of values hands out
pub open spec fn hand<K, V>(m: Map<int, Seq<V>>, t: Seq<(K, Slice)>, e: Seq<(K, Seq<V>)>, i: int) -> bool { t[i].0 == e[i].0 && slwf(m, t[i].1) && sv(m, t[i].1) == e[i].1 }
pub open spec fn handed<K, V>(m: Map<int, Seq<V>>, t: Seq<(K, Slice)>, e: Seq<(K, Seq<V>)>) -> bool { t.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> #[trigger] hand(m, t, e, i) }
pub open spec fn afull<K, V>(m: Map<K, Seq<V>>) -> bool { forall|k: K| #[trigger] m.dom().contains(k) ==> m[k].len() > 0 }
pub open spec fn kept_arr<V>(m0: Map<int, Seq<V>>, m: Map<int, Seq<V>>) -> bool { m[0] == m0[0] && forall|x: int| #[trigger] m0.dom().contains(x) ==> m.dom().contains(x) && m[x] == m0[x] }
// in some order of the keys
pub open spec fn handed_some<K, V>(m: Map<int, Seq<V>>, t: Seq<(K, Slice)>, e: Map<K, Seq<V>>) -> bool { exists|ks: Seq<K>| orders(ks, e.dom()) && handed(m, t, #[trigger] listed(e, ks)) }
// one more list was handed out
pub proof fn lemma_hand<K, V>(m0: Map<int, Seq<V>>, m: Map<int, Seq<V>>, t: Seq<(K, Slice)>, e: Seq<(K, Seq<V>)>, n: int, x: (K, Slice))
  requires 0 <= n < e.len(), handed(m0, t, e.take(n)), kept_arr(m0, m), x.0 == e[n].0, slwf(m, x.1), sv(m, x.1) == e[n].1
  ensures handed(m, t.push(x), e.take(n + 1))
{
  let t2 = t.push(x); let f = e.take(n + 1);
  assert forall|i: int| 0 <= i < f.len() implies #[trigger] hand(m, t2, f, i) by {
    if i < n { assert(hand(m0, t, e.take(n), i)); assert(t2[i] == t[i] && f[i] == e.take(n)[i]); if t[i].1.arr != 0 { assert(m0.dom().contains(t[i].1.arr)); } else { assert(m[0] == m0[0]); } }
  }
}

// the value lists of the containers in a Go map
pub open spec fn lmat<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Map<K, int>, k: K) -> bool { q.dom().contains(k) ==> lok(h, m, q[k]) }
pub open spec fn lmpair<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Map<K, int>, j: K, k: K) -> bool { q.dom().contains(j) && q.dom().contains(k) && j != k ==> lsep(h, m, q[j], q[k]) }
pub open spec fn lmgood<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Map<K, int>) -> bool { (forall|k: K| #[trigger] lmat(h, m, q, k)) && (forall|j: K, k: K| #[trigger] lmpair(h, m, q, j, k)) }
pub open spec fn lments<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Map<K, int>) -> Map<K, Seq<V>> { Map::new(q.dom(), |k: K| lval(h, m, q[k])) }
pub proof fn llemma_mchange<K, V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Map<K, int>, k: K)
  requires lmgood(h0, m0, q), q.dom().contains(k), lok(h, m, q[k]), lkept(h0, m0, h, m, q[k])
  ensures lmgood(h, m, q), lments(h, m, q) == lments(h0, m0, q).insert(k, lval(h, m, q[k]))
{
  assert forall|j: K| #[trigger] lmat(h, m, q, j) && (q.dom().contains(j) && j != k ==> lsame(h0, m0, h, m, q[j]) && lsep(h, m, q[k], q[j])) by { assert(lmat(h0, m0, q, j)); assert(lmpair(h0, m0, q, k, j)); }
  assert forall|i: K, j: K| #[trigger] lmpair(h, m, q, i, j) by { assert(lmpair(h0, m0, q, i, j)); assert(lmat(h0, m0, q, i) && lmat(h0, m0, q, j)); assert(lmat(h, m, q, i) && lmat(h, m, q, j)); if q.dom().contains(i) && q.dom().contains(j) { llemma_sym::<V>(h, m, q[i], q[j]); } }
  let b = lments(h0, m0, q).insert(k, lval(h, m, q[k]));
  assert forall|j: K| b.dom().contains(j) implies #[trigger] lments(h, m, q)[j] == b[j] by { assert(lmat(h, m, q, j)); }
  assert(lments(h, m, q) =~= b);
}
pub proof fn llemma_madd<K, V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Map<K, int>, k: K, c: int)
  requires lmgood(h0, m0, q), !q.dom().contains(k), lnew(h0, m0, h, m, c)
  ensures lmgood(h, m, q.insert(k, c)), lments(h, m, q.insert(k, c)) == lments(h0, m0, q).insert(k, Seq::empty())
{
  let r = q.insert(k, c);
  assert forall|j: K| #[trigger] lmat(h, m, r, j) && (q.dom().contains(j) ==> lsame(h0, m0, h, m, q[j]) && lsep(h, m, c, q[j])) by { assert(lmat(h0, m0, q, j)); }
  assert forall|i: K, j: K| #[trigger] lmpair(h, m, r, i, j) by { assert(lmpair(h0, m0, q, i, j)); assert(lmat(h0, m0, q, i) && lmat(h0, m0, q, j)); assert(lmat(h, m, r, i) && lmat(h, m, r, j)); if r.dom().contains(i) && r.dom().contains(j) { llemma_sym::<V>(h, m, r[i], r[j]); } }
  let b = lments(h0, m0, q).insert(k, Seq::empty());
  assert(lval(h, m, c) =~= Seq::<V>::empty());
  assert forall|j: K| b.dom().contains(j) implies #[trigger] lments(h, m, r)[j] == b[j] by { assert(lmat(h, m, r, j)); }
  assert(lments(h, m, r) =~= b);
}
pub proof fn llemma_mdrop<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Map<K, int>, k: K)
  requires lmgood(h, m, q)
  ensures lmgood(h, m, q.remove(k)), lments(h, m, q.remove(k)) == lments(h, m, q).remove(k)
{
  let r = q.remove(k);
  assert forall|j: K| #[trigger] lmat(h, m, r, j) by { assert(lmat(h, m, q, j)); }
  assert forall|i: K, j: K| #[trigger] lmpair(h, m, r, i, j) by { assert(lmpair(h, m, q, i, j)); }
  assert(lments(h, m, r) =~= lments(h, m, q).remove(k));
}
pub proof fn llemma_sorted<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, less: spec_fn(K, K) -> bool)
  requires avl::sorted(q, less)
  ensures avl::sorted(lents(h, m, q), less)
{ let e = lents(h, m, q); assert forall|a: int, b: int| 0 <= a < b < e.len() implies less((#[trigger] e[a]).0, (#[trigger] e[b]).0) by { assert(e[a].0 == q[a].0 && e[b].0 == q[b].0); } }
pub proof fn llemma_held<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, less: spec_fn(K, K) -> bool, k: K)
  requires avl::sorted(q, less), strict_weak(less)
  ensures avl::sorted(lents(h, m, q), less), avl::holds_key(lents(h, m, q), less, k) == avl::holds_key(q, less, k),
    forall|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) ==> vals(lents(h, m, q), less, k) == lval(h, m, q[i].1),
    !avl::holds_key(q, less, k) ==> vals(lents(h, m, q), less, k) == Seq::<V>::empty(),
{
  let e = lents(h, m, q); llemma_sorted::<K, V>(h, m, q, less);
  if avl::holds_key(q, less, k) { let i = choose|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k); assert(e[i].0 == q[i].0); }
  if avl::holds_key(e, less, k) { let i = choose|i: int| 0 <= i < e.len() && avl::eqv(less, (#[trigger] e[i]).0, k); assert(e[i].0 == q[i].0); }
  assert forall|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) implies vals(e, less, k) == lval(h, m, q[i].1) by { assert(e[i].0 == q[i].0); lemma_vals(e, less, k, i); }
}
// the values under k changed
pub proof fn llemma_putf<K, V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, less: spec_fn(K, K) -> bool, k: K, i: int)
  requires avl::sorted(q, less), strict_weak(less), lgood(h0, m0, q), 0 <= i < q.len(), avl::eqv(less, q[i].0, k), lok(h, m, q[i].1), lkept(h0, m0, h, m, q[i].1)
  ensures lgood(h, m, q), ({ let e = lents(h0, m0, q); let f = lents(h, m, q); let y = lval(h, m, q[i].1);
    f == e.update(i, (e[i].0, y)) && avl::put(e, f, less, k, y) && vals(e, less, k) == lval(h0, m0, q[i].1) && vals(f, less, k) == y && avl::sorted(f, less) && total(f) == total(e) - lval(h0, m0, q[i].1).len() + y.len() && (full(e) && y.len() > 0 ==> full(f)) && (y == lval(h0, m0, q[i].1) ==> f == e) })
{
  llemma_change::<K, V>(h0, m0, h, m, q, i); llemma_sorted::<K, V>(h0, m0, q, less);
  let e = lents(h0, m0, q); assert(e[i] == (q[i].0, lval(h0, m0, q[i].1)));
  lemma_put_found(e, less, k, i, lval(h, m, q[i].1));
}
// a new key
pub proof fn llemma_putn<K, V>(h0: Map<int, Slice>, m0: Map<int, Seq<V>>, h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, q2: Seq<(K, int)>, less: spec_fn(K, K) -> bool, k: K, c: int)
  requires avl::sorted(q, less), strict_weak(less), lgood(h0, m0, q), lnew(h0, m0, h, m, c), avl::put(q, q2, less, k, c), !avl::holds_key(q, less, k)
  ensures lgood(h, m, q2), exists|i: int| 0 <= i < q2.len() && avl::eqv(less, (#[trigger] q2[i]).0, k) && q2[i] == (k, c) && lnewkey(lents(h0, m0, q), lents(h, m, q2), less, k, i)
{
  let i = choose|i: int| #[trigger] avl::put_at(q, q2, less, k, c, i);
  assert(!(i < q.len() && avl::eqv(less, q[i].0, k)));
  llemma_add::<K, V>(h0, m0, h, m, q, i, k, c); llemma_sorted::<K, V>(h0, m0, q, less);
  let e = lents(h0, m0, q);
  assert forall|j: int| 0 <= j < i implies less((#[trigger] e[j]).0, k) by { assert(e[j].0 == q[j].0); }
  assert forall|j: int| i <= j < e.len() implies less(k, (#[trigger] e[j]).0) by { assert(e[j].0 == q[j].0); }
  lemma_put_new(e, less, k, i, Seq::<V>::empty());
  assert(q2[i] == (k, c) && avl::eqv(less, q2[i].0, k));
}
pub open spec fn lnewkey<K, V>(e: Seq<(K, Seq<V>)>, f: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K, i: int) -> bool {
  0 <= i <= e.len() && f == e.insert(i, (k, Seq::empty())) && avl::cut(e, less, k, i) && (forall|j: int| i <= j < e.len() ==> less(k, (#[trigger] e[j]).0)) && avl::sorted(e, less) && avl::sorted(f, less) && vals(e, less, k) == Seq::<V>::empty()
}
// the key goes
pub proof fn llemma_delk<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, q2: Seq<(K, int)>, less: spec_fn(K, K) -> bool, k: K)
  requires avl::sorted(q, less), strict_weak(less), lgood(h, m, q), avl::del(q, q2, less, k)
  ensures lgood(h, m, q2), ({ let e = lents(h, m, q); let f = lents(h, m, q2); avl::del(e, f, less, k) && vals(f, less, k) == Seq::<V>::empty() && total(f) == total(e) - vals(e, less, k).len() && avl::sorted(f, less) && (full(e) ==> full(f)) }),
    avl::holds_key(q, less, k) ==> exists|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) && q2 == q.remove(i) && lents(h, m, q2) == lents(h, m, q).remove(i)
{
  llemma_held::<K, V>(h, m, q, less, k);
  if avl::holds_key(q, less, k) {
    let i = choose|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) && q2 == q.remove(i);
    llemma_drop::<K, V>(h, m, q, i);
    let e = lents(h, m, q); assert(e[i].0 == q[i].0);
    lemma_del(e, less, k, i);
  }
}
pub proof fn llemma_one<K, V>(h: Map<int, Slice>, m: Map<int, Seq<V>>, q: Seq<(K, int)>, less: spec_fn(K, K) -> bool, k: K, i: int, j: int)
  requires avl::sorted(q, less), strict_weak(less), 0 <= i < q.len(), 0 <= j < q.len(), avl::eqv(less, q[i].0, k), avl::eqv(less, q[j].0, k)
  ensures i == j
{
  if j < i { assert(less(q[j].0, q[i].0)); assert(less(q[j].0, k) || less(k, q[i].0)); }
  if i < j { assert(less(q[i].0, q[j].0)); assert(less(q[i].0, k) || less(k, q[j].0)); }
}

// the value lists of the containers in a Go map
pub open spec fn tmat<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Map<K, valuesSet>, k: K) -> bool { q.dom().contains(k) ==> tok(a, lt, q[k]) }
pub open spec fn tmpair<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Map<K, valuesSet>, j: K, k: K) -> bool { q.dom().contains(j) && q.dom().contains(k) && j != k ==> tsep(a, lt, q[j], q[k]) }
pub open spec fn tmgood<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Map<K, valuesSet>) -> bool { (forall|k: K| #[trigger] tmat(a, lt, q, k)) && (forall|j: K, k: K| #[trigger] tmpair(a, lt, q, j, k)) }
pub open spec fn tments<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Map<K, valuesSet>) -> Map<K, Seq<V>> { Map::new(q.dom(), |k: K| tval(a, lt, q[k])) }
pub proof fn tlemma_mchange<K, V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Map<K, valuesSet>, k: K)
  requires tmgood(a0, lt, q), q.dom().contains(k), tok(a, lt, q[k]), tkept(a0, a, lt, q[k])
  ensures tmgood(a, lt, q), tments(a, lt, q) == tments(a0, lt, q).insert(k, tval(a, lt, q[k]))
{
  assert forall|j: K| #[trigger] tmat(a, lt, q, j) && (q.dom().contains(j) && j != k ==> tsame(a0, a, lt, q[j]) && tsep(a, lt, q[k], q[j])) by { assert(tmat(a0, lt, q, j)); assert(tmpair(a0, lt, q, k, j)); }
  assert forall|i: K, j: K| #[trigger] tmpair(a, lt, q, i, j) by { assert(tmpair(a0, lt, q, i, j)); assert(tmat(a0, lt, q, i) && tmat(a0, lt, q, j)); assert(tmat(a, lt, q, i) && tmat(a, lt, q, j)); if q.dom().contains(i) && q.dom().contains(j) { tlemma_sym::<V>(a, lt, q[i], q[j]); } }
  let b = tments(a0, lt, q).insert(k, tval(a, lt, q[k]));
  assert forall|j: K| b.dom().contains(j) implies #[trigger] tments(a, lt, q)[j] == b[j] by { assert(tmat(a, lt, q, j)); }
  assert(tments(a, lt, q) =~= b);
}
pub proof fn tlemma_madd<K, V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Map<K, valuesSet>, k: K, c: valuesSet)
  requires tmgood(a0, lt, q), !q.dom().contains(k), tnew(a0, a, lt, c)
  ensures tmgood(a, lt, q.insert(k, c)), tments(a, lt, q.insert(k, c)) == tments(a0, lt, q).insert(k, Seq::empty())
{
  let r = q.insert(k, c);
  assert forall|j: K| #[trigger] tmat(a, lt, r, j) && (q.dom().contains(j) ==> tsame(a0, a, lt, q[j]) && tsep(a, lt, c, q[j])) by { assert(tmat(a0, lt, q, j)); }
  assert forall|i: K, j: K| #[trigger] tmpair(a, lt, r, i, j) by { assert(tmpair(a0, lt, q, i, j)); assert(tmat(a0, lt, q, i) && tmat(a0, lt, q, j)); assert(tmat(a, lt, r, i) && tmat(a, lt, r, j)); if r.dom().contains(i) && r.dom().contains(j) { tlemma_sym::<V>(a, lt, r[i], r[j]); } }
  let b = tments(a0, lt, q).insert(k, Seq::empty());
  assert(tval(a, lt, c) =~= Seq::<V>::empty());
  assert forall|j: K| b.dom().contains(j) implies #[trigger] tments(a, lt, r)[j] == b[j] by { assert(tmat(a, lt, r, j)); }
  assert(tments(a, lt, r) =~= b);
}
pub proof fn tlemma_mdrop<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Map<K, valuesSet>, k: K)
  requires tmgood(a, lt, q)
  ensures tmgood(a, lt, q.remove(k)), tments(a, lt, q.remove(k)) == tments(a, lt, q).remove(k)
{
  let r = q.remove(k);
  assert forall|j: K| #[trigger] tmat(a, lt, r, j) by { assert(tmat(a, lt, q, j)); }
  assert forall|i: K, j: K| #[trigger] tmpair(a, lt, r, i, j) by { assert(tmpair(a, lt, q, i, j)); }
  assert(tments(a, lt, r) =~= tments(a, lt, q).remove(k));
}
pub proof fn tlemma_sorted<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, less: spec_fn(K, K) -> bool)
  requires avl::sorted(q, less)
  ensures avl::sorted(tents(a, lt, q), less)
{ let e = tents(a, lt, q); assert forall|a: int, b: int| 0 <= a < b < e.len() implies less((#[trigger] e[a]).0, (#[trigger] e[b]).0) by { assert(e[a].0 == q[a].0 && e[b].0 == q[b].0); } }
pub proof fn tlemma_held<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, less: spec_fn(K, K) -> bool, k: K)
  requires avl::sorted(q, less), strict_weak(less)
  ensures avl::sorted(tents(a, lt, q), less), avl::holds_key(tents(a, lt, q), less, k) == avl::holds_key(q, less, k),
    forall|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) ==> vals(tents(a, lt, q), less, k) == tval(a, lt, q[i].1),
    !avl::holds_key(q, less, k) ==> vals(tents(a, lt, q), less, k) == Seq::<V>::empty(),
{
  let e = tents(a, lt, q); tlemma_sorted::<K, V>(a, lt, q, less);
  if avl::holds_key(q, less, k) { let i = choose|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k); assert(e[i].0 == q[i].0); }
  if avl::holds_key(e, less, k) { let i = choose|i: int| 0 <= i < e.len() && avl::eqv(less, (#[trigger] e[i]).0, k); assert(e[i].0 == q[i].0); }
  assert forall|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) implies vals(e, less, k) == tval(a, lt, q[i].1) by { assert(e[i].0 == q[i].0); lemma_vals(e, less, k, i); }
}
// the values under k changed
pub proof fn tlemma_putf<K, V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, less: spec_fn(K, K) -> bool, k: K, i: int)
  requires avl::sorted(q, less), strict_weak(less), tgood(a0, lt, q), 0 <= i < q.len(), avl::eqv(less, q[i].0, k), tok(a, lt, q[i].1), tkept(a0, a, lt, q[i].1)
  ensures tgood(a, lt, q), ({ let e = tents(a0, lt, q); let f = tents(a, lt, q); let y = tval(a, lt, q[i].1);
    f == e.update(i, (e[i].0, y)) && avl::put(e, f, less, k, y) && vals(e, less, k) == tval(a0, lt, q[i].1) && vals(f, less, k) == y && avl::sorted(f, less) && total(f) == total(e) - tval(a0, lt, q[i].1).len() + y.len() && (full(e) && y.len() > 0 ==> full(f)) && (y == tval(a0, lt, q[i].1) ==> f == e) })
{
  tlemma_change::<K, V>(a0, a, lt, q, i); tlemma_sorted::<K, V>(a0, lt, q, less);
  let e = tents(a0, lt, q); assert(e[i] == (q[i].0, tval(a0, lt, q[i].1)));
  lemma_put_found(e, less, k, i, tval(a, lt, q[i].1));
}
// a new key
pub proof fn tlemma_putn<K, V>(a0: avl::S<V, ()>, a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, q2: Seq<(K, valuesSet)>, less: spec_fn(K, K) -> bool, k: K, c: valuesSet)
  requires avl::sorted(q, less), strict_weak(less), tgood(a0, lt, q), tnew(a0, a, lt, c), avl::put(q, q2, less, k, c), !avl::holds_key(q, less, k)
  ensures tgood(a, lt, q2), exists|i: int| 0 <= i < q2.len() && avl::eqv(less, (#[trigger] q2[i]).0, k) && q2[i] == (k, c) && tnewkey(tents(a0, lt, q), tents(a, lt, q2), less, k, i)
{
  let i = choose|i: int| #[trigger] avl::put_at(q, q2, less, k, c, i);
  assert(!(i < q.len() && avl::eqv(less, q[i].0, k)));
  tlemma_add::<K, V>(a0, a, lt, q, i, k, c); tlemma_sorted::<K, V>(a0, lt, q, less);
  let e = tents(a0, lt, q);
  assert forall|j: int| 0 <= j < i implies less((#[trigger] e[j]).0, k) by { assert(e[j].0 == q[j].0); }
  assert forall|j: int| i <= j < e.len() implies less(k, (#[trigger] e[j]).0) by { assert(e[j].0 == q[j].0); }
  lemma_put_new(e, less, k, i, Seq::<V>::empty());
  assert(q2[i] == (k, c) && avl::eqv(less, q2[i].0, k));
}
pub open spec fn tnewkey<K, V>(e: Seq<(K, Seq<V>)>, f: Seq<(K, Seq<V>)>, less: spec_fn(K, K) -> bool, k: K, i: int) -> bool {
  0 <= i <= e.len() && f == e.insert(i, (k, Seq::empty())) && avl::cut(e, less, k, i) && (forall|j: int| i <= j < e.len() ==> less(k, (#[trigger] e[j]).0)) && avl::sorted(e, less) && avl::sorted(f, less) && vals(e, less, k) == Seq::<V>::empty()
}
// the key goes
pub proof fn tlemma_delk<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, q2: Seq<(K, valuesSet)>, less: spec_fn(K, K) -> bool, k: K)
  requires avl::sorted(q, less), strict_weak(less), tgood(a, lt, q), avl::del(q, q2, less, k)
  ensures tgood(a, lt, q2), ({ let e = tents(a, lt, q); let f = tents(a, lt, q2); avl::del(e, f, less, k) && vals(f, less, k) == Seq::<V>::empty() && total(f) == total(e) - vals(e, less, k).len() && avl::sorted(f, less) && (full(e) ==> full(f)) }),
    avl::holds_key(q, less, k) ==> exists|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) && q2 == q.remove(i) && tents(a, lt, q2) == tents(a, lt, q).remove(i)
{
  tlemma_held::<K, V>(a, lt, q, less, k);
  if avl::holds_key(q, less, k) {
    let i = choose|i: int| 0 <= i < q.len() && avl::eqv(less, (#[trigger] q[i]).0, k) && q2 == q.remove(i);
    tlemma_drop::<K, V>(a, lt, q, i);
    let e = tents(a, lt, q); assert(e[i].0 == q[i].0);
    lemma_del(e, less, k, i);
  }
}
pub proof fn tlemma_one<K, V>(a: avl::S<V, ()>, lt: spec_fn(V, V) -> bool, q: Seq<(K, valuesSet)>, less: spec_fn(K, K) -> bool, k: K, i: int, j: int)
  requires avl::sorted(q, less), strict_weak(less), 0 <= i < q.len(), 0 <= j < q.len(), avl::eqv(less, q[i].0, k), avl::eqv(less, q[j].0, k)
  ensures i == j
{
  if j < i { assert(less(q[j].0, q[i].0)); assert(less(q[j].0, k) || less(k, q[i].0)); }
  if i < j { assert(less(q[i].0, q[j].0)); assert(less(q[i].0, k) || less(k, q[j].0)); }
}

// ---- multimaps with slice containers
pub open spec fn alpre<K, V>(s: S<K, V>, p: int) -> bool { p != 0 && s.avlMultiMap.dom().contains(p) && s.avlMultiMap[p].makeValues != 0 && s.mkslice.dom().contains(s.avlMultiMap[p].makeValues) && strict_weak(s.avlMultiMap[p].keyLess) }
pub open spec fn alq<K, V>(s: S<K, V>, p: int) -> Seq<(K, int)> { avl::view(s.ak, s.avlMultiMap[p].keys) }
pub open spec fn ale<K, V>(s: S<K, V>, p: int) -> Seq<(K, Seq<V>)> { lents(s.cell_Slice, s.arr_V, alq(s, p)) }
pub open spec fn alwf<K, V>(s: S<K, V>, p: int) -> bool {
  &&& alpre(s, p) && avl::wf(s.ak, s.avlMultiMap[p].keys) && s.ak.Tree[s.avlMultiMap[p].keys].less == s.avlMultiMap[p].keyLess
  &&& lgood(s.cell_Slice, s.arr_V, alq(s, p)) && full(ale(s, p)) && s.avlMultiMap[p].baseMultiMap.size == total(ale(s, p))
}
pub open spec fn mlpre<K, V>(s: S<K, V>, p: int) -> bool { p != 0 && s.mapMultiMap.dom().contains(p) && s.mapMultiMap[p].makeValues != 0 && s.mkslice.dom().contains(s.mapMultiMap[p].makeValues) }
pub open spec fn mlq<K, V>(s: S<K, V>, p: int) -> Map<K, int> { s.map_K_int[s.mapMultiMap[p].keys] }
pub open spec fn mle<K, V>(s: S<K, V>, p: int) -> Map<K, Seq<V>> { lments(s.cell_Slice, s.arr_V, mlq(s, p)) }
pub open spec fn mlwf<K, V>(s: S<K, V>, p: int) -> bool {
  &&& mlpre(s, p) && s.mapMultiMap[p].keys != 0 && s.map_K_int.dom().contains(s.mapMultiMap[p].keys)
  &&& lmgood(s.cell_Slice, s.arr_V, mlq(s, p)) && afull(mle(s, p)) && s.mapMultiMap[p].baseMultiMap.size == mtotal(mle(s, p))
}

// ---- multimaps with set containers
pub open spec fn atpre<K, V>(s: S<K, V>, p: int) -> bool { p != 0 && s.avlMultiMap.dom().contains(p) && s.avlMultiMap[p].makeValues != 0 && s.mkset.dom().contains(s.avlMultiMap[p].makeValues) && strict_weak(s.avlMultiMap[p].keyLess) && strict_weak(s.mkset[s.avlMultiMap[p].makeValues]) }
pub open spec fn atq<K, V>(s: S<K, V>, p: int) -> Seq<(K, valuesSet)> { avl::view(s.as_, s.avlMultiMap[p].keys) }
pub open spec fn ate<K, V>(s: S<K, V>, p: int) -> Seq<(K, Seq<V>)> { tents(s.av, s.mkset[s.avlMultiMap[p].makeValues], atq(s, p)) }
pub open spec fn atwf<K, V>(s: S<K, V>, p: int) -> bool {
  &&& atpre(s, p) && avl::wf(s.as_, s.avlMultiMap[p].keys) && s.as_.Tree[s.avlMultiMap[p].keys].less == s.avlMultiMap[p].keyLess
  &&& tgood(s.av, s.mkset[s.avlMultiMap[p].makeValues], atq(s, p)) && full(ate(s, p)) && s.avlMultiMap[p].baseMultiMap.size == total(ate(s, p))
}
pub open spec fn mtpre<K, V>(s: S<K, V>, p: int) -> bool { p != 0 && s.mapMultiMap.dom().contains(p) && s.mapMultiMap[p].makeValues != 0 && s.mkset.dom().contains(s.mapMultiMap[p].makeValues) && strict_weak(s.mkset[s.mapMultiMap[p].makeValues]) }
pub open spec fn mtq<K, V>(s: S<K, V>, p: int) -> Map<K, valuesSet> { s.map_K_multimap_valuesSet[s.mapMultiMap[p].keys] }
pub open spec fn mte<K, V>(s: S<K, V>, p: int) -> Map<K, Seq<V>> { tments(s.av, s.mkset[s.mapMultiMap[p].makeValues], mtq(s, p)) }
pub open spec fn mtwf<K, V>(s: S<K, V>, p: int) -> bool {
  &&& mtpre(s, p) && s.mapMultiMap[p].keys != 0 && s.map_K_multimap_valuesSet.dom().contains(s.mapMultiMap[p].keys)
  &&& tmgood(s.av, s.mkset[s.mapMultiMap[p].makeValues], mtq(s, p)) && afull(mte(s, p)) && s.mapMultiMap[p].baseMultiMap.size == mtotal(mte(s, p))
}


@iface ctor.slice (f) (r)
@mods cell_Slice arr_V
@flag ctor *valuesSlice
@flag heap mkslice
@flag sig (f: int) -> (int)
@ensures lnew(s0.cell_Slice, s0.arr_V, s.cell_Slice, s.arr_V, r)

@iface ctor.set (f) (r)
@mods av.Tree
@flag ctor valuesSet
@flag heap mkset
@flag sig (f: int) -> (multimap::valuesSet)
@requires strict_weak(s.mkset[f])
@ensures tnew(s0.av, s.av, s0.mkset[f], r)

@func valuesSlice.Empty (p) (r)
@requires lok(s.cell_Slice, s.arr_V, p)
@ensures r == (lval(s.cell_Slice, s.arr_V, p).len() == 0)

@func valuesSlice.Size (p) (n)
@requires lok(s.cell_Slice, s.arr_V, p)
@ensures n == lval(s.cell_Slice, s.arr_V, p).len()

@func valuesSlice.Put (p, value) (n)
@requires lok(s.cell_Slice, s.arr_V, p)
@ensures lok(s.cell_Slice, s.arr_V, p) && lput(lval(s0.cell_Slice, s0.arr_V, p), lval(s.cell_Slice, s.arr_V, p), value)
@ensures n == lval(s.cell_Slice, s.arr_V, p).len() - lval(s0.cell_Slice, s0.arr_V, p).len()
@ensures lkept(s0.cell_Slice, s0.arr_V, s.cell_Slice, s.arr_V, p)
@exit lemma_lput(lval(s0.cell_Slice, s0.arr_V, p), value);

@func valuesSlice.Remove (p, value) (n)
@requires lok(s.cell_Slice, s.arr_V, p)
@ensures lok(s.cell_Slice, s.arr_V, p) && ldel(lval(s0.cell_Slice, s0.arr_V, p), lval(s.cell_Slice, s.arr_V, p), value)
@ensures n == lval(s0.cell_Slice, s0.arr_V, p).len() - lval(s.cell_Slice, s.arr_V, p).len()
@ensures lkept(s0.cell_Slice, s0.arr_V, s.cell_Slice, s.arr_V, p)
@exit if lval(s0.cell_Slice, s0.arr_V, p).contains(value) { lemma_ldel(lval(s0.cell_Slice, s0.arr_V, p), lval(s.cell_Slice, s.arr_V, p), value, first(lval(s0.cell_Slice, s0.arr_V, p), value)); }

@func valuesSlice.List (p) (r)
@requires lok(s.cell_Slice, s.arr_V, p)
@ensures slwf(s.arr_V, r) && sv(s.arr_V, r) == lval(s.cell_Slice, s.arr_V, p)

@func valuesSlice.Each (p, fn)
@requires lok(s.cell_Slice, s.arr_V, p)
@ensures tr == tr0 + lval(s.cell_Slice, s.arr_V, p)
@loop 1
@invariant tr =~= tr0 + lval(s.cell_Slice, s.arr_V, p).take(it1)

@func valuesSet.Empty (p) (r)
@requires avl::wf(s.av, p.t) && avl::balanced(s.av, p.t)
@ensures r == (avl::view(s.av, p.t).len() == 0)
@entry lemma_nolevels(avl::tr_of(s.av, p.t));

@func valuesSet.Size (p) (n)
@requires avl::wf(s.av, p.t)
@ensures n == avl::view(s.av, p.t).len()

@func valuesSet.Put (p, value) (n)
@requires tok(s.av, s.av.Tree[p.t].less, p)
@ensures tok(s.av, s0.av.Tree[p.t].less, p) && tput(tval(s0.av, s0.av.Tree[p.t].less, p), tval(s.av, s0.av.Tree[p.t].less, p), value, s0.av.Tree[p.t].less)
@ensures n == avl::view(s.av, p.t).len() - avl::view(s0.av, p.t).len()
@ensures tkept(s0.av, s.av, s0.av.Tree[p.t].less, p)
@exit lemma_tput(avl::view(s0.av, p.t), avl::view(s.av, p.t), value, s0.av.Tree[p.t].less);

@func valuesSet.Remove (p, value) (n)
@requires tok(s.av, s.av.Tree[p.t].less, p)
@ensures tok(s.av, s0.av.Tree[p.t].less, p) && tdel(tval(s0.av, s0.av.Tree[p.t].less, p), tval(s.av, s0.av.Tree[p.t].less, p), value, s0.av.Tree[p.t].less)
@ensures n == avl::view(s0.av, p.t).len() - avl::view(s.av, p.t).len()
@ensures tkept(s0.av, s.av, s0.av.Tree[p.t].less, p)
@exit lemma_tdel(avl::view(s0.av, p.t), avl::view(s.av, p.t), value, s0.av.Tree[p.t].less);

@func valuesSet.List (p) (r)
@requires avl::wf(s.av, p.t)
@ensures slwf(s.arr_V, r) && sv(s.arr_V, r) == keys_of(avl::view(s.av, p.t))
@ensures kept_arr(s0.arr_V, s.arr_V)
@loop 1
@invariant slwf(s.arr_V, v_values) && sv(s.arr_V, v_values) =~= keys_of(avl::view(s.av, p.t)).take(it1)
@invariant v_values.cap == 0 || !s0.arr_V.dom().contains(v_values.arr)
@invariant kept_arr(s0.arr_V, s.arr_V)

@func valuesSet.Each (p, fn)
@requires avl::wf(s.av, p.t)
@ensures tr == tr0 + keys_of(avl::view(s.av, p.t))
@loop 1
@invariant tr =~= tr0 + keys_of(avl::view(s.av, p.t)).take(it1)


@func avlMultiMap.Dimension#slice (p) (n)
@requires alwf(s, p)
@ensures n == ale(s, p).len()

@func avlMultiMap.Count#slice (p, key) (n)
@requires alwf(s, p)
@ensures n == vals(ale(s, p), s0.avlMultiMap[p].keyLess, key).len()
@entry llemma_held::<K, V>(s.cell_Slice, s.arr_V, alq(s, p), s0.avlMultiMap[p].keyLess, key); let iq = alq(s, p); assert forall|i: int| 0 <= i < iq.len() implies lok(s.cell_Slice, s.arr_V, (#[trigger] iq[i]).1) by { assert(lat(s.cell_Slice, s.arr_V, iq, i)); }

@func avlMultiMap.Has#slice (p, key) (b)
@requires alwf(s, p)
@ensures b == avl::holds_key(ale(s, p), s0.avlMultiMap[p].keyLess, key) && b == (vals(ale(s, p), s0.avlMultiMap[p].keyLess, key).len() > 0)
@entry llemma_held::<K, V>(s.cell_Slice, s.arr_V, alq(s, p), s0.avlMultiMap[p].keyLess, key);

@func avlMultiMap.Get#slice (p, key) (r)
@requires alwf(s, p)
@ensures slwf(s.arr_V, r) && sv(s.arr_V, r) == vals(ale(s, p), s0.avlMultiMap[p].keyLess, key)
@ensures alwf(s, p) && ale(s, p) == ale(s0, p) && kept_arr(s0.arr_V, s.arr_V)
@entry llemma_held::<K, V>(s.cell_Slice, s.arr_V, alq(s, p), s0.avlMultiMap[p].keyLess, key); let iq = alq(s, p); assert forall|i: int| 0 <= i < iq.len() implies lok(s.cell_Slice, s.arr_V, (#[trigger] iq[i]).1) by { assert(lat(s.cell_Slice, s.arr_V, iq, i)); }
@exit assert(r == nil_slice() ==> sv(s.arr_V, r) =~= Seq::<V>::empty());

@func avlMultiMap.Put#slice (p, key, value)
@requires alwf(s, p)
@ensures alwf(s, p) && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess 
@ensures ({ let e = ale(s0, p); let f = ale(s, p); let y = vals(f, s0.avlMultiMap[p].keyLess, key); lput(vals(e, s0.avlMultiMap[p].keyLess, key), y, value ) && avl::put(e, f, s0.avlMultiMap[p].keyLess, key, y) && (y == vals(e, s0.avlMultiMap[p].keyLess, key) ==> f == e) })
@entry let mut sb = s; let mut ix = 0int; let q0 = alq(s, p); llemma_held::<K, V>(s.cell_Slice, s.arr_V, q0, s0.avlMultiMap[p].keyLess, key); assert forall|i: int| 0 <= i < q0.len() implies lok(s.cell_Slice, s.arr_V, (#[trigger] q0[i]).1) by { assert(lat(s.cell_Slice, s.arr_V, q0, i)); }
@before valuesSlice.Put#1 sb = s; let q = alq(s, p); if avl::holds_key(q0, s0.avlMultiMap[p].keyLess, key) { ix = choose|i: int| 0 <= i < q0.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q0[i]).0, key) && $1 == q0[i].1; } else { llemma_putn::<K, V>(s0.cell_Slice, s0.arr_V, s.cell_Slice, s.arr_V, q0, q, s0.avlMultiMap[p].keyLess, key, $1); ix = choose|i: int| 0 <= i < q.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q[i]).0, key) && q[i] == (key, $1) && lnewkey(ale(s0, p), ale(s, p), s0.avlMultiMap[p].keyLess, key, i); } assert(lat(s.cell_Slice, s.arr_V, q, ix)); assert(q[ix].1 == $1);
@after valuesSlice.Put#1 llemma_putf::<K, V>(sb.cell_Slice, sb.arr_V, s.cell_Slice, s.arr_V, alq(sb, p), s0.avlMultiMap[p].keyLess, key, ix); let y = lval(s.cell_Slice, s.arr_V, alq(sb, p)[ix].1); if !avl::holds_key(q0, s0.avlMultiMap[p].keyLess, key) { let e = ale(s0, p); lemma_put_new(e, s0.avlMultiMap[p].keyLess, key, ix, y); lemma_put_new(e, s0.avlMultiMap[p].keyLess, key, ix, Seq::<V>::empty()); assert(lents(s.cell_Slice, s.arr_V, alq(sb, p)) =~= e.insert(ix, (key, y))); }

@func avlMultiMap.Remove#slice (p, key, value)
@requires alwf(s, p)
@ensures alwf(s, p) && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess 
@ensures ({ let e = ale(s0, p); let f = ale(s, p); let x = vals(e, s0.avlMultiMap[p].keyLess, key); let y = vals(f, s0.avlMultiMap[p].keyLess, key); ldel(x, y, value ) && (y == x ==> f == e) && if y.len() == 0 { avl::del(e, f, s0.avlMultiMap[p].keyLess, key) } else { avl::put(e, f, s0.avlMultiMap[p].keyLess, key, y) } })
@entry let mut sb = s; let mut ix = 0int; let q0 = alq(s, p); llemma_held::<K, V>(s.cell_Slice, s.arr_V, q0, s0.avlMultiMap[p].keyLess, key); assert forall|i: int| 0 <= i < q0.len() implies lok(s.cell_Slice, s.arr_V, (#[trigger] q0[i]).1) by { assert(lat(s.cell_Slice, s.arr_V, q0, i)); }
@before valuesSlice.Remove#1 ix = choose|i: int| 0 <= i < q0.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q0[i]).0, key) && $1 == q0[i].1;
@after valuesSlice.Remove#1 sb = s; llemma_putf::<K, V>(s0.cell_Slice, s0.arr_V, s.cell_Slice, s.arr_V, q0, s0.avlMultiMap[p].keyLess, key, ix);
@before Tree.Remove#1 sb = s;
@after Tree.Remove#1 let q = alq(sb, p); let q2 = avl::view(s.ak, s.avlMultiMap[p].keys); let e0 = ale(s0, p); let e1 = ale(sb, p); assert(avl::sorted(q, s0.avlMultiMap[p].keyLess)); llemma_delk::<K, V>(s.cell_Slice, s.arr_V, q, q2, s0.avlMultiMap[p].keyLess, key); let j = choose|i: int| 0 <= i < q.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q[i]).0, key) && q2 == q.remove(i) && lents(s.cell_Slice, s.arr_V, q2) == lents(s.cell_Slice, s.arr_V, q).remove(i); llemma_one::<K, V>(s.cell_Slice, s.arr_V, q, s0.avlMultiMap[p].keyLess, key, ix, j); assert(e0[ix].0 == q[ix].0); lemma_del(e0, s0.avlMultiMap[p].keyLess, key, ix); assert(e1.remove(ix) =~= e0.remove(ix));
@exit let x = vals(ale(s0, p), s0.avlMultiMap[p].keyLess, key); let y = vals(ale(s, p), s0.avlMultiMap[p].keyLess, key); if avl::holds_key(q0, s0.avlMultiMap[p].keyLess, key) { let e0 = ale(s0, p); assert(e0[ix].1.len() > 0); assert(x == e0[ix].1); assert(y =~= lval(sb.cell_Slice, sb.arr_V, q0[ix].1)); }

@func avlMultiMap.RemoveAll#slice (p, key)
@requires alwf(s, p)
@ensures alwf(s, p) && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess 
@ensures avl::del(ale(s0, p), ale(s, p), s0.avlMultiMap[p].keyLess, key) && vals(ale(s, p), s0.avlMultiMap[p].keyLess, key).len() == 0
@entry let q0 = alq(s, p); llemma_held::<K, V>(s.cell_Slice, s.arr_V, q0, s0.avlMultiMap[p].keyLess, key); assert forall|i: int| 0 <= i < q0.len() implies lok(s.cell_Slice, s.arr_V, (#[trigger] q0[i]).1) by { assert(lat(s.cell_Slice, s.arr_V, q0, i)); }
@after Tree.Remove#1 llemma_delk::<K, V>(s.cell_Slice, s.arr_V, q0, avl::view(s.ak, s.avlMultiMap[p].keys), s0.avlMultiMap[p].keyLess, key);

@func avlMultiMap.Clear#slice (p)
@requires alpre(s, p)
@ensures alwf(s, p) && ale(s, p).len() == 0 && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess && s.avlMultiMap[p].makeValues == s0.avlMultiMap[p].makeValues && s.avlMultiMap.dom() == s0.avlMultiMap.dom() 

@func avlMultiMap.Each#slice (p, fn)
@requires alwf(s, p)
@ensures tr == tr0 + flat(ale(s, p)) && avl::sorted(ale(s, p), s0.avlMultiMap[p].keyLess)
@entry llemma_sorted::<K, V>(s.cell_Slice, s.arr_V, alq(s, p), s0.avlMultiMap[p].keyLess); let e = ale(s, p); let q0 = alq(s, p); assert forall|i: int| 0 <= i < q0.len() implies lok(s.cell_Slice, s.arr_V, (#[trigger] q0[i]).1) by { assert(lat(s.cell_Slice, s.arr_V, q0, i)); }
@loop 1
@invariant tr =~= tr0 + flat(e.take(it1))
@loopbody lemma_flat_step(e, it1); assert(e[it1] == (q0[it1].0, lval(s.cell_Slice, s.arr_V, q0[it1].1)));
@loopexit assert(e.take(it1) =~= e);
@loop 2
@invariant tr =~= tr0 + flat(e.take(it1)) + pairup(e[it1].0, e[it1].1.take(it2))
@loopexit assert(e[it1].1.take(it2) =~= e[it1].1);

@func avlMultiMap.EachAssociation#slice (p, fn)
@requires alwf(s, p)
@ensures tr.len() >= tr0.len() && tr.take(tr0.len() as int) == tr0 && handed(s.arr_V, tr.skip(tr0.len() as int), ale(s, p)) && avl::sorted(ale(s, p), s0.avlMultiMap[p].keyLess)
@ensures alwf(s, p) && ale(s, p) == ale(s0, p)
@entry llemma_sorted::<K, V>(s.cell_Slice, s.arr_V, alq(s, p), s0.avlMultiMap[p].keyLess); let e = ale(s, p); let q0 = alq(s, p); let n0 = tr0.len() as int; assert forall|i: int| 0 <= i < q0.len() implies lok(s.cell_Slice, s.arr_V, (#[trigger] q0[i]).1) by { assert(lat(s.cell_Slice, s.arr_V, q0, i)); }
@loop 1
@loopbefore let mut sb = s; let mut tb = tr;
@invariant tr.len() == n0 + it1 && tr.take(n0) =~= tr0 && handed(s.arr_V, tr.skip(n0), e.take(it1)) && kept_arr(s0.arr_V, s.arr_V)
@loopentry sb = s; tb = tr; assert(e[it1] == (q0[it1].0, lval(s.cell_Slice, s.arr_V, q0[it1].1)));
@loopend lemma_hand(sb.arr_V, s.arr_V, tb.skip(n0), e, it1 - 1, tr.last()); assert(tr.skip(n0) =~= tb.skip(n0).push(tr.last()));
@loopexit assert(e.take(it1) =~= e);


@func avlMultiMap.Dimension#set (p) (n)
@requires atwf(s, p)
@ensures n == ate(s, p).len()

@func avlMultiMap.Count#set (p, key) (n)
@requires atwf(s, p)
@ensures n == vals(ate(s, p), s0.avlMultiMap[p].keyLess, key).len()
@entry tlemma_held::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(s, p), s0.avlMultiMap[p].keyLess, key); let iq = atq(s, p); assert forall|i: int| 0 <= i < iq.len() implies tok(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], (#[trigger] iq[i]).1) by { assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], iq, i)); }

@func avlMultiMap.Has#set (p, key) (b)
@requires atwf(s, p)
@ensures b == avl::holds_key(ate(s, p), s0.avlMultiMap[p].keyLess, key) && b == (vals(ate(s, p), s0.avlMultiMap[p].keyLess, key).len() > 0)
@entry tlemma_held::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(s, p), s0.avlMultiMap[p].keyLess, key);

@func avlMultiMap.Get#set (p, key) (r)
@requires atwf(s, p)
@ensures slwf(s.arr_V, r) && sv(s.arr_V, r) == vals(ate(s, p), s0.avlMultiMap[p].keyLess, key)
@ensures atwf(s, p) && ate(s, p) == ate(s0, p) && kept_arr(s0.arr_V, s.arr_V)
@entry tlemma_held::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(s, p), s0.avlMultiMap[p].keyLess, key); let iq = atq(s, p); assert forall|i: int| 0 <= i < iq.len() implies tok(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], (#[trigger] iq[i]).1) by { assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], iq, i)); }
@exit assert(r == nil_slice() ==> sv(s.arr_V, r) =~= Seq::<V>::empty());

@func avlMultiMap.Put#set (p, key, value)
@requires atwf(s, p)
@ensures atwf(s, p) && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess  && s.mkset == s0.mkset
@ensures ({ let e = ate(s0, p); let f = ate(s, p); let y = vals(f, s0.avlMultiMap[p].keyLess, key); tput(vals(e, s0.avlMultiMap[p].keyLess, key), y, value , s0.mkset[s0.avlMultiMap[p].makeValues]) && avl::put(e, f, s0.avlMultiMap[p].keyLess, key, y) && (y == vals(e, s0.avlMultiMap[p].keyLess, key) ==> f == e) })
@entry let mut sb = s; let mut ix = 0int; let q0 = atq(s, p); tlemma_held::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, s0.avlMultiMap[p].keyLess, key); assert forall|i: int| 0 <= i < q0.len() implies tok(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], (#[trigger] q0[i]).1) by { assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, i)); }
@before valuesSet.Put#1 sb = s; let q = atq(s, p); if avl::holds_key(q0, s0.avlMultiMap[p].keyLess, key) { ix = choose|i: int| 0 <= i < q0.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q0[i]).0, key) && $1 == q0[i].1; } else { tlemma_putn::<K, V>(s0.av, s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, q, s0.avlMultiMap[p].keyLess, key, $1); ix = choose|i: int| 0 <= i < q.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q[i]).0, key) && q[i] == (key, $1) && tnewkey(ate(s0, p), ate(s, p), s0.avlMultiMap[p].keyLess, key, i); } assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q, ix)); assert(q[ix].1 == $1);
@after valuesSet.Put#1 tlemma_putf::<K, V>(sb.av, s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(sb, p), s0.avlMultiMap[p].keyLess, key, ix); let y = tval(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(sb, p)[ix].1); if !avl::holds_key(q0, s0.avlMultiMap[p].keyLess, key) { let e = ate(s0, p); lemma_put_new(e, s0.avlMultiMap[p].keyLess, key, ix, y); lemma_put_new(e, s0.avlMultiMap[p].keyLess, key, ix, Seq::<V>::empty()); assert(tents(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(sb, p)) =~= e.insert(ix, (key, y))); }

@func avlMultiMap.Remove#set (p, key, value)
@requires atwf(s, p)
@ensures atwf(s, p) && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess  && s.mkset == s0.mkset
@ensures ({ let e = ate(s0, p); let f = ate(s, p); let x = vals(e, s0.avlMultiMap[p].keyLess, key); let y = vals(f, s0.avlMultiMap[p].keyLess, key); tdel(x, y, value , s0.mkset[s0.avlMultiMap[p].makeValues]) && (y == x ==> f == e) && if y.len() == 0 { avl::del(e, f, s0.avlMultiMap[p].keyLess, key) } else { avl::put(e, f, s0.avlMultiMap[p].keyLess, key, y) } })
@entry let mut sb = s; let mut ix = 0int; let q0 = atq(s, p); tlemma_held::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, s0.avlMultiMap[p].keyLess, key); assert forall|i: int| 0 <= i < q0.len() implies tok(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], (#[trigger] q0[i]).1) by { assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, i)); }
@before valuesSet.Remove#1 ix = choose|i: int| 0 <= i < q0.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q0[i]).0, key) && $1 == q0[i].1;
@after valuesSet.Remove#1 sb = s; tlemma_putf::<K, V>(s0.av, s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, s0.avlMultiMap[p].keyLess, key, ix);
@before Tree.Remove#1 sb = s;
@after Tree.Remove#1 let q = atq(sb, p); let q2 = avl::view(s.as_, s.avlMultiMap[p].keys); let e0 = ate(s0, p); let e1 = ate(sb, p); assert(avl::sorted(q, s0.avlMultiMap[p].keyLess)); tlemma_delk::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q, q2, s0.avlMultiMap[p].keyLess, key); let j = choose|i: int| 0 <= i < q.len() && avl::eqv(s0.avlMultiMap[p].keyLess, (#[trigger] q[i]).0, key) && q2 == q.remove(i) && tents(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q2) == tents(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q).remove(i); tlemma_one::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q, s0.avlMultiMap[p].keyLess, key, ix, j); assert(e0[ix].0 == q[ix].0); lemma_del(e0, s0.avlMultiMap[p].keyLess, key, ix); assert(e1.remove(ix) =~= e0.remove(ix));
@exit let x = vals(ate(s0, p), s0.avlMultiMap[p].keyLess, key); let y = vals(ate(s, p), s0.avlMultiMap[p].keyLess, key); if avl::holds_key(q0, s0.avlMultiMap[p].keyLess, key) { let e0 = ate(s0, p); assert(e0[ix].1.len() > 0); assert(x == e0[ix].1); assert(y =~= tval(sb.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0[ix].1)); }

@func avlMultiMap.RemoveAll#set (p, key)
@requires atwf(s, p)
@ensures atwf(s, p) && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess  && s.mkset == s0.mkset
@ensures avl::del(ate(s0, p), ate(s, p), s0.avlMultiMap[p].keyLess, key) && vals(ate(s, p), s0.avlMultiMap[p].keyLess, key).len() == 0
@entry let q0 = atq(s, p); tlemma_held::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, s0.avlMultiMap[p].keyLess, key); assert forall|i: int| 0 <= i < q0.len() implies tok(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], (#[trigger] q0[i]).1) by { assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, i)); }
@after Tree.Remove#1 tlemma_delk::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, avl::view(s.as_, s.avlMultiMap[p].keys), s0.avlMultiMap[p].keyLess, key);

@func avlMultiMap.Clear#set (p)
@requires atpre(s, p)
@ensures atwf(s, p) && ate(s, p).len() == 0 && s.avlMultiMap[p].keyLess == s0.avlMultiMap[p].keyLess && s.avlMultiMap[p].makeValues == s0.avlMultiMap[p].makeValues && s.avlMultiMap.dom() == s0.avlMultiMap.dom()  && s.mkset == s0.mkset

@func avlMultiMap.Each#set (p, fn)
@requires atwf(s, p)
@ensures tr == tr0 + flat(ate(s, p)) && avl::sorted(ate(s, p), s0.avlMultiMap[p].keyLess)
@entry tlemma_sorted::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(s, p), s0.avlMultiMap[p].keyLess); let e = ate(s, p); let q0 = atq(s, p); assert forall|i: int| 0 <= i < q0.len() implies tok(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], (#[trigger] q0[i]).1) by { assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, i)); }
@loop 1
@invariant tr =~= tr0 + flat(e.take(it1))
@loopbody lemma_flat_step(e, it1); assert(e[it1] == (q0[it1].0, tval(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0[it1].1)));
@loopexit assert(e.take(it1) =~= e);
@loop 2
@invariant tr =~= tr0 + flat(e.take(it1)) + pairup(e[it1].0, e[it1].1.take(it2))
@loopexit assert(e[it1].1.take(it2) =~= e[it1].1);

@func avlMultiMap.EachAssociation#set (p, fn)
@requires atwf(s, p)
@ensures tr.len() >= tr0.len() && tr.take(tr0.len() as int) == tr0 && handed(s.arr_V, tr.skip(tr0.len() as int), ate(s, p)) && avl::sorted(ate(s, p), s0.avlMultiMap[p].keyLess)
@ensures atwf(s, p) && ate(s, p) == ate(s0, p)
@entry tlemma_sorted::<K, V>(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], atq(s, p), s0.avlMultiMap[p].keyLess); let e = ate(s, p); let q0 = atq(s, p); let n0 = tr0.len() as int; assert forall|i: int| 0 <= i < q0.len() implies tok(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], (#[trigger] q0[i]).1) by { assert(tat(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0, i)); }
@loop 1
@loopbefore let mut sb = s; let mut tb = tr;
@invariant tr.len() == n0 + it1 && tr.take(n0) =~= tr0 && handed(s.arr_V, tr.skip(n0), e.take(it1)) && kept_arr(s0.arr_V, s.arr_V)
@loopentry sb = s; tb = tr; assert(e[it1] == (q0[it1].0, tval(s.av, s0.mkset[s0.avlMultiMap[p].makeValues], q0[it1].1)));
@loopend lemma_hand(sb.arr_V, s.arr_V, tb.skip(n0), e, it1 - 1, tr.last()); assert(tr.skip(n0) =~= tb.skip(n0).push(tr.last()));
@loopexit assert(e.take(it1) =~= e);


@func mapMultiMap.Dimension#slice (p) (n)
@requires mlwf(s, p)
@ensures n == mle(s, p).dom().len()
@entry assert(mle(s, p).dom() =~= mlq(s, p).dom());

@func mapMultiMap.Count#slice (p, key) (n)
@requires mlwf(s, p)
@ensures n == mvals(mle(s, p), key).len()
@entry assert(lmat(s.cell_Slice, s.arr_V, mlq(s, p), key));

@func mapMultiMap.Has#slice (p, key) (b)
@requires mlwf(s, p)
@ensures b == mle(s, p).dom().contains(key) && b == (mvals(mle(s, p), key).len() > 0)

@func mapMultiMap.Get#slice (p, key) (r)
@requires mlwf(s, p)
@ensures slwf(s.arr_V, r) && sv(s.arr_V, r) == mvals(mle(s, p), key)
@ensures mlwf(s, p) && mle(s, p) == mle(s0, p) && kept_arr(s0.arr_V, s.arr_V)
@entry assert(lmat(s.cell_Slice, s.arr_V, mlq(s, p), key));
@exit assert(r == nil_slice() ==> sv(s.arr_V, r) =~= Seq::<V>::empty());

@func mapMultiMap.Put#slice (p, key, value)
@requires mlwf(s, p)
@ensures mlwf(s, p) 
@ensures ({ let e = mle(s0, p); let f = mle(s, p); let y = mvals(f, key); lput(mvals(e, key), y, value ) && f == e.insert(key, y) })
@entry let mut sb = s; let q0 = mlq(s, p); assert(lmat(s.cell_Slice, s.arr_V, q0, key));
@before valuesSlice.Put#1 sb = s; let q = mlq(s, p); if !q0.dom().contains(key) { llemma_madd::<K, V>(s0.cell_Slice, s0.arr_V, s.cell_Slice, s.arr_V, q0, key, $1); } assert(lmat(s.cell_Slice, s.arr_V, q, key)); assert(q[key] == $1);
@after valuesSlice.Put#1 let q = mlq(sb, p); llemma_mchange::<K, V>(sb.cell_Slice, sb.arr_V, s.cell_Slice, s.arr_V, q, key); let y = lval(s.cell_Slice, s.arr_V, q[key]); let e = mle(s0, p); lemma_minsert(e, key, y); assert(lments(s.cell_Slice, s.arr_V, q) =~= e.insert(key, y)); assert(mvals(e, key) =~= lval(sb.cell_Slice, sb.arr_V, q[key]));

@func mapMultiMap.Remove#slice (p, key, value)
@requires mlwf(s, p)
@ensures mlwf(s, p) 
@ensures ({ let e = mle(s0, p); let f = mle(s, p); let x = mvals(e, key); let y = mvals(f, key); ldel(x, y, value ) && f == (if y.len() == 0 { e.remove(key) } else { e.insert(key, y) }) })
@entry let mut sb = s; let q0 = mlq(s, p); assert(lmat(s.cell_Slice, s.arr_V, q0, key));
@after valuesSlice.Remove#1 sb = s; llemma_mchange::<K, V>(s0.cell_Slice, s0.arr_V, s.cell_Slice, s.arr_V, q0, key); let y = lval(s.cell_Slice, s.arr_V, q0[key]); let e = mle(s0, p); lemma_minsert(e, key, y); llemma_mdrop::<K, V>(s.cell_Slice, s.arr_V, q0, key); lemma_mtotal(e, key); assert(e.insert(key, y).remove(key) =~= e.remove(key));
@exit let e = mle(s0, p); if !e.dom().contains(key) { assert(e.remove(key) =~= e); } else { assert(mvals(mle(s, p), key) =~= lval(s.cell_Slice, s.arr_V, q0[key])); }

@func mapMultiMap.RemoveAll#slice (p, key)
@requires mlwf(s, p)
@ensures mlwf(s, p) 
@ensures mle(s, p) == mle(s0, p).remove(key)
@entry let q0 = mlq(s, p); assert(lmat(s.cell_Slice, s.arr_V, q0, key)); let e = mle(s, p); if q0.dom().contains(key) { llemma_mdrop::<K, V>(s.cell_Slice, s.arr_V, q0, key); lemma_mtotal(e, key); } else { assert(e.remove(key) =~= e); }

@func mapMultiMap.Clear#slice (p)
@requires mlpre(s, p)
@ensures mlwf(s, p) && mle(s, p) == Map::<K, Seq<V>>::empty() && s.mapMultiMap[p].makeValues == s0.mapMultiMap[p].makeValues 
@exit assert(mle(s, p) =~= Map::<K, Seq<V>>::empty());

@func mapMultiMap.Each#slice (p, fn)
@requires mlwf(s, p)
@ensures exists|ks: Seq<K>| orders(ks, mle(s, p).dom()) && tr == tr0 + flat(#[trigger] listed(mle(s, p), ks))
@entry let e = mle(s, p); let q0 = mlq(s, p); assert(e.dom() =~= q0.dom());
@loop 1
@loopentry lemma_keys(ks1, rm1.dom()); lemma_flat_step(listed(e, ks1), it1); assert(lmat(s.cell_Slice, s.arr_V, q0, ks1[it1])); assert(listed(e, ks1)[it1] == (ks1[it1], lval(s.cell_Slice, s.arr_V, q0[ks1[it1]])));
@invariant tr =~= tr0 + flat(listed(e, ks1).take(it1))
@loopexit assert(listed(e, ks1).take(it1) =~= listed(e, ks1)); assert(orders(ks1, e.dom()));
@loop 2
@invariant tr =~= tr0 + flat(listed(e, ks1).take(it1)) + pairup(listed(e, ks1)[it1].0, listed(e, ks1)[it1].1.take(it2))
@loopexit assert(listed(e, ks1)[it1].1.take(it2) =~= listed(e, ks1)[it1].1);

@func mapMultiMap.EachAssociation#slice (p, fn)
@requires mlwf(s, p)
@ensures tr.len() >= tr0.len() && tr.take(tr0.len() as int) == tr0 && handed_some(s.arr_V, tr.skip(tr0.len() as int), mle(s, p))
@ensures mlwf(s, p) && mle(s, p) == mle(s0, p)
@entry let e = mle(s, p); let q0 = mlq(s, p); assert(e.dom() =~= q0.dom()); let n0 = tr0.len() as int;
@loop 1
@loopbefore let mut sb = s; let mut tb = tr;
@invariant tr.len() == n0 + it1 && tr.take(n0) =~= tr0 && handed(s.arr_V, tr.skip(n0), listed(e, ks1).take(it1)) && kept_arr(s0.arr_V, s.arr_V)
@loopentry sb = s; tb = tr; lemma_keys(ks1, rm1.dom()); assert(lmat(s.cell_Slice, s.arr_V, q0, ks1[it1])); assert(listed(e, ks1)[it1] == (ks1[it1], lval(s.cell_Slice, s.arr_V, q0[ks1[it1]])));
@loopend lemma_hand(sb.arr_V, s.arr_V, tb.skip(n0), listed(e, ks1), it1 - 1, tr.last()); assert(tr.skip(n0) =~= tb.skip(n0).push(tr.last()));
@loopexit assert(listed(e, ks1).take(it1) =~= listed(e, ks1)); assert(orders(ks1, e.dom())); assert(mle(s, p) == e); assert(handed(s.arr_V, tr.skip(n0), listed(e, ks1))); assert(handed_some(s.arr_V, tr.skip(n0), e));


@func mapMultiMap.Dimension#set (p) (n)
@requires mtwf(s, p)
@ensures n == mte(s, p).dom().len()
@entry assert(mte(s, p).dom() =~= mtq(s, p).dom());

@func mapMultiMap.Count#set (p, key) (n)
@requires mtwf(s, p)
@ensures n == mvals(mte(s, p), key).len()
@entry assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], mtq(s, p), key));

@func mapMultiMap.Has#set (p, key) (b)
@requires mtwf(s, p)
@ensures b == mte(s, p).dom().contains(key) && b == (mvals(mte(s, p), key).len() > 0)

@func mapMultiMap.Get#set (p, key) (r)
@requires mtwf(s, p)
@ensures slwf(s.arr_V, r) && sv(s.arr_V, r) == mvals(mte(s, p), key)
@ensures mtwf(s, p) && mte(s, p) == mte(s0, p) && kept_arr(s0.arr_V, s.arr_V)
@entry assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], mtq(s, p), key));
@exit assert(r == nil_slice() ==> sv(s.arr_V, r) =~= Seq::<V>::empty());

@func mapMultiMap.Put#set (p, key, value)
@requires mtwf(s, p)
@ensures mtwf(s, p)  && s.mkset == s0.mkset
@ensures ({ let e = mte(s0, p); let f = mte(s, p); let y = mvals(f, key); tput(mvals(e, key), y, value , s0.mkset[s0.mapMultiMap[p].makeValues]) && f == e.insert(key, y) })
@entry let mut sb = s; let q0 = mtq(s, p); assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, key));
@before valuesSet.Put#1 sb = s; let q = mtq(s, p); if !q0.dom().contains(key) { tlemma_madd::<K, V>(s0.av, s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, key, $1); } assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q, key)); assert(q[key] == $1);
@after valuesSet.Put#1 let q = mtq(sb, p); tlemma_mchange::<K, V>(sb.av, s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q, key); let y = tval(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q[key]); let e = mte(s0, p); lemma_minsert(e, key, y); assert(tments(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q) =~= e.insert(key, y)); assert(mvals(e, key) =~= tval(sb.av, s0.mkset[s0.mapMultiMap[p].makeValues], q[key]));

@func mapMultiMap.Remove#set (p, key, value)
@requires mtwf(s, p)
@ensures mtwf(s, p)  && s.mkset == s0.mkset
@ensures ({ let e = mte(s0, p); let f = mte(s, p); let x = mvals(e, key); let y = mvals(f, key); tdel(x, y, value , s0.mkset[s0.mapMultiMap[p].makeValues]) && f == (if y.len() == 0 { e.remove(key) } else { e.insert(key, y) }) })
@entry let mut sb = s; let q0 = mtq(s, p); assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, key));
@after valuesSet.Remove#1 sb = s; tlemma_mchange::<K, V>(s0.av, s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, key); let y = tval(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0[key]); let e = mte(s0, p); lemma_minsert(e, key, y); tlemma_mdrop::<K, V>(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, key); lemma_mtotal(e, key); assert(e.insert(key, y).remove(key) =~= e.remove(key));
@exit let e = mte(s0, p); if !e.dom().contains(key) { assert(e.remove(key) =~= e); } else { assert(mvals(mte(s, p), key) =~= tval(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0[key])); }

@func mapMultiMap.RemoveAll#set (p, key)
@requires mtwf(s, p)
@ensures mtwf(s, p)  && s.mkset == s0.mkset
@ensures mte(s, p) == mte(s0, p).remove(key)
@entry let q0 = mtq(s, p); assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, key)); let e = mte(s, p); if q0.dom().contains(key) { tlemma_mdrop::<K, V>(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, key); lemma_mtotal(e, key); } else { assert(e.remove(key) =~= e); }

@func mapMultiMap.Clear#set (p)
@requires mtpre(s, p)
@ensures mtwf(s, p) && mte(s, p) == Map::<K, Seq<V>>::empty() && s.mapMultiMap[p].makeValues == s0.mapMultiMap[p].makeValues  && s.mkset == s0.mkset
@exit assert(mte(s, p) =~= Map::<K, Seq<V>>::empty());

@func mapMultiMap.Each#set (p, fn)
@requires mtwf(s, p)
@ensures exists|ks: Seq<K>| orders(ks, mte(s, p).dom()) && tr == tr0 + flat(#[trigger] listed(mte(s, p), ks))
@entry let e = mte(s, p); let q0 = mtq(s, p); assert(e.dom() =~= q0.dom());
@loop 1
@loopentry lemma_keys(ks1, rm1.dom()); lemma_flat_step(listed(e, ks1), it1); assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, ks1[it1])); assert(listed(e, ks1)[it1] == (ks1[it1], tval(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0[ks1[it1]])));
@invariant tr =~= tr0 + flat(listed(e, ks1).take(it1))
@loopexit assert(listed(e, ks1).take(it1) =~= listed(e, ks1)); assert(orders(ks1, e.dom()));
@loop 2
@invariant tr =~= tr0 + flat(listed(e, ks1).take(it1)) + pairup(listed(e, ks1)[it1].0, listed(e, ks1)[it1].1.take(it2))
@loopexit assert(listed(e, ks1)[it1].1.take(it2) =~= listed(e, ks1)[it1].1);

@func mapMultiMap.EachAssociation#set (p, fn)
@requires mtwf(s, p)
@ensures tr.len() >= tr0.len() && tr.take(tr0.len() as int) == tr0 && handed_some(s.arr_V, tr.skip(tr0.len() as int), mte(s, p))
@ensures mtwf(s, p) && mte(s, p) == mte(s0, p)
@entry let e = mte(s, p); let q0 = mtq(s, p); assert(e.dom() =~= q0.dom()); let n0 = tr0.len() as int;
@loop 1
@loopbefore let mut sb = s; let mut tb = tr;
@invariant tr.len() == n0 + it1 && tr.take(n0) =~= tr0 && handed(s.arr_V, tr.skip(n0), listed(e, ks1).take(it1)) && kept_arr(s0.arr_V, s.arr_V)
@loopentry sb = s; tb = tr; lemma_keys(ks1, rm1.dom()); assert(tmat(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0, ks1[it1])); assert(listed(e, ks1)[it1] == (ks1[it1], tval(s.av, s0.mkset[s0.mapMultiMap[p].makeValues], q0[ks1[it1]])));
@loopend lemma_hand(sb.arr_V, s.arr_V, tb.skip(n0), listed(e, ks1), it1 - 1, tr.last()); assert(tr.skip(n0) =~= tb.skip(n0).push(tr.last()));
@loopexit assert(listed(e, ks1).take(it1) =~= listed(e, ks1)); assert(orders(ks1, e.dom())); assert(mte(s, p) == e); assert(handed(s.arr_V, tr.skip(n0), listed(e, ks1))); assert(handed_some(s.arr_V, tr.skip(n0), e));


@func NewAvlSlice (less) (r)
@requires strict_weak(less)
@ensures alwf(s, r) && ale(s, r).len() == 0 && s.avlMultiMap[r].keyLess == less

@func NewAvlSet (less, vless) (r)
@requires strict_weak(less) && strict_weak(vless)
@ensures atwf(s, r) && ate(s, r).len() == 0 && s.avlMultiMap[r].keyLess == less && s.mkset[s.avlMultiMap[r].makeValues] == vless

@func NewMapSlice () (r)
@ensures mlwf(s, r) && mle(s, r) == Map::<K, Seq<V>>::empty()

@func NewMapSet (vless) (r)
@requires strict_weak(vless)
@ensures mtwf(s, r) && mte(s, r) == Map::<K, Seq<V>>::empty() && s.mkset[s.mapMultiMap[r].makeValues] == vless


@func baseMultiMap.Size (b) (n)
@ensures n == b.size
