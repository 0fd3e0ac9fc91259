@state T
@prelude
pub open spec fn items<T>(s: S<T>, p: int) -> Seq<T> { sv(s.arr_T, s.Heap[p].data) }
// the multiset of items held
pub open spec fn view<T>(s: S<T>, p: int) -> Multiset<T> { items(s, p).to_multiset() }
pub open spec fn arr_only<T>(s0: S<T>, s: S<T>, h: Slice) -> bool {
  s.Heap == s0.Heap && ((h.arr != 0 && s.arr_T =~= s0.arr_T.insert(h.arr, s.arr_T[h.arr])) || s.arr_T == s0.arr_T)
}
pub open spec fn par(k: int) -> int { (k - 1) / 2 }
// every item whose parent is at index lo or later is not below its parent
pub open spec fn ordered_from<T>(q: Seq<T>, lo: int, less: spec_fn(T, T) -> bool) -> bool {
  forall|k: int| 0 < k < q.len() && par(k) >= lo ==> !less(#[trigger] q[k], q[par(k)])
}
pub open spec fn wf<T>(s: S<T>, p: int) -> bool {
  &&& p != 0 && s.Heap.dom().contains(p)
  &&& slwf(s.arr_T, s.Heap[p].data)
  &&& strict_weak(s.Heap[p].less)
  &&& ordered_from(items(s, p), 0, s.Heap[p].less)
}
pub open spec fn separate<T>(s: S<T>, p: int, q: int) -> bool {
  p != q && (s.Heap[p].data.arr != s.Heap[q].data.arr || s.Heap[p].data.arr == 0)
}
pub open spec fn others_kept<T>(s0: S<T>, s: S<T>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q)
}
// no item is below x
pub open spec fn is_min<T>(m: Multiset<T>, x: T, less: spec_fn(T, T) -> bool) -> bool {
  m.count(x) > 0 && forall|y: T| #[trigger] m.count(y) > 0 ==> !less(y, x)
}

pub proof fn lemma_root<T>(q: Seq<T>, less: spec_fn(T, T) -> bool, k: int)
  requires strict_weak(less), ordered_from(q, 0, less), 0 <= k < q.len()
  ensures !less(q[k], q[0])
  decreases k
{
  if k > 0 {
    lemma_root(q, less, par(k));
    assert(!less(q[k], q[par(k)]));
    if less(q[k], q[0]) { assert(less(q[k], q[par(k)]) || less(q[par(k)], q[0])); }
  } else { assert(!less(q[0], q[0])); }
}
pub proof fn lemma_min<T>(q: Seq<T>, less: spec_fn(T, T) -> bool)
  requires strict_weak(less), ordered_from(q, 0, less), q.len() > 0
  ensures is_min(q.to_multiset(), q[0], less)
{
  q.to_multiset_ensures();
  assert(q.contains(q[0]));
  assert forall|y: T| #[trigger] q.to_multiset().count(y) > 0 implies !less(y, q[0]) by {
    assert(q.contains(y)); let k = q.index_of(y); lemma_root(q, less, k);
  }
}
pub proof fn lemma_swap<T>(a: Seq<T>, b: Seq<T>, i: int, j: int)
  requires 0 <= i < a.len(), 0 <= j < a.len(), b == a.update(i, a[j]).update(j, a[i])
  ensures b.to_multiset() == a.to_multiset()
{
  vstd::seq_lib::to_multiset_update(a, i, a[j]);
  vstd::seq_lib::to_multiset_update(a.update(i, a[j]), j, a[i]);
  a.to_multiset_ensures();
  assert(a.contains(a[i]) && a.contains(a[j]));
  if i == j { assert(a =~= b); } else { assert(b.to_multiset() =~= a.to_multiset()); }
}

@func down (h, i, less)
@requires slwf(s.arr_T, h) && strict_weak(less) && 0 <= i <= h.len
@requires ordered_from(sv(s.arr_T, h), i + 1, less)
@ensures arr_only(s0, s, h)
@ensures slwf(s.arr_T, h) && sv(s.arr_T, h).to_multiset() == sv(s0.arr_T, h).to_multiset() && sv(s.arr_T, h).len() == h.len
@ensures ordered_from(sv(s.arr_T, h), i, less)
@ensures sv(s.arr_T, h).take(i) == sv(s0.arr_T, h).take(i) || i > h.len
@entry
let q0 = sv(s0.arr_T, h); let i0 = i; let arrs = s0.arr_T;
@loop 1
@invariant i0 <= v_i <= h.len && slwf(s.arr_T, h) && strict_weak(less)
@invariant arr_only(s0, s, h)
@invariant sv(s.arr_T, h).to_multiset() == q0.to_multiset() && q0 == sv(s0.arr_T, h) && sv(s.arr_T, h).len() == h.len
@invariant forall|k: int| 0 < k < h.len && par(k) >= i0 && par(k) != v_i ==> !less(#[trigger] sv(s.arr_T, h)[k], sv(s.arr_T, h)[par(k)])
@invariant forall|k: int| 0 < k < h.len && par(k) == v_i && v_i > i0 && par(v_i) >= i0 ==> !less(#[trigger] sv(s.arr_T, h)[k], sv(s.arr_T, h)[par(v_i)])
@invariant forall|k: int| 0 <= k < i0 && k < h.len ==> #[trigger] sv(s.arr_T, h)[k] == q0[k]
@decreases h.len - v_i
@loopentry let qb = sv(s.arr_T, h); let ib = v_i; let sb = s;
@loopend
let qa = sv(s.arr_T, h); let j = v_i;
assert(qa =~= qb.update(ib, qb[j]).update(j, qb[ib]));
lemma_swap(qb, qa, ib, j);
assert(par(2 * ib + 1) == ib && par(2 * ib + 2) == ib);
assert forall|k: int| 0 < k < h.len && par(k) >= i0 && par(k) != v_i implies !less(#[trigger] qa[k], qa[par(k)]) by {
  if par(k) == ib {
    assert(k == 2 * ib + 1 || k == 2 * ib + 2);
  } else if k == ib {
    assert(!less(qb[j], qb[par(ib)]));
  } else { assert(!less(qb[k], qb[par(k)])); }
}
assert forall|k: int| 0 < k < h.len && par(k) == v_i && v_i > i0 && par(v_i) >= i0 implies !less(#[trigger] qa[k], qa[par(v_i)]) by {
  assert(!less(qb[k], qb[par(k)]));
}
@loopexit
let qx = sv(s.arr_T, h);
assert forall|k: int| 0 < k < h.len && par(k) == v_i implies !less(#[trigger] qx[k], qx[v_i]) by {
  assert(k == 2 * v_i + 1 || k == 2 * v_i + 2);
}
@exit
assert(sv(s.arr_T, h).take(i) =~= sv(s0.arr_T, h).take(i) || i > h.len);

@func up (h, i, less)
@requires slwf(s.arr_T, h) && strict_weak(less) && i == h.len - 1 && i >= 0
@requires ordered_from(sv(s.arr_T, h).take(i), 0, less)
@ensures arr_only(s0, s, h)
@ensures slwf(s.arr_T, h) && sv(s.arr_T, h).to_multiset() == sv(s0.arr_T, h).to_multiset() && sv(s.arr_T, h).len() == h.len
@ensures ordered_from(sv(s.arr_T, h), 0, less)
@entry
let q0 = sv(s0.arr_T, h);
assert forall|k: int| 0 < k < h.len && k != i implies !less(#[trigger] q0[k], q0[par(k)]) by { assert(q0.take(i)[k] == q0[k]); }
@loop 1
@invariant 0 <= v_i < h.len && slwf(s.arr_T, h) && strict_weak(less)
@invariant arr_only(s0, s, h)
@invariant sv(s.arr_T, h).to_multiset() == q0.to_multiset() && q0 == sv(s0.arr_T, h) && sv(s.arr_T, h).len() == h.len
@invariant forall|k: int| 0 < k < h.len && k != v_i ==> !less(#[trigger] sv(s.arr_T, h)[k], sv(s.arr_T, h)[par(k)])
@invariant forall|k: int| 0 < k < h.len && par(k) == v_i && v_i > 0 ==> !less(#[trigger] sv(s.arr_T, h)[k], sv(s.arr_T, h)[par(v_i)])
@decreases v_i
@loopentry let qb = sv(s.arr_T, h); let ib = v_i; let sb = s;
@loopend
let qa = sv(s.arr_T, h); let j = v_i;
assert(j == par(ib) && j < ib);
assert(qa =~= qb.update(ib, qb[j]).update(j, qb[ib]));
lemma_swap(qb, qa, ib, j);
assert forall|k: int| 0 < k < h.len && k != j implies !less(#[trigger] qa[k], qa[par(k)]) by {
  if k == ib { } else if par(k) == ib { assert(!less(qb[k], qb[par(ib)])); }
  else if par(k) == j { assert(!less(qb[k], qb[par(k)])); if less(qb[k], qb[ib]) { assert(less(qb[ib], qb[j])); } }
  else { assert(!less(qb[k], qb[par(k)])); }
}
assert forall|k: int| 0 < k < h.len && par(k) == j && j > 0 implies !less(#[trigger] qa[k], qa[par(j)]) by {
  assert(!less(qb[j], qb[par(j)]));
  if k != ib { assert(!less(qb[k], qb[par(k)])); if less(qb[k], qb[par(j)]) { assert(less(qb[k], qb[j]) || less(qb[j], qb[par(j)])); } }
}
@loopexit assert(v_i == 0 || par(v_i) == (v_i - 1) / 2);

@func New (less) (r)
@requires strict_weak(less)
@ensures wf(s, r) && view(s, r) == Multiset::<T>::empty()
@ensures !s0.Heap.dom().contains(r) && s.Heap[r].less == less
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && view(s, q) == view(s0, q) && separate(s, r, q)
@exit
assert(items(s, r) =~= Seq::<T>::empty()); items(s, r).to_multiset_ensures();
assert(view(s, r) =~= Multiset::<T>::empty());

@func From (less, t) (r)
@requires strict_weak(less) && slwf(s.arr_T, t)
@ensures wf(s, r) && view(s, r) == sv(s0.arr_T, t).to_multiset()
@ensures !s0.Heap.dom().contains(r) && s.Heap[r].less == less
@ensures forall|q: int| #[trigger] wf(s0, q) && (s0.Heap[q].data.arr != t.arr || t.arr == 0) ==> wf(s, q) && view(s, q) == view(s0, q) && separate(s, r, q)

@func FromSlice (less, data) (r)
@requires strict_weak(less) && slwf(s.arr_T, data)
@ensures wf(s, r) && view(s, r) == sv(s0.arr_T, data).to_multiset()
@ensures !s0.Heap.dom().contains(r) && s.Heap[r].less == less
@ensures forall|q: int| #[trigger] wf(s0, q) && (s0.Heap[q].data.arr != data.arr || data.arr == 0) ==> wf(s, q) && view(s, q) == view(s0, q) && separate(s, r, q)
@loop 1
@invariant -1 <= v_i < data.len && slwf(s.arr_T, data)
@invariant arr_only(s0, s, data)
@invariant sv(s.arr_T, data).to_multiset() == sv(s0.arr_T, data).to_multiset() && sv(s.arr_T, data).len() == data.len
@invariant ordered_from(sv(s.arr_T, data), v_i + 1, less)
@decreases v_i + 1

@func Heap.Push (h, x)
@requires wf(s, h)
@ensures wf(s, h) && view(s, h) == view(s0, h).insert(x)
@ensures others_kept(s0, s, h) && s.Heap[h].less == s0.Heap[h].less
@before up
assert(sv(s.arr_T, s.Heap[h].data).take(items(s0, h).len() as int) =~= items(s0, h));
assert(sv(s.arr_T, s.Heap[h].data) =~= items(s0, h).push(x));
@exit
items(s0, h).to_multiset_ensures();

@func Heap.Pop (h) (x, ok)
@requires wf(s, h)
@ensures wf(s, h) && ok == (view(s0, h).len() > 0) && s.Heap[h].less == s0.Heap[h].less
@ensures !ok ==> view(s, h) == view(s0, h) && x == zero::<T>()
@ensures ok ==> is_min(view(s0, h), x, s.Heap[h].less) && view(s, h) == view(s0, h).remove(x)
@ensures others_kept(s0, s, h)
@entry
let q0 = items(s0, h); q0.to_multiset_ensures();
if q0.len() > 0 { lemma_min(q0, s.Heap[h].less); }
@before down
let q1 = sv(s.arr_T, s.Heap[h].data);
let qm = q0.update(0, q0.last());
vstd::seq_lib::to_multiset_update(q0, 0, q0.last());
assert(qm.to_multiset() == q0.to_multiset().insert(q0.last()).remove(q0[0]));
qm.to_multiset_ensures();
assert(q1 =~= qm.drop_last());
assert(q1 =~= qm.remove(qm.len() - 1));
assert(q1.to_multiset() =~= q0.to_multiset().remove(q0[0]));
assert forall|k: int| 0 < k < q1.len() && par(k) >= 1 implies !(s.Heap[h].less)(#[trigger] q1[k], q1[par(k)]) by { assert(q0[k] == q1[k] && q0[par(k)] == q1[par(k)]); }

@func Heap.Peek (h) (x, ok)
@requires wf(s, h)
@ensures ok == (view(s, h).len() > 0)
@ensures !ok ==> x == zero::<T>()
@ensures ok ==> is_min(view(s, h), x, s.Heap[h].less)
@entry
let q0 = items(s0, h); q0.to_multiset_ensures();
if q0.len() > 0 { lemma_min(q0, s.Heap[h].less); }

@func Heap.Size (h) (n)
@requires wf(s, h)
@ensures n == view(s, h).len()
@entry
items(s0, h).to_multiset_ensures();
