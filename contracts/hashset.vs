@state K
@prelude
pub open spec fn wf<K>(s: S<K>, p: int) -> bool {
  p != 0 && s.Set.dom().contains(p) && hashmap::wf(s.hashmap, s.Set[p].m)
}
// the members of a set
pub open spec fn view<K>(s: S<K>, p: int) -> Set<K> { hashmap::view(s.hashmap, s.Set[p].m).dom() }
pub open spec fn same<K>(s: S<K>, p: int) -> spec_fn(K, K) -> bool { hashmap::same(s.hashmap, s.Set[p].m) }
// membership up to the given equality
pub open spec fn member<K>(m: Set<K>, eq: spec_fn(K, K) -> bool, k: K) -> bool { exists|x: K| #[trigger] m.contains(x) && eq(x, k) }
pub open spec fn differ<K>(m: Set<K>, eq: spec_fn(K, K) -> bool) -> bool {
  forall|a: K, b: K| #![trigger m.contains(a), m.contains(b)] m.contains(a) && m.contains(b) && eq(a, b) ==> a == b
}
pub open spec fn separate<K>(s: S<K>, p: int, q: int) -> bool { hashmap::separate(s.hashmap, s.Set[p].m, s.Set[q].m) }
// what decides which sets q is separate from
pub open spec fn as_was<K>(s0: S<K>, s: S<K>, q: int) -> bool { s.Set[q] == s0.Set[q] && s.hashmap.Map[s.Set[q].m] == s0.hashmap.Map[s.Set[q].m] }
pub open spec fn others_kept<K>(s0: S<K>, s: S<K>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q) && same(s, q) == same(s0, q) && as_was(s0, s, q)
}
pub proof fn lemma_holds<K>(m: Map<K, ()>, eq: spec_fn(K, K) -> bool, k: K)
  ensures hashmap::holds_key(m, eq, k) == member(m.dom(), eq, k)
{
  if member(m.dom(), eq, k) { let x = choose|x: K| #[trigger] m.dom().contains(x) && eq(x, k); }
  if hashmap::holds_key(m, eq, k) { let x = choose|x: K| #[trigger] m.dom().contains(x) && eq(x, k); }
}
// the map of the set p went from hashmap state h0 to h and other sets stand as before
pub proof fn lemma_kept<K>(s0: S<K>, s: S<K>, p: int)
  requires s.Set == s0.Set, hashmap::others_kept(s0.hashmap, s.hashmap, s0.Set[p].m)
  ensures others_kept(s0, s, p)
{
  assert forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) implies wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q) && same(s, q) == same(s0, q) && as_was(s0, s, q) by {
    assert(hashmap::wf(s0.hashmap, s0.Set[q].m));
  }
}

@func New (capacity, equals, hash) (r)
@requires 0 <= capacity <= 0x1_0000_0000_0000
@requires hashmap::equiv(equals) && hashmap::respects(hash, equals)
@ensures wf(s, r) && view(s, r) == Set::<K>::empty() && same(s, r) == equals
@ensures forall|q: int| #[trigger] wf(s0, q) ==> q != r && wf(s, q) && separate(s, r, q) && view(s, q) == view(s0, q) && same(s, q) == same(s0, q) && as_was(s0, s, q)
@exit assert(view(s, r) =~= Set::<K>::empty());

@func Of (capacity, equals, hash, vals) (r)
@requires 0 <= capacity <= 0x1_0000_0000_0000 && slwf(s.arr_K, vals)
@requires hashmap::equiv(equals) && hashmap::respects(hash, equals)
@ensures wf(s, r) && same(s, r) == equals
@ensures forall|x: K| #[trigger] view(s, r).contains(x) ==> sv(s0.arr_K, vals).contains(x)
@ensures forall|i: int| 0 <= i < vals.len ==> member(view(s, r), equals, #[trigger] sv(s0.arr_K, vals)[i])
@ensures forall|q: int| #[trigger] wf(s0, q) ==> q != r && wf(s, q) && separate(s, r, q) && view(s, q) == view(s0, q) && same(s, q) == same(s0, q) && as_was(s0, s, q)
@loop 1
@invariant wf(s, v_s) && same(s, v_s) == equals
@invariant forall|x: K| #[trigger] view(s, v_s).contains(x) ==> sv(s0.arr_K, vals).contains(x)
@invariant forall|i: int| 0 <= i < it1 ==> member(view(s, v_s), equals, #[trigger] sv(s0.arr_K, vals)[i])
@invariant forall|q: int| #[trigger] wf(s0, q) ==> q != v_s && wf(s, q) && separate(s, v_s, q) && view(s, q) == view(s0, q) && same(s, q) == same(s0, q) && as_was(s0, s, q)
@loopentry let sl = s; let v0 = view(s, v_s); let x = sv(s0.arr_K, vals)[it1]; assert(x == s.arr_K[rs1.arr][rs1.off + it1]);
@loopbody let v1 = view(s, v_s); assert(member(v1, equals, x)) by { if member(v0, equals, x) { } else { assert(v1.contains(x)); assert(equals(x, x)); } } assert forall|i: int| 0 <= i < it1 implies member(v1, equals, #[trigger] sv(s0.arr_K, vals)[i]) by { let k = sv(s0.arr_K, vals)[i]; assert(member(v0, equals, k)); let y = choose|y: K| #[trigger] v0.contains(y) && equals(y, k); assert(v1.contains(y)); }

@func Set.Put (p, val)
@requires wf(s, p)
@ensures wf(s, p) && same(s, p) == same(s0, p)
@ensures view(s, p) == if member(view(s0, p), same(s0, p), val) { view(s0, p) } else { view(s0, p).insert(val) }
@ensures[H02] others_kept(s0, s, p)
@exit let m0 = hashmap::view(s0.hashmap, s0.Set[p].m); let m = hashmap::view(s.hashmap, s0.Set[p].m); lemma_holds(m0, same(s0, p), val); if member(m0.dom(), same(s0, p), val) { assert(m.dom() =~= m0.dom()); } else { assert(m.dom() =~= m0.dom().insert(val)); } lemma_kept(s0, s, p);

@func Set.Has (p, val) (r)
@requires wf(s, p)
@ensures r == member(view(s, p), same(s, p), val)
@exit lemma_holds(hashmap::view(s.hashmap, s.Set[p].m), same(s, p), val);

@func Set.Remove (p, val)
@requires wf(s, p)
@ensures wf(s, p) && same(s, p) == same(s0, p)
@ensures !member(view(s0, p), same(s0, p), val) ==> view(s, p) == view(s0, p)
@ensures member(view(s0, p), same(s0, p), val) ==> exists|x: K| #[trigger] view(s0, p).contains(x) && (same(s0, p))(x, val) && view(s, p) == view(s0, p).remove(x)
@ensures[H02] others_kept(s0, s, p)
@exit let m0 = hashmap::view(s0.hashmap, s0.Set[p].m); let m = hashmap::view(s.hashmap, s0.Set[p].m); lemma_holds(m0, same(s0, p), val); if member(m0.dom(), same(s0, p), val) { let x = choose|x: K| #[trigger] m0.dom().contains(x) && (same(s0, p))(x, val) && m == m0.remove(x); assert(m.dom() =~= m0.dom().remove(x)); } lemma_kept(s0, s, p);

@func Set.Clear (p)
@requires wf(s, p)
@ensures wf(s, p) && same(s, p) == same(s0, p) && view(s, p) == Set::<K>::empty()
@ensures[H02] others_kept(s0, s, p)
@exit assert(view(s, p) =~= Set::<K>::empty()); lemma_kept(s0, s, p);

@func Set.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).len() && differ(view(s, p), same(s, p))

@func Set.Each (p, fn)
@requires wf(s, p)
@ensures tr.len() == tr0.len() + view(s, p).len() && tr.take(tr0.len() as int) == tr0
@ensures forall|i: int| tr0.len() <= i < tr.len() ==> view(s, p).contains(#[trigger] tr[i])
@ensures forall|i: int, j: int| tr0.len() <= i < j < tr.len() ==> #[trigger] tr[i] != #[trigger] tr[j]
@loop 1
@invariant tr =~= tr0 + Seq::new(it1 as nat, |i: int| ctr1[i].0)
@loopexit let n = view(s, p).len() as int; assert(ctr1.skip(0) =~= ctr1); assert(it1 == n); assert(tr.take(tr0.len() as int) =~= tr0);

@func Set.Copy (p) (r)
@requires wf(s, p)
@ensures wf(s, r) && wf(s, p) && view(s, p) == view(s0, p) && view(s, r) == view(s0, p) && same(s, r) == same(s, p) && same(s, p) == same(s0, p)
@ensures[H02] separate(s, p, r) && !s0.Set.dom().contains(r)
@ensures[H02] forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && separate(s, r, q) && view(s, q) == view(s0, q) && same(s, q) == same(s0, q) && as_was(s0, s, q)
@exit assert forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) implies wf(s, q) && separate(s, p, q) && separate(s, r, q) && view(s, q) == view(s0, q) && same(s, q) == same(s0, q) && as_was(s0, s, q) by { assert(hashmap::wf(s0.hashmap, s0.Set[q].m)); }
