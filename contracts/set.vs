@state K
@sub mapset mapset K
@sub hashset hashset K
@comp oth Map<int, Set<K>>
@itype SetOf Iface Iface::Nil
@conv mapset.Set set::Iface::Mapset($)
@conv *hashset.Set set::Iface::Hashset($)
@prelude
// a value of the set interface: one of this module's two implementations or any other conforming one
pub enum Iface { Nil, Mapset(mapset::GoSet), Hashset(int), Other(int) }
// an equality that is the identity: what a conforming set of comparable elements decides membership by
pub open spec fn exact<K>(eq: spec_fn(K, K) -> bool) -> bool { forall|a: K, b: K| #[trigger] eq(a, b) == (a == b) }
pub open spec fn wf<K>(s: S<K>, h: Iface) -> bool {
  match h { Iface::Nil => false, Iface::Mapset(x) => mapset::wf(s.mapset, x), Iface::Hashset(p) => hashset::wf(s.hashset, p) && exact(hashset::same(s.hashset, p)), Iface::Other(i) => s.oth.dom().contains(i) }
}
// the members
pub open spec fn cont<K>(s: S<K>, h: Iface) -> Set<K> {
  match h { Iface::Nil => Set::<K>::empty(), Iface::Mapset(x) => mapset::view(s.mapset, x), Iface::Hashset(p) => hashset::view(s.hashset, p), Iface::Other(i) => s.oth[i] }
}
// no shared storage
pub open spec fn apart<K>(s: S<K>, g: Iface, h: Iface) -> bool {
  match g {
    Iface::Nil => false,
    Iface::Mapset(a) => match h { Iface::Nil => false, Iface::Mapset(b) => a.m != b.m, _ => true },
    Iface::Hashset(a) => match h { Iface::Nil => false, Iface::Hashset(b) => hashset::separate(s.hashset, a, b), _ => true },
    Iface::Other(a) => match h { Iface::Nil => false, Iface::Other(b) => a != b, _ => true },
  }
}
pub open spec fn here<K>(s0: S<K>, s: S<K>, o: Iface) -> bool { wf(s, o) && cont(s, o) == cont(s0, o) }
// h may have changed, no other set did
pub open spec fn kept<K>(s0: S<K>, s: S<K>, h: Iface) -> bool {
  &&& forall|o: Iface| #[trigger] wf(s0, o) && apart(s0, h, o) ==> here(s0, s, o) && apart(s, h, o)
  &&& forall|o: Iface, q: Iface| wf(s0, o) && wf(s0, q) && apart(s0, h, o) && apart(s0, h, q) ==> #[trigger] apart(s, o, q) == apart(s0, o, q)
}
pub open spec fn unchanged<K>(s0: S<K>, s: S<K>) -> bool {
  &&& forall|o: Iface| #[trigger] wf(s0, o) ==> here(s0, s, o)
  &&& forall|o: Iface, q: Iface| wf(s0, o) && wf(s0, q) ==> #[trigger] apart(s, o, q) == apart(s0, o, q)
}
// h is new, nothing that existed changed
pub open spec fn made<K>(s0: S<K>, s: S<K>, h: Iface) -> bool {
  wf(s, h) && unchanged(s0, s) && forall|o: Iface| #[trigger] wf(s0, o) ==> apart(s, h, o)
}
pub proof fn lemma_sym<K>(s: S<K>, g: Iface, h: Iface)
  ensures apart(s, g, h) == apart(s, h, g)
{}
pub proof fn lemma_self<K>(s: S<K>, g: Iface)
  ensures !apart(s, g, g)
{}
pub proof fn lemma_made<K>(s0: S<K>, s1: S<K>, s: S<K>, h: Iface)
  requires made(s0, s1, h), wf(s, h), kept(s1, s, h)
  ensures made(s0, s, h)
{
  assert forall|o: Iface| #[trigger] wf(s0, o) implies here(s0, s, o) && apart(s, h, o) by { assert(apart(s1, h, o) && here(s0, s1, o)); }
  assert forall|o: Iface, q: Iface| wf(s0, o) && wf(s0, q) implies #[trigger] apart(s, o, q) == apart(s0, o, q) by { assert(apart(s1, h, o) && apart(s1, h, q)); assert(wf(s1, o) && wf(s1, q)); assert(apart(s1, o, q) == apart(s0, o, q)); }
}
pub proof fn lemma_made2<K>(s0: S<K>, s1: S<K>, s: S<K>, g: Iface, h: Iface)
  requires made(s0, s1, g), made(s1, s, h)
  ensures made(s0, s, h), made(s0, s, g), here(s1, s, g), apart(s, h, g)
{
  assert(here(s1, s, g));
  assert forall|o: Iface| #[trigger] wf(s0, o) implies here(s0, s, o) && apart(s, h, o) && apart(s, g, o) by { assert(here(s0, s1, o) && apart(s1, g, o)); assert(wf(s1, o)); assert(apart(s, g, o) == apart(s1, g, o)); }
  assert forall|o: Iface, q: Iface| wf(s0, o) && wf(s0, q) implies #[trigger] apart(s, o, q) == apart(s0, o, q) by { assert(here(s0, s1, o) && here(s0, s1, q)); assert(apart(s1, o, q) == apart(s0, o, q)); }
}
pub proof fn lemma_kept2<K>(s0: S<K>, s1: S<K>, s: S<K>, h: Iface)
  requires kept(s0, s1, h), kept(s1, s, h)
  ensures kept(s0, s, h)
{
  assert forall|o: Iface| #[trigger] wf(s0, o) && apart(s0, h, o) implies here(s0, s, o) && apart(s, h, o) by { assert(here(s0, s1, o) && apart(s1, h, o)); }
  assert forall|o: Iface, q: Iface| wf(s0, o) && wf(s0, q) && apart(s0, h, o) && apart(s0, h, q) implies #[trigger] apart(s, o, q) == apart(s0, o, q) by { assert(here(s0, s1, o) && here(s0, s1, q)); assert(apart(s1, h, o) && apart(s1, h, q)); assert(apart(s1, o, q) == apart(s0, o, q)); }
}
// only slices and maps other than those of the sets changed
pub open spec fn still<K>(s: S<K>, t: S<K>) -> bool { s.oth == t.oth && s.mapset == t.mapset && s.hashset == t.hashset }
pub proof fn lemma_still<K>(s0: S<K>, s: S<K>, t: S<K>, h: Iface)
  requires still(s, t)
  ensures made(s0, s, h) ==> made(s0, t, h), kept(s0, s, h) ==> kept(s0, t, h), unchanged(s0, s) ==> unchanged(s0, t), unchanged(s, t), made(s, s0, h) ==> made(t, s0, h)
{
  assert forall|o: Iface| #[trigger] wf(t, o) == wf(s, o) && cont(t, o) == cont(s, o) by {}
  assert forall|o: Iface, q: Iface| #[trigger] apart(t, o, q) == apart(s, o, q) by {}
}
pub proof fn lemma_unchanged2<K>(s0: S<K>, s1: S<K>, s: S<K>)
  requires unchanged(s0, s1), unchanged(s1, s)
  ensures unchanged(s0, s)
{
  assert forall|o: Iface| #[trigger] wf(s0, o) implies here(s0, s, o) by { assert(here(s0, s1, o)); }
  assert forall|o: Iface, q: Iface| wf(s0, o) && wf(s0, q) implies #[trigger] apart(s, o, q) == apart(s0, o, q) by { assert(here(s0, s1, o) && here(s0, s1, q)); assert(apart(s1, o, q) == apart(s0, o, q)); }
}
// ---- a wrapped set
pub open spec fn good<K>(s: S<K>, p: GoSet) -> bool { wf(s, p.SetOf) && p.new != 0 }
pub open spec fn mem<K>(s: S<K>, p: GoSet) -> Set<K> { cont(s, p.SetOf) }
// ---- operands
pub open spec fn opnds<K>(s: S<K>, q: Seq<Iface>) -> bool { forall|i: int| 0 <= i < q.len() ==> wf(s, #[trigger] q[i]) }
pub open spec fn free<K>(s: S<K>, h: Iface, q: Seq<Iface>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) == h || apart(s, h, q[i]) }
pub open spec fn some<K>(s: S<K>, q: Seq<Iface>, k: K) -> bool { exists|i: int| 0 <= i < q.len() && cont(s, #[trigger] q[i]).contains(k) }
pub open spec fn every<K>(s: S<K>, q: Seq<Iface>, k: K) -> bool { forall|i: int| 0 <= i < q.len() ==> cont(s, #[trigger] q[i]).contains(k) }
pub open spec fn count<K>(s: S<K>, q: Seq<Iface>, k: K) -> int decreases q.len() { if q.len() == 0 { 0 } else { count(s, q.drop_last(), k) + if cont(s, q.last()).contains(k) { 1int } else { 0 } } }
pub open spec fn union_of<K>(c: Set<K>, s0: S<K>, h: Iface, q: Seq<Iface>) -> bool { forall|k: K| #[trigger] c.contains(k) == (cont(s0, h).contains(k) || some(s0, q, k)) }
pub open spec fn inter_of<K>(c: Set<K>, s0: S<K>, h: Iface, q: Seq<Iface>) -> bool { forall|k: K| #[trigger] c.contains(k) == (cont(s0, h).contains(k) && every(s0, q, k)) }
pub open spec fn diff_of<K>(c: Set<K>, s0: S<K>, h: Iface, q: Seq<Iface>) -> bool { forall|k: K| #[trigger] c.contains(k) == (cont(s0, h).contains(k) && !some(s0, q, k)) }
pub open spec fn symd_of<K>(c: Set<K>, s0: S<K>, h: Iface, q: Seq<Iface>) -> bool { forall|k: K| #[trigger] c.contains(k) == ((if cont(s0, h).contains(k) { 1int } else { 0 }) + count(s0, q, k) == 1) }
pub open spec fn any_of<K>(c: Set<K>, s0: S<K>, h: Iface, q: Seq<Iface>) -> bool { forall|k: K| #[trigger] c.contains(k) == ((if cont(s0, h).contains(k) { 1int } else { 0 }) + count(s0, q, k) >= 1) }
pub proof fn lemma_all<K>(t: Seq<K>, c: Set<K>)
  requires t.len() == c.len(), forall|i: int| 0 <= i < t.len() ==> c.contains(#[trigger] t[i]), forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] != #[trigger] t[j]
  ensures t.no_duplicates() && t.to_set() == c
{
  assert(t.no_duplicates());
  t.unique_seq_to_set();
  assert(t.to_set().subset_of(c)) by { assert forall|k: K| t.to_set().contains(k) implies c.contains(k) by { assert(t.contains(k)); } }
  vstd::set_lib::lemma_subset_equality(t.to_set(), c);
}
pub proof fn lemma_sub<K>(s: S<K>, q: Seq<Iface>, i: int)
  requires 0 <= i < q.len()
  ensures forall|k: K| #[trigger] some(s, q.take(i + 1), k) == (some(s, q.take(i), k) || cont(s, q[i]).contains(k)),
    forall|k: K| #[trigger] every(s, q.take(i + 1), k) == (every(s, q.take(i), k) && cont(s, q[i]).contains(k)),
    forall|k: K| #[trigger] count(s, q.take(i + 1), k) == count(s, q.take(i), k) + (if cont(s, q[i]).contains(k) { 1int } else { 0 }),
{
  let a = q.take(i); let b = q.take(i + 1);
  assert(b.drop_last() =~= a); assert(b.last() == q[i]);
  assert forall|k: K| #[trigger] some(s, b, k) == (some(s, a, k) || cont(s, q[i]).contains(k)) by {
    if some(s, b, k) { let j = choose|j: int| 0 <= j < b.len() && cont(s, #[trigger] b[j]).contains(k); if j < i { assert(a[j] == b[j]); } }
    if some(s, a, k) { let j = choose|j: int| 0 <= j < a.len() && cont(s, #[trigger] a[j]).contains(k); assert(b[j] == a[j]); }
    if cont(s, q[i]).contains(k) { assert(b[i] == q[i]); }
  }
  assert forall|k: K| #[trigger] every(s, b, k) == (every(s, a, k) && cont(s, q[i]).contains(k)) by {
    if every(s, b, k) { assert forall|j: int| 0 <= j < a.len() implies cont(s, #[trigger] a[j]).contains(k) by { assert(b[j] == a[j]); } assert(b[i] == q[i]); }
    if every(s, a, k) && cont(s, q[i]).contains(k) { assert forall|j: int| 0 <= j < b.len() implies cont(s, #[trigger] b[j]).contains(k) by { if j < i { assert(b[j] == a[j]); } } }
  }
}
// the operands hold the same members in both states
pub open spec fn alike<K>(s0: S<K>, s1: S<K>, q: Seq<Iface>) -> bool { forall|i: int| 0 <= i < q.len() ==> cont(s1, #[trigger] q[i]) == cont(s0, q[i]) }
pub proof fn lemma_count<K>(s0: S<K>, s1: S<K>, q: Seq<Iface>, k: K)
  requires alike(s0, s1, q)
  ensures count(s0, q, k) == count(s1, q, k), count(s0, q, k) >= 0
  decreases q.len()
{ if q.len() > 0 { let a = q.drop_last(); assert forall|i: int| 0 <= i < a.len() implies cont(s1, #[trigger] a[i]) == cont(s0, a[i]) by { assert(a[i] == q[i]); } lemma_count(s0, s1, a, k); assert(q.last() == q[q.len() - 1]); } }
pub proof fn lemma_xfer<K>(c: Set<K>, s0: S<K>, h: Iface, s1: S<K>, g: Iface, q: Seq<Iface>)
  requires alike(s0, s1, q), cont(s1, g) == cont(s0, h)
  ensures union_of(c, s1, g, q) ==> union_of(c, s0, h, q), inter_of(c, s1, g, q) ==> inter_of(c, s0, h, q), diff_of(c, s1, g, q) ==> diff_of(c, s0, h, q), symd_of(c, s1, g, q) ==> symd_of(c, s0, h, q)
{
  assert forall|k: K| #[trigger] count(s0, q, k) == count(s1, q, k) by { lemma_count(s0, s1, q, k); }
  assert forall|k: K| #[trigger] some(s0, q, k) == some(s1, q, k) by {
    if some(s0, q, k) { let j = choose|j: int| 0 <= j < q.len() && cont(s0, #[trigger] q[j]).contains(k); assert(cont(s1, q[j]) == cont(s0, q[j])); }
    if some(s1, q, k) { let j = choose|j: int| 0 <= j < q.len() && cont(s1, #[trigger] q[j]).contains(k); assert(cont(s1, q[j]) == cont(s0, q[j])); }
  }
  assert forall|k: K| #[trigger] every(s0, q, k) == every(s1, q, k) by {
    if every(s0, q, k) { assert forall|j: int| 0 <= j < q.len() implies cont(s1, #[trigger] q[j]).contains(k) by { assert(cont(s0, q[j]).contains(k)); } }
    if every(s1, q, k) { assert forall|j: int| 0 <= j < q.len() implies cont(s0, #[trigger] q[j]).contains(k) by { assert(cont(s1, q[j]).contains(k)); } }
  }
}
// after a new set g was made
pub proof fn lemma_ready<K>(s0: S<K>, s1: S<K>, g: Iface, q: Seq<Iface>)
  requires made(s0, s1, g), opnds(s0, q)
  ensures opnds(s1, q), free(s1, g, q), alike(s0, s1, q)
{
  assert forall|i: int| 0 <= i < q.len() implies wf(s1, #[trigger] q[i]) && apart(s1, g, q[i]) && cont(s1, q[i]) == cont(s0, q[i]) by { assert(wf(s0, q[i])); assert(here(s0, s1, q[i])); }
}
// two new sets
pub open spec fn pair<K>(s0: S<K>, s: S<K>, a: Iface, b: Iface) -> bool { made(s0, s, a) && made(s0, s, b) && apart(s, a, b) }
pub proof fn lemma_pair<K>(s0: S<K>, s1: S<K>, s: S<K>, a: Iface, b: Iface, h: Iface)
  requires pair(s0, s1, a, b), h == a || h == b, kept(s1, s, h), wf(s, h)
  ensures pair(s0, s, a, b), h == a ==> cont(s, b) == cont(s1, b), h == b ==> cont(s, a) == cont(s1, a)
{
  let g = if h == a { b } else { a };
  lemma_sym(s1, a, b); lemma_sym(s, a, b);
  assert(here(s1, s, g) && apart(s, h, g));
  lemma_made(s0, s1, s, h);
  assert forall|o: Iface| #[trigger] wf(s0, o) implies apart(s, g, o) by { assert(here(s0, s1, o)); assert(apart(s1, h, o)); assert(apart(s1, g, o)); assert(wf(s1, o)); assert(apart(s, g, o) == apart(s1, g, o)); }
}
pub proof fn lemma_seq_take<K>(t: Seq<K>, i: int)
  requires 0 <= i < t.len()
  ensures forall|k: K| #[trigger] t.take(i + 1).contains(k) == (t.take(i).contains(k) || k == t[i]), t.no_duplicates() ==> !t.take(i).contains(t[i])
{
  let a = t.take(i); let b = t.take(i + 1);
  assert forall|k: K| #[trigger] b.contains(k) == (a.contains(k) || k == t[i]) by {
    if b.contains(k) { let j = b.index_of(k); if j < i { assert(a[j] == k); } }
    if a.contains(k) { let j = a.index_of(k); assert(b[j] == k); }
    assert(b[i] == t[i]);
  }
  if t.no_duplicates() && a.contains(t[i]) { let j = a.index_of(t[i]); assert(t[j] == t[i]); }
}
pub proof fn lemma_members<K>(t: Seq<K>, c: Set<K>)
  requires t.to_set() == c
  ensures forall|k: K| #[trigger] t.contains(k) == c.contains(k)
{ assert forall|k: K| #[trigger] t.contains(k) == c.contains(k) by { assert(t.to_set().contains(k) == t.contains(k)); } }
pub proof fn lemma_none<K>(c: Set<K>)
  ensures (c.len() == 0) == (forall|k: K| !(#[trigger] c.contains(k)))
{
  if c.len() > 0 && (forall|k: K| !(#[trigger] c.contains(k))) { assert(c =~= Set::<K>::empty()); }
  if c.len() == 0 { assert forall|k: K| !(#[trigger] c.contains(k)) by { if c.contains(k) { assert(c.remove(k).len() < c.len()); } } }
}
// u = a + b is as large as a, which is as large as b: a == b
pub proof fn lemma_equal<K>(a: Set<K>, b: Set<K>, u: Set<K>)
  requires forall|k: K| #[trigger] u.contains(k) == (a.contains(k) || b.contains(k)), a.len() == b.len()
  ensures (u.len() == a.len()) == (a == b)
{
  if u.len() == a.len() {
    assert(a.subset_of(u)); vstd::set_lib::lemma_subset_equality(a, u);
    assert(b.subset_of(a)) by { assert forall|k: K| b.contains(k) implies a.contains(k) by { assert(u.contains(k)); } }
    vstd::set_lib::lemma_subset_equality(b, a);
  }
  if a == b { assert(u =~= a); }
}
// one operand
pub proof fn lemma_args<K>(c: Set<K>, s: S<K>, h: Iface, q: Seq<Iface>)
  requires q.len() == 1
  ensures union_of(c, s, h, q) ==> (forall|k: K| #[trigger] c.contains(k) == (cont(s, h).contains(k) || cont(s, q[0]).contains(k))),
    inter_of(c, s, h, q) ==> (forall|k: K| #[trigger] c.contains(k) == (cont(s, h).contains(k) && cont(s, q[0]).contains(k))),
    diff_of(c, s, h, q) ==> (forall|k: K| #[trigger] c.contains(k) == (cont(s, h).contains(k) && !cont(s, q[0]).contains(k))),
    symd_of(c, s, h, q) ==> (forall|k: K| #[trigger] c.contains(k) == (cont(s, h).contains(k) != cont(s, q[0]).contains(k))),
{
  lemma_sub(s, q, 0);
  assert(q.take(1) =~= q);
  assert forall|k: K| !(#[trigger] some(s, q.take(0), k)) && every(s, q.take(0), k) && count(s, q.take(0), k) == 0 by {}
  assert forall|k: K| #[trigger] count(s, q, k) == (if cont(s, q[0]).contains(k) { 1int } else { 0 }) by { assert(count(s, q.take(1), k) == count(s, q.take(0), k) + (if cont(s, q[0]).contains(k) { 1int } else { 0 })); }
  if symd_of(c, s, h, q) { assert forall|k: K| #[trigger] c.contains(k) == (cont(s, h).contains(k) != cont(s, q[0]).contains(k)) by { assert(count(s, q, k) >= 0); } }
}
// h made first, then the single operand
pub proof fn lemma_arg<K>(s0: S<K>, s1: S<K>, s2: S<K>, h: Iface, q: Seq<Iface>)
  requires made(s0, s1, h), q.len() == 1, made(s1, s2, q[0])
  ensures made(s0, s2, h), cont(s2, h) == cont(s1, h), opnds(s2, q), free(s2, h, q), q.len() == 1
{
  lemma_made2(s0, s1, s2, h, q[0]); lemma_sym(s2, h, q[0]);
}
pub proof fn lemma_set_of<K>(q: Seq<K>)
  ensures forall|k: K| #[trigger] q.to_set().contains(k) == q.contains(k)
{}
// ---- conforming implementations other than the two in this module
#[verifier::external_body]
pub proof fn other_put<K>(s0: S<K>, i: int, v: K) -> (s: S<K>)
  requires s0.oth.dom().contains(i)
  ensures s == (S { oth: s0.oth.insert(i, s0.oth[i].insert(v)), ..s0 })
{ unimplemented!() }
#[verifier::external_body]
pub proof fn other_remove<K>(s0: S<K>, i: int, v: K) -> (s: S<K>)
  requires s0.oth.dom().contains(i)
  ensures s == (S { oth: s0.oth.insert(i, s0.oth[i].remove(v)), ..s0 })
{ unimplemented!() }
#[verifier::external_body]
pub proof fn other_has<K>(s0: S<K>, i: int, v: K) -> (b: bool)
  requires s0.oth.dom().contains(i)
  ensures b == s0.oth[i].contains(v)
{ unimplemented!() }
#[verifier::external_body]
pub proof fn other_size<K>(s0: S<K>, i: int) -> (n: int)
  requires s0.oth.dom().contains(i)
  ensures n == s0.oth[i].len()
{ unimplemented!() }
#[verifier::external_body]
pub proof fn other_each<K>(s0: S<K>, i: int) -> (q: Seq<K>)
  requires s0.oth.dom().contains(i)
  ensures q.no_duplicates() && q.to_set() == s0.oth[i]
{ unimplemented!() }

@iface SetOf.Put (h, v)
@mods mapset.map_K_ hashset oth
@flag sig (h: Iface, v: K)
@requires wf(s, h)
@ensures wf(s, h) && cont(s, h) == cont(s0, h).insert(v) && kept(s0, s, h)
@body
  match h {
    Iface::Mapset(x) => { let m = mapset::Set_Put(s0.mapset, x, v); let s = S { mapset: m, ..s0 }; assert(cont(s, h) =~= cont(s0, h).insert(v)); s }
    Iface::Hashset(p) => { let m = hashset::Set_Put(s0.hashset, p, v); let s = S { hashset: m, ..s0 }; assert(cont(s, h) =~= cont(s0, h).insert(v)); s }
    Iface::Other(i) => { let s = other_put(s0, i, v); s }
    Iface::Nil => s0
  }

@iface SetOf.Remove (h, v)
@mods mapset.map_K_ hashset oth
@flag sig (h: Iface, v: K)
@requires wf(s, h)
@ensures wf(s, h) && cont(s, h) == cont(s0, h).remove(v) && kept(s0, s, h)
@body
  match h {
    Iface::Mapset(x) => { let m = mapset::Set_Remove(s0.mapset, x, v); let s = S { mapset: m, ..s0 }; assert(cont(s, h) =~= cont(s0, h).remove(v)); s }
    Iface::Hashset(p) => { let m = hashset::Set_Remove(s0.hashset, p, v); let s = S { hashset: m, ..s0 }; assert(cont(s, h) =~= cont(s0, h).remove(v)); s }
    Iface::Other(i) => { let s = other_remove(s0, i, v); s }
    Iface::Nil => s0
  }

@iface SetOf.Has (h, v) (b)
@flag sig (h: Iface, v: K) -> (bool)
@requires wf(s, h)
@ensures b == cont(s, h).contains(v)
@body
  match h {
    Iface::Mapset(x) => mapset::Set_Has(s0.mapset, x, v),
    Iface::Hashset(p) => hashset::Set_Has(s0.hashset, p, v),
    Iface::Other(i) => other_has(s0, i, v),
    Iface::Nil => false
  }

@iface SetOf.Size (h) (n)
@flag sig (h: Iface) -> (int)
@requires wf(s, h)
@ensures n == cont(s, h).len()
@body
  match h {
    Iface::Mapset(x) => mapset::Set_Size(s0.mapset, x),
    Iface::Hashset(p) => hashset::Set_Size(s0.hashset, p),
    Iface::Other(i) => other_size(s0, i),
    Iface::Nil => 0
  }

@iface SetOf.Each (h) (q)
@flag sig (h: Iface) -> (Seq<K>)
@requires wf(s, h)
@ensures q.no_duplicates() && q.to_set() == cont(s, h)
@stable wf(s, h) && cont(s, h) == cont(s0, h)
@body
  match h {
    Iface::Mapset(x) => { let t = mapset::Set_Each(s0.mapset, Seq::empty(), x); assert(t.skip(0) =~= t); t }
    Iface::Hashset(p) => { let t = hashset::Set_Each(s0.hashset, Seq::empty(), p); lemma_all(t, cont(s0, h)); t }
    Iface::Other(i) => other_each(s0, i),
    Iface::Nil => Seq::empty()
  }

@iface ctor.setof (f) (r)
@mods mapset.map_K_ hashset oth
@flag ctor SetOf
@flag sig (f: int) -> (Iface)
@ensures made(s0, s, r) && cont(s, r) == Set::<K>::empty()

@func NewSet (con, vals) (r)
@requires con != 0 && slwf(s.arr_K, vals)
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == con && mem(s, r) == sv(s0.arr_K, vals).to_set()
@loop 1
@loopbefore let sc = s; let mut sb = s; assert(sv(s0.arr_K, vals).take(0).to_set() =~= Set::<K>::empty());
@invariant made(s0, s, v_set) && cont(s, v_set) == sv(s0.arr_K, vals).take(it1).to_set()
@loopentry sb = s; lemma_take_set(sv(s0.arr_K, vals), it1);
@loopend lemma_made(s0, sb, s, v_set);
@loopexit assert(sv(s0.arr_K, vals).take(it1) =~= sv(s0.arr_K, vals));

@func NewMapset (vals) (r)
@requires slwf(s.arr_K, vals)
@ensures made(s0, s, r.SetOf) && good(s, r) && mem(s, r) == sv(s0.arr_K, vals).to_set()

@func NewHashset (capacity, equals, hash, vals) (r)
@requires 0 <= capacity <= 0x1_0000_0000_0000 && slwf(s.arr_K, vals)
@requires hashmap::equiv(equals) && hashmap::respects(hash, equals) && exact(equals)
@ensures made(s0, s, r.SetOf) && good(s, r) && mem(s, r) == sv(s0.arr_K, vals).to_set()

@func Set.Clone (p) (r)
@requires good(s, p)
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && mem(s, r) == mem(s0, p)
@loop 1
@loopbefore let mut sb = s; assert(ctr1.take(0).to_set() =~= Set::<K>::empty()); assert(sv(s0.arr_K, nil_slice()).to_set() =~= Set::<K>::empty());
@invariant made(s0, s, v_new.SetOf) && cont(s, v_new.SetOf) == ctr1.take(it1).to_set() && v_new.new == p.new
@loopentry sb = s; lemma_take_set(ctr1, it1);
@loopbody lemma_made(s0, sb, s, v_new.SetOf); assert(here(s0, s, p.SetOf));
@loopexit assert(ctr1.take(it1) =~= ctr1); assert(here(s0, s, p.SetOf));

@func Set.Keys (p) (r)
@requires good(s, p)
@ensures slwf(s.arr_K, r) && sv(s.arr_K, r).no_duplicates() && sv(s.arr_K, r).to_set() == mem(s0, p)
@loop 1
@invariant slwf(s.arr_K, v_out) && sv(s.arr_K, v_out) =~= ctr1.take(it1) && v_out.arr != 0
@loopexit assert(ctr1.take(it1) =~= ctr1);

@func Set.Map (p) (r)
@requires good(s, p)
@ensures r != 0 && !s0.map_K_.dom().contains(r) && s.map_K_.dom().contains(r) && s.map_K_[r].dom() == mem(s0, p)
@loop 1
@loopbefore assert(ctr1.take(0).to_set() =~= Set::<K>::empty());
@invariant s.map_K_.dom().contains(v_out) && s.map_K_[v_out].dom() =~= ctr1.take(it1).to_set()
@loopentry lemma_take_set(ctr1, it1);
@loopexit assert(ctr1.take(it1) =~= ctr1);

@func Set.InPlaceUnion (p, others) (r)
@requires good(s, p) && slwf(s.arr_set_Iface, others) && opnds(s, sv(s.arr_set_Iface, others)) && free(s, p.SetOf, sv(s.arr_set_Iface, others))
@ensures r == p && good(s, p) && kept(s0, s, p.SetOf) && union_of(mem(s, p), s0, p.SetOf, sv(s0.arr_set_Iface, others))
@entry let q = sv(s.arr_set_Iface, others); let h = p.SetOf; let mut sb = s; assert(kept(s0, s, h)); assert forall|k: K| !some(s0, q.take(0), k) by {}
@before SetOf.Put sb = s;
@after SetOf.Put lemma_kept2(s0, sb, s, h);
@loop 1
@invariant wf(s, h) && kept(s0, s, h) && union_of(cont(s, h), s0, h, q.take(it1))
@loopentry let sa = s; lemma_sub(s0, q, it1); let o = q[it1]; assert(wf(s0, o)); assert(o == h || apart(s0, h, o)); assert(o != h ==> here(s0, s, o));
@loopexit assert(q.take(it1) =~= q);
@loop 2
@invariant wf(s, h) && kept(s0, s, h) && (forall|k: K| #[trigger] cont(s, h).contains(k) == (cont(sa, h).contains(k) || ctr2.take(it2).contains(k)))
@loopentry lemma_seq_take(ctr2, it2); lemma_members(ctr2, cont(sa, o));
@loopbody assert(ctr2.contains(ctr2[it2])); if o == h { assert(cont(s, h) =~= cont(sa, h)) by { assert forall|k: K| ctr2.take(it2 + 1).contains(k) implies cont(sa, h).contains(k) by { let j = ctr2.take(it2 + 1).index_of(k); assert(ctr2[j] == k); } } } else { assert(here(s0, s, o)); }
@loopexit assert(ctr2.take(it2) =~= ctr2); lemma_members(ctr2, cont(sa, o));

@func Set.InPlaceIntersection (p, others) (r)
@requires good(s, p) && slwf(s.arr_set_Iface, others) && opnds(s, sv(s.arr_set_Iface, others)) && free(s, p.SetOf, sv(s.arr_set_Iface, others))
@ensures r == p && good(s, p) && kept(s0, s, p.SetOf) && inter_of(mem(s, p), s0, p.SetOf, sv(s0.arr_set_Iface, others))
@entry let q = sv(s.arr_set_Iface, others); let h = p.SetOf; let mut sb = s; assert(kept(s0, s, h)); assert forall|k: K| every(s0, q.take(0), k) by {}
@before SetOf.Remove sb = s;
@after SetOf.Remove lemma_kept2(s0, sb, s, h);
@loop 1
@invariant wf(s, h) && kept(s0, s, h) && inter_of(cont(s, h), s0, h, q.take(it1))
@loopentry let sa = s; lemma_sub(s0, q, it1); let o = q[it1]; assert(wf(s0, o)); assert(o == h || apart(s0, h, o)); assert(o != h ==> here(s0, s, o));
@loopexit assert(q.take(it1) =~= q);
@loop 2
@loopbefore let ky = sv(s.arr_K, rs2); assert forall|k: K| !(#[trigger] ky.take(0).contains(k)) by {} lemma_still(s0, sa, s, h);
@invariant wf(s, h) && kept(s0, s, h) && (forall|k: K| #[trigger] cont(s, h).contains(k) == (cont(sa, h).contains(k) && (ky.take(it2).contains(k) ==> cont(sa, o).contains(k))))
@loopentry lemma_seq_take(ky, it2); lemma_members(ky, cont(sa, h)); assert(ky[it2] == s.arr_K[rs2.arr][rs2.off + it2]); if o == h { assert(cont(s, h) =~= cont(sa, h)); } else { assert(here(s0, s, o)); }
@loopexit assert(ky.take(it2) =~= ky); lemma_members(ky, cont(sa, h));

@func Set.InPlaceDifference (p, others) (r)
@requires good(s, p) && slwf(s.arr_set_Iface, others) && opnds(s, sv(s.arr_set_Iface, others)) && free(s, p.SetOf, sv(s.arr_set_Iface, others))
@ensures r == p && good(s, p) && kept(s0, s, p.SetOf) && diff_of(mem(s, p), s0, p.SetOf, sv(s0.arr_set_Iface, others))
@entry let q = sv(s.arr_set_Iface, others); let h = p.SetOf; let mut sb = s; assert(kept(s0, s, h)); assert forall|k: K| !some(s0, q.take(0), k) by {}
@before SetOf.Remove sb = s;
@after SetOf.Remove lemma_kept2(s0, sb, s, h);
@loop 1
@invariant wf(s, h) && kept(s0, s, h) && diff_of(cont(s, h), s0, h, q.take(it1))
@loopentry let sa = s; lemma_sub(s0, q, it1); let o = q[it1]; assert(wf(s0, o)); assert(o == h || apart(s0, h, o)); assert(o != h ==> here(s0, s, o));
@loopexit assert(q.take(it1) =~= q);
@loop 2
@invariant slwf(s.arr_K, v_keys) && sv(s.arr_K, v_keys) =~= ctr2.take(it2) && v_keys.arr != 0
@loopexit assert(ctr2.take(it2) =~= ctr2);
@loop 3
@loopbefore let ky = sv(s.arr_K, rs3); assert forall|k: K| !(#[trigger] ky.take(0).contains(k)) by {} lemma_still(s0, sa, s, h);
@invariant wf(s, h) && kept(s0, s, h) && (forall|k: K| #[trigger] cont(s, h).contains(k) == (cont(sa, h).contains(k) && !ky.take(it3).contains(k)))
@loopentry lemma_seq_take(ky, it3); assert(ky[it3] == s.arr_K[rs3.arr][rs3.off + it3]);
@loopexit assert(ky.take(it3) =~= ky); lemma_members(ky, cont(sa, o));

@func Set.Union (p, others) (r)
@requires good(s, p) && slwf(s.arr_set_Iface, others) && opnds(s, sv(s.arr_set_Iface, others))
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && union_of(mem(s, r), s0, p.SetOf, sv(s0.arr_set_Iface, others))
@entry let q = sv(s.arr_set_Iface, others); let mut s1 = s;
@after Set.Clone s1 = s;
@before Set.InPlaceUnion lemma_ready(s0, s1, ($1).SetOf, q);
@exit lemma_made(s0, s1, s, r.SetOf); lemma_xfer(mem(s, r), s0, p.SetOf, s1, r.SetOf, q);

@func Set.Intersection (p, others) (r)
@requires good(s, p) && slwf(s.arr_set_Iface, others) && opnds(s, sv(s.arr_set_Iface, others))
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && inter_of(mem(s, r), s0, p.SetOf, sv(s0.arr_set_Iface, others))
@entry let q = sv(s.arr_set_Iface, others); let mut s1 = s;
@after Set.Clone s1 = s;
@before Set.InPlaceIntersection lemma_ready(s0, s1, ($1).SetOf, q);
@exit lemma_made(s0, s1, s, r.SetOf); lemma_xfer(mem(s, r), s0, p.SetOf, s1, r.SetOf, q);

@func Set.Difference (p, others) (r)
@requires good(s, p) && slwf(s.arr_set_Iface, others) && opnds(s, sv(s.arr_set_Iface, others))
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && diff_of(mem(s, r), s0, p.SetOf, sv(s0.arr_set_Iface, others))
@entry let q = sv(s.arr_set_Iface, others); let mut s1 = s;
@after Set.Clone s1 = s;
@before Set.InPlaceDifference lemma_ready(s0, s1, ($1).SetOf, q);
@exit lemma_made(s0, s1, s, r.SetOf); lemma_xfer(mem(s, r), s0, p.SetOf, s1, r.SetOf, q);

@func Set.SymmetricDifference (p, others) (r)
@requires good(s, p) && slwf(s.arr_set_Iface, others) && opnds(s, sv(s.arr_set_Iface, others))
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && symd_of(mem(s, r), s0, p.SetOf, sv(s0.arr_set_Iface, others))
@entry let q = sv(s.arr_set_Iface, others); let h = p.SetOf; let mut sb = s; let mut s1 = s;
@after Set.Clone#1 s1 = s;
@after Set.Clone#2 lemma_made2(s0, s1, s, v_new.SetOf, c2.1.SetOf); lemma_sym(s, v_new.SetOf, c2.1.SetOf);
@before SetOf.Put sb = s;
@after SetOf.Put lemma_pair(s0, sb, s, v_new.SetOf, v_seen.SetOf, $1);
@before SetOf.Remove sb = s;
@after SetOf.Remove lemma_pair(s0, sb, s, v_new.SetOf, v_seen.SetOf, $1);
@loop 1
@loopbefore let a = v_new.SetOf; let b = v_seen.SetOf;
@invariant pair(s0, s, a, b) && symd_of(cont(s, a), s0, h, q.take(it1)) && any_of(cont(s, b), s0, h, q.take(it1))
@loopentry let sa = s; lemma_sub(s0, q, it1); let o = q[it1]; assert(wf(s0, o)); assert(here(s0, s, o));
@loopexit assert(q.take(it1) =~= q);
@loop 2
@invariant pair(s0, s, a, b)
@invariant forall|k: K| #[trigger] cont(s, a).contains(k) == ((if cont(s0, h).contains(k) { 1int } else { 0 }) + count(s0, q.take(it1), k) + (if ctr2.take(it2).contains(k) { 1int } else { 0 }) == 1)
@invariant forall|k: K| #[trigger] cont(s, b).contains(k) == ((if cont(s0, h).contains(k) { 1int } else { 0 }) + count(s0, q.take(it1), k) + (if ctr2.take(it2).contains(k) { 1int } else { 0 }) >= 1)
@loopentry lemma_seq_take(ctr2, it2); lemma_count(s0, s0, q.take(it1), ctr2[it2]);
@loopbody assert(here(s0, s, o));
@loopexit assert(ctr2.take(it2) =~= ctr2); lemma_members(ctr2, cont(s0, o));

@func Set.ConstUnion (p, with) (r)
@requires good(s, p) && slwf(s.arr_K, with)
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && (forall|k: K| #[trigger] mem(s, r).contains(k) == (mem(s0, p).contains(k) || sv(s0.arr_K, with).contains(k)))
@entry let ky = sv(s.arr_K, with); let mut s1 = s; let mut s2 = s; let mut s3 = s; let mut q = Seq::<Iface>::empty();
@after Set.Clone s1 = s;
@after NewSet s3 = s;
@before Set.InPlaceUnion s2 = s; q = sv(s.arr_set_Iface, $2); assert(q[0] == s.arr_set_Iface[($2).arr][($2).off]); lemma_still(s1, s3, s2, q[0]); lemma_arg(s0, s1, s2, ($1).SetOf, q);
@exit lemma_made(s0, s2, s, r.SetOf); lemma_args(mem(s, r), s2, r.SetOf, q); lemma_set_of(ky);

@func Set.ConstIntersection (p, with) (r)
@requires good(s, p) && slwf(s.arr_K, with)
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && (forall|k: K| #[trigger] mem(s, r).contains(k) == (mem(s0, p).contains(k) && sv(s0.arr_K, with).contains(k)))
@entry let ky = sv(s.arr_K, with); let mut s1 = s; let mut s2 = s; let mut s3 = s; let mut q = Seq::<Iface>::empty();
@after Set.Clone s1 = s;
@after NewSet s3 = s;
@before Set.InPlaceIntersection s2 = s; q = sv(s.arr_set_Iface, $2); assert(q[0] == s.arr_set_Iface[($2).arr][($2).off]); lemma_still(s1, s3, s2, q[0]); lemma_arg(s0, s1, s2, ($1).SetOf, q);
@exit lemma_made(s0, s2, s, r.SetOf); lemma_args(mem(s, r), s2, r.SetOf, q); lemma_set_of(ky);

@func Set.ConstDifference (p, with) (r)
@requires good(s, p) && slwf(s.arr_K, with)
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && (forall|k: K| #[trigger] mem(s, r).contains(k) == (mem(s0, p).contains(k) && !sv(s0.arr_K, with).contains(k)))
@entry let ky = sv(s.arr_K, with); let mut s1 = s; let mut s2 = s; let mut s3 = s; let mut q = Seq::<Iface>::empty();
@after Set.Clone s1 = s;
@after NewSet s3 = s;
@before Set.InPlaceDifference s2 = s; q = sv(s.arr_set_Iface, $2); assert(q[0] == s.arr_set_Iface[($2).arr][($2).off]); lemma_still(s1, s3, s2, q[0]); lemma_arg(s0, s1, s2, ($1).SetOf, q);
@exit lemma_made(s0, s2, s, r.SetOf); lemma_args(mem(s, r), s2, r.SetOf, q); lemma_set_of(ky);

@func Set.ConstSymmetricDifference (p, with) (r)
@requires good(s, p) && slwf(s.arr_K, with)
@ensures made(s0, s, r.SetOf) && good(s, r) && r.new == p.new && (forall|k: K| #[trigger] mem(s, r).contains(k) == (mem(s0, p).contains(k) != sv(s0.arr_K, with).contains(k)))
@entry let ky = sv(s.arr_K, with); let mut s2 = s; let mut s3 = s; let mut q = Seq::<Iface>::empty();
@after NewSet s3 = s;
@before Set.SymmetricDifference s2 = s; q = sv(s.arr_set_Iface, $2); assert(q.len() == 1); assert(q[0] == s.arr_set_Iface[($2).arr][($2).off]); lemma_still(s0, s3, s2, q[0]); assert(here(s0, s2, p.SetOf)); assert(opnds(s, q));
@exit lemma_made2(s0, s2, s, q[0], r.SetOf); lemma_args(mem(s, r), s2, p.SetOf, q); lemma_set_of(ky);

@func Set.IsDisjoint (p, other) (b)
@requires good(s, p) && wf(s, other)
@ensures unchanged(s0, s) && b == (forall|k: K| #[trigger] mem(s0, p).contains(k) ==> !cont(s0, other).contains(k))
@entry let mut q = Seq::<Iface>::empty(); let mut s1 = s; let mut rr = p;
@before Set.Intersection s1 = s; q = sv(s.arr_set_Iface, $2); assert(q.len() == 1); assert(q[0] == s.arr_set_Iface[($2).arr][($2).off]); lemma_still(s1, s0, s1, p.SetOf); assert(here(s0, s1, p.SetOf) && here(s0, s1, other)); assert(opnds(s, q));
@before SetOf.Size lemma_args(cont(s, $1), s1, p.SetOf, q); lemma_none(cont(s, $1)); lemma_unchanged2(s0, s1, s); assert forall|k: K| #[trigger] mem(s0, p).contains(k) implies cont(s, $1).contains(k) == cont(s0, other).contains(k) by {} assert forall|k: K| #[trigger] cont(s, $1).contains(k) implies mem(s0, p).contains(k) && cont(s0, other).contains(k) by {}

@func Set.IsSubset (p, of) (b)
@requires good(s, p) && wf(s, of)
@ensures unchanged(s0, s) && b == (forall|k: K| #[trigger] mem(s0, p).contains(k) ==> cont(s0, of).contains(k))
@loop 1
@loopbefore assert forall|k: K| !(#[trigger] ctr1.take(0).contains(k)) by {}
@invariant v_subset == (forall|k: K| #[trigger] ctr1.take(it1).contains(k) ==> cont(s, of).contains(k))
@loopentry lemma_seq_take(ctr1, it1); assert(ctr1.take(it1 + 1).contains(ctr1[it1])); assert forall|k: K| #[trigger] ctr1.take(it1).contains(k) implies ctr1.take(it1 + 1).contains(k) by {}
@loopexit assert(ctr1.take(it1) =~= ctr1); lemma_members(ctr1, mem(s0, p));

@func Set.IsSuperset (p, of) (b)
@requires good(s, p) && wf(s, of)
@ensures unchanged(s0, s) && b == (forall|k: K| #[trigger] cont(s0, of).contains(k) ==> mem(s0, p).contains(k))
@loop 1
@loopbefore assert forall|k: K| !(#[trigger] ctr1.take(0).contains(k)) by {}
@invariant v_superset == (forall|k: K| #[trigger] ctr1.take(it1).contains(k) ==> mem(s, p).contains(k))
@loopentry lemma_seq_take(ctr1, it1); assert(ctr1.take(it1 + 1).contains(ctr1[it1])); assert forall|k: K| #[trigger] ctr1.take(it1).contains(k) implies ctr1.take(it1 + 1).contains(k) by {}
@loopexit assert(ctr1.take(it1) =~= ctr1); lemma_members(ctr1, cont(s0, of));

@func Set.Equal (p, to) (b)
@requires good(s, p) && wf(s, to)
@ensures unchanged(s0, s) && b == (mem(s0, p) == cont(s0, to))
@entry let mut q = Seq::<Iface>::empty(); let mut s1 = s;
@before Set.Union s1 = s; q = sv(s.arr_set_Iface, $2); assert(q.len() == 1); assert(q[0] == s.arr_set_Iface[($2).arr][($2).off]); lemma_still(s1, s0, s1, p.SetOf); assert(here(s0, s1, p.SetOf) && here(s0, s1, to)); assert(opnds(s, q));
@before SetOf.Size#3 lemma_args(cont(s, $1), s1, p.SetOf, q); lemma_equal(mem(s0, p), cont(s0, to), cont(s, $1)); assert(here(s0, s, p.SetOf));

@func Set.IsProperSubset (p, to) (b)
@requires good(s, p) && wf(s, to)
@ensures unchanged(s0, s) && b == ((forall|k: K| #[trigger] mem(s0, p).contains(k) ==> cont(s0, to).contains(k)) && mem(s0, p) != cont(s0, to))
@entry let mut s1 = s;
@after Set.Equal s1 = s; assert(here(s0, s, p.SetOf) && here(s0, s, to));
@after Set.IsSubset assert forall|k: K| mem(s1, p).contains(k) == mem(s0, p).contains(k) by {} lemma_unchanged2(s0, s1, s);

@func Set.IsProperSuperset (p, to) (b)
@requires good(s, p) && wf(s, to)
@ensures unchanged(s0, s) && b == ((forall|k: K| #[trigger] cont(s0, to).contains(k) ==> mem(s0, p).contains(k)) && mem(s0, p) != cont(s0, to))
@entry let mut s1 = s;
@after Set.Equal s1 = s; assert(here(s0, s, p.SetOf) && here(s0, s, to));
@after Set.IsSuperset assert forall|k: K| mem(s1, p).contains(k) == mem(s0, p).contains(k) by {} lemma_unchanged2(s0, s1, s);
