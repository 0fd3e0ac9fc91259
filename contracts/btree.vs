@state K V
@counter height, n
@prelude
// ---- the tree below a node of a given height (0: a leaf). A node's first m entries are its own; the others are leftovers.
pub open spec fn own<K, V>(n: node<K, V>) -> Seq<entry<K, V>> { n.children.take(n.m) }
pub open spec fn lq<K, V>(cs: Seq<entry<K, V>>) -> Seq<(K, V, bool)> { Seq::new(cs.len(), |i: int| (cs[i].key, cs[i].val, cs[i].valid)) }
// the entries below, in order; the flag tells the live ones from the removed ones
pub open spec fn cat<K, V>(m: Map<int, node<K, V>>, cs: Seq<entry<K, V>>, h: int) -> Seq<(K, V, bool)> decreases h, cs.len() + 1
{ if h < 0 || cs.len() == 0 { Seq::empty() } else { cat(m, cs.drop_last(), h) + sq(m, cs.last().next, h) } }
pub open spec fn sqc<K, V>(m: Map<int, node<K, V>>, cs: Seq<entry<K, V>>, h: int) -> Seq<(K, V, bool)> decreases h, 0nat
{ if h <= 0 { lq(cs) } else { cat(m, cs, h - 1) } }
pub open spec fn sq<K, V>(m: Map<int, node<K, V>>, x: int, h: int) -> Seq<(K, V, bool)> decreases h, 1nat
{ sqc(m, own(m[x]), h) }
// the nodes below
pub open spec fn fps<K, V>(m: Map<int, node<K, V>>, cs: Seq<entry<K, V>>, h: int) -> Set<int> decreases h, cs.len() + 1
{ if h < 0 || cs.len() == 0 { Set::empty() } else { fps(m, cs.drop_last(), h).union(fp(m, cs.last().next, h)) } }
pub open spec fn fpc<K, V>(m: Map<int, node<K, V>>, cs: Seq<entry<K, V>>, h: int) -> Set<int> decreases h, 0nat
{ if h <= 0 { Set::empty() } else { fps(m, cs, h - 1) } }
pub open spec fn fp<K, V>(m: Map<int, node<K, V>>, x: int, h: int) -> Set<int> decreases h, 1nat
{ fpc(m, own(m[x]), h).insert(x) }
pub open spec fn lo<K, V>(q: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K) -> bool { forall|i: int| 0 <= i < q.len() ==> l((#[trigger] q[i]).0, k) }
pub open spec fn hi<K, V>(q: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K) -> bool { forall|i: int| 0 <= i < q.len() ==> !l((#[trigger] q[i]).0, k) }
pub open spec fn above<K, V>(q: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K) -> bool { forall|i: int| 0 <= i < q.len() ==> l(k, (#[trigger] q[i]).0) }
// the key of entry k separates the subtrees on both sides of it
pub open spec fn sep1<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, k: int) -> bool { lo(sq(m, cs[k - 1].next, h), l, cs[k].key) && hi(sq(m, cs[k].next, h), l, cs[k].key) }
pub open spec fn seps<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int) -> bool { forall|k: int| 1 <= k < cs.len() ==> #[trigger] sep1(m, l, cs, h, k) }
pub open spec fn okc<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int) -> bool decreases h, cs.len() + 1
{ h >= 0 && (cs.len() > 0 ==> okc(m, l, cs.drop_last(), h) && okn(m, l, cs.last().next, h) && m[cs.last().next].m >= 1 && fps(m, cs.drop_last(), h).disjoint(fp(m, cs.last().next, h))) }
pub open spec fn okx<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, cs: Seq<entry<K, V>>, h: int) -> bool decreases h, 0nat
{ if h <= 0 { h == 0 } else { cs.len() >= 1 && okc(m, l, cs, h - 1) && !fps(m, cs, h - 1).contains(x) && seps(m, l, cs, h - 1) } }
pub open spec fn okn<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, h: int) -> bool decreases h, 1nat
{ x != 0 && m.dom().contains(x) && m[x].children.len() == 64 && 0 <= m[x].m < 64 && okx(m, l, x, own(m[x]), h) }
pub open spec fn sort3<K, V>(q: Seq<(K, V, bool)>, less: spec_fn(K, K) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> less((#[trigger] q[i]).0, (#[trigger] q[j]).0) }
pub open spec fn eqv<K>(less: spec_fn(K, K) -> bool, a: K, b: K) -> bool { !less(a, b) && !less(b, a) }
pub open spec fn ins_at<K, V>(q: Seq<(K, V, bool)>, q2: Seq<(K, V, bool)>, less: spec_fn(K, K) -> bool, k: K, v: V, b: bool, i: int) -> bool {
  0 <= i <= q.len() && (forall|j: int| 0 <= j < i ==> less((#[trigger] q[j]).0, k)) && if i < q.len() && eqv(less, q[i].0, k) { q2 == q.update(i, (q2[i].0, v, b)) && (q2[i].0 == k || q2[i].0 == q[i].0) }
    else { (forall|j: int| i <= j < q.len() ==> less(k, (#[trigger] q[j]).0)) && q2 == q.insert(i, (k, v, b)) }
}
pub open spec fn ins<K, V>(q: Seq<(K, V, bool)>, q2: Seq<(K, V, bool)>, less: spec_fn(K, K) -> bool, k: K, v: V, b: bool) -> bool { exists|i: int| #[trigger] ins_at(q, q2, less, k, v, b, i) }
// the entry for k, live or not
pub open spec fn at<K, V>(q: Seq<(K, V, bool)>, less: spec_fn(K, K) -> bool, k: K, i: int) -> bool { 0 <= i < q.len() && eqv(less, q[i].0, k) }
pub open spec fn got<K, V>(q: Seq<(K, V, bool)>, less: spec_fn(K, K) -> bool, k: K, v: V, b: bool) -> bool {
  if b { exists|i: int| #[trigger] at(q, less, k, i) && q[i].2 && q[i].1 == v } else { forall|i: int| #[trigger] at(q, less, k, i) ==> !q[i].2 }
}
// everything that existed and is not in t is as it was
pub open spec fn fr<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, t: Set<int>) -> bool {
  forall|x: int| #![trigger m0.dom().contains(x)] #![trigger m[x]] m0.dom().contains(x) ==> m.dom().contains(x) && (t.contains(x) || m[x] == m0[x])
}
pub open spec fn from<K, V>(m0: Map<int, node<K, V>>, t: Set<int>, u: Set<int>) -> bool { forall|x: int| #[trigger] u.contains(x) ==> t.contains(x) || !m0.dom().contains(x) }

pub proof fn lemma_push<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, a: Seq<entry<K, V>>, e: entry<K, V>, h: int)
  requires h >= 0
  ensures cat(m, a.push(e), h) == cat(m, a, h) + sq(m, e.next, h), fps(m, a.push(e), h) == fps(m, a, h).union(fp(m, e.next, h)),
    okc(m, l, a.push(e), h) == (okc(m, l, a, h) && okn(m, l, e.next, h) && m[e.next].m >= 1 && fps(m, a, h).disjoint(fp(m, e.next, h)))
{ assert(a.push(e).drop_last() =~= a); assert(a.push(e).last() == e); }
pub proof fn lemma_cat<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, a: Seq<entry<K, V>>, b: Seq<entry<K, V>>, h: int)
  requires h >= 0
  ensures cat(m, a + b, h) == cat(m, a, h) + cat(m, b, h), fps(m, a + b, h) == fps(m, a, h).union(fps(m, b, h)), okc(m, l, a + b, h) == (okc(m, l, a, h) && okc(m, l, b, h) && fps(m, a, h).disjoint(fps(m, b, h)))
  decreases b.len()
{
  if b.len() == 0 { assert(a + b =~= a); assert(cat(m, a, h) + cat(m, b, h) =~= cat(m, a, h)); assert(fps(m, a, h).union(fps(m, b, h)) =~= fps(m, a, h)); assert(okc(m, l, b, h)); }
  else {
    let c = b.drop_last(); let e = b.last();
    lemma_cat(m, l, a, c, h); assert(a + b =~= (a + c).push(e)); assert(b =~= c.push(e)); lemma_push(m, l, a + c, e, h); lemma_push(m, l, c, e, h);
    assert(cat(m, a, h) + (cat(m, c, h) + sq(m, e.next, h)) =~= (cat(m, a, h) + cat(m, c, h)) + sq(m, e.next, h));
    assert(fps(m, a, h).union(fps(m, c, h).union(fp(m, e.next, h))) =~= fps(m, a, h).union(fps(m, c, h)).union(fp(m, e.next, h)));
    let x = fps(m, a, h); let y = fps(m, c, h); let z = fp(m, e.next, h);
    assert((x.disjoint(y) && x.union(y).disjoint(z)) == (y.disjoint(z) && x.disjoint(y.union(z)) && x.disjoint(y))) by {
      if x.union(y).disjoint(z) && x.disjoint(y) { assert forall|w: int| #[trigger] y.contains(w) implies !z.contains(w) by { assert(x.union(y).contains(w)); } assert forall|w: int| #[trigger] x.contains(w) implies !y.union(z).contains(w) by { assert(x.union(y).contains(w)); } }
      if y.disjoint(z) && x.disjoint(y.union(z)) { assert forall|w: int| #[trigger] x.union(y).contains(w) implies !z.contains(w) by { if x.contains(w) { assert(!y.union(z).contains(w)); } } }
    }
    assert((x.disjoint(y) && y.disjoint(z) && x.disjoint(y.union(z))) == (y.disjoint(z) && x.disjoint(y.union(z)))) by { if x.disjoint(y.union(z)) { assert forall|w: int| #[trigger] x.contains(w) implies !y.contains(w) by { assert(!y.union(z).contains(w)); } } }
  }
}
// one child among the others
pub proof fn lemma_mid<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, j: int)
  requires h >= 0, 0 <= j < cs.len()
  ensures ({ let a = cs.take(j); let b = cs.skip(j + 1); let c = cs[j].next;
    cat(m, cs, h) == cat(m, a, h) + sq(m, c, h) + cat(m, b, h) && fps(m, cs, h) == fps(m, a, h).union(fp(m, c, h)).union(fps(m, b, h))
    && okc(m, l, cs, h) == (okc(m, l, a, h) && okn(m, l, c, h) && m[c].m >= 1 && okc(m, l, b, h) && fps(m, a, h).disjoint(fp(m, c, h)) && fps(m, a, h).union(fp(m, c, h)).disjoint(fps(m, b, h))) })
{ let a = cs.take(j); let b = cs.skip(j + 1); lemma_push(m, l, a, cs[j], h); lemma_cat(m, l, a.push(cs[j]), b, h); assert(cs =~= a.push(cs[j]) + b); }
pub proof fn lemma_domc<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int)
  requires okc(m, l, cs, h)
  ensures forall|y: int| #[trigger] fps(m, cs, h).contains(y) ==> y != 0 && m.dom().contains(y), cs.len() > 0 ==> cat(m, cs, h).len() > 0,
    forall|k: int| 0 <= k < cs.len() ==> okn(m, l, (#[trigger] cs[k]).next, h) && m[cs[k].next].m >= 1
  decreases h, cs.len() + 1
{ if cs.len() > 0 { lemma_domc(m, l, cs.drop_last(), h); lemma_dom(m, l, cs.last().next, h);
    assert forall|k: int| 0 <= k < cs.len() implies okn(m, l, (#[trigger] cs[k]).next, h) && m[cs[k].next].m >= 1 by { if k < cs.len() - 1 { assert(cs.drop_last()[k] == cs[k]); } } } }
pub proof fn lemma_dom<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, h: int)
  requires okn(m, l, x, h)
  ensures forall|y: int| #[trigger] fp(m, x, h).contains(y) ==> y != 0 && m.dom().contains(y), m[x].m > 0 ==> sq(m, x, h).len() > 0, h > 0 ==> m[x].m > 0
  decreases h, 1nat
{ if h > 0 { lemma_domc(m, l, own(m[x]), h - 1); } }
pub proof fn lemma_keepc<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int)
  requires okc(m0, l, cs, h), forall|y: int| #[trigger] fps(m0, cs, h).contains(y) ==> m.dom().contains(y) && m[y] == m0[y]
  ensures okc(m, l, cs, h), cat(m, cs, h) == cat(m0, cs, h), fps(m, cs, h) == fps(m0, cs, h), forall|k: int| 0 <= k < cs.len() ==> #[trigger] sq(m, cs[k].next, h) == sq(m0, cs[k].next, h)
  decreases h, cs.len() + 1
{
  if cs.len() > 0 {
    let a = cs.drop_last(); let c = cs.last().next;
    assert forall|y: int| #[trigger] fps(m0, a, h).contains(y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(fps(m0, cs, h).contains(y)); }
    assert forall|y: int| #[trigger] fp(m0, c, h).contains(y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(fps(m0, cs, h).contains(y)); }
    lemma_keepc(m0, m, l, a, h); lemma_keep(m0, m, l, c, h);
    assert forall|k: int| 0 <= k < cs.len() implies #[trigger] sq(m, cs[k].next, h) == sq(m0, cs[k].next, h) by { if k < cs.len() - 1 { assert(sq(m, a[k].next, h) == sq(m0, a[k].next, h)); } }
  }
}
pub proof fn lemma_keep<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, h: int)
  requires okn(m0, l, x, h), forall|y: int| #[trigger] fp(m0, x, h).contains(y) ==> m.dom().contains(y) && m[y] == m0[y]
  ensures okn(m, l, x, h), sq(m, x, h) == sq(m0, x, h), fp(m, x, h) == fp(m0, x, h), m[x] == m0[x]
  decreases h, 1nat
{
  assert(fp(m0, x, h).contains(x));
  if h > 0 {
    let cs = own(m0[x]);
    assert forall|y: int| #[trigger] fps(m0, cs, h - 1).contains(y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(fp(m0, x, h).contains(y)); }
    lemma_keepc(m0, m, l, cs, h - 1);
    assert forall|k: int| 1 <= k < cs.len() implies #[trigger] sep1(m, l, cs, h - 1, k) by { assert(sep1(m0, l, cs, h - 1, k)); assert(sq(m, cs[k].next, h - 1) == sq(m0, cs[k].next, h - 1) && sq(m, cs[k - 1].next, h - 1) == sq(m0, cs[k - 1].next, h - 1)); }
  }
}
// the node x itself may have changed, what lies below has not
pub proof fn lemma_keepx<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, cs: Seq<entry<K, V>>, h: int)
  requires okx(m0, l, x, cs, h), forall|y: int| #[trigger] fpc(m0, cs, h).contains(y) ==> m.dom().contains(y) && m[y] == m0[y]
  ensures okx(m, l, x, cs, h), sqc(m, cs, h) == sqc(m0, cs, h), fpc(m, cs, h) == fpc(m0, cs, h)
{
  if h > 0 {
    assert forall|y: int| #[trigger] fps(m0, cs, h - 1).contains(y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(fpc(m0, cs, h).contains(y)); }
    lemma_keepc(m0, m, l, cs, h - 1);
    assert forall|k: int| 1 <= k < cs.len() implies #[trigger] sep1(m, l, cs, h - 1, k) by { assert(sep1(m0, l, cs, h - 1, k)); assert(sq(m, cs[k].next, h - 1) == sq(m0, cs[k].next, h - 1) && sq(m, cs[k - 1].next, h - 1) == sq(m0, cs[k - 1].next, h - 1)); }
  }
}
pub proof fn lemma_sort3<K, V>(a: Seq<(K, V, bool)>, b: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool)
  requires sort3(a + b, l)
  ensures sort3(a, l), sort3(b, l), forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> l((#[trigger] a[i]).0, (#[trigger] b[j]).0)
{
  let q = a + b;
  assert forall|i: int, j: int| 0 <= i < j < a.len() implies l((#[trigger] a[i]).0, (#[trigger] a[j]).0) by { assert(q[i] == a[i] && q[j] == a[j]); }
  assert forall|i: int, j: int| 0 <= i < j < b.len() implies l((#[trigger] b[i]).0, (#[trigger] b[j]).0) by { assert(q[a.len() + i] == b[i] && q[a.len() + j] == b[j]); }
  assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies l((#[trigger] a[i]).0, (#[trigger] b[j]).0) by { assert(q[i] == a[i] && q[a.len() + j] == b[j]); }
}
pub proof fn lemma_sort_mid<K, V>(a: Seq<(K, V, bool)>, c: Seq<(K, V, bool)>, b: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool)
  requires sort3(a + c + b, l)
  ensures sort3(a, l), sort3(c, l), sort3(b, l), sort3(a + c, l)
{ lemma_sort3(a + c, b, l); lemma_sort3(a, c, l); }
// everything before the separator is below it
pub proof fn lemma_below<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, j: int)
  requires okc(m, l, cs, h), seps(m, l, cs, h), strict_weak(l), sort3(cat(m, cs, h), l), 1 <= j < cs.len()
  ensures lo(cat(m, cs.take(j), h), l, cs[j].key), hi(cat(m, cs.skip(j), h), l, cs[j].key)
{
  assert(sep1(m, l, cs, h, j)); let k = cs[j].key;
  let a = cs.take(j); let b = cs.skip(j);
  assert(cs =~= a + b); lemma_cat(m, l, a, b, h); lemma_sort3(cat(m, a, h), cat(m, b, h), l);
  lemma_domc(m, l, a, h); lemma_domc(m, l, b, h); lemma_domc(m, l, cs, h);
  let d = a.last().next; assert(a.last() == cs[j - 1]); lemma_dom(m, l, cs[j - 1].next, h);
  assert(cat(m, a, h) == cat(m, a.drop_last(), h) + sq(m, d, h));
  let q = cat(m, a, h); let n = q.len() as int;
  assert(q[n - 1] == sq(m, d, h)[sq(m, d, h).len() - 1]);
  assert forall|i: int| 0 <= i < n implies l((#[trigger] q[i]).0, k) by { if i < n - 1 { assert(l(q[i].0, q[n - 1].0)); } }
  lemma_mid(m, l, b, h, 0); assert(b.take(0) =~= Seq::empty()); assert(b[0] == cs[j]); lemma_dom(m, l, cs[j].next, h);
  let p = cat(m, b, h); let c = sq(m, cs[j].next, h);
  assert(p =~= c + cat(m, b.skip(1), h)); assert(p[0] == c[0]);
  assert forall|i: int| 0 <= i < p.len() implies !l((#[trigger] p[i]).0, k) by { if i > 0 { assert(l(p[0].0, p[i].0)); assert(!l(p[0].0, k)); let y = p[i]; let z = p[0]; if l(y.0, k) { assert(l(z.0, k)); } } }
}
// where a search for key descends
pub proof fn lemma_find<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, j: int, key: K)
  requires okc(m, l, cs, h), seps(m, l, cs, h), strict_weak(l), sort3(cat(m, cs, h), l), 0 <= j < cs.len(), j > 0 ==> !l(key, cs[j].key), j + 1 < cs.len() ==> l(key, cs[j + 1].key)
  ensures lo(cat(m, cs.take(j), h), l, key), above(cat(m, cs.skip(j + 1), h), l, key)
{
  if j > 0 { lemma_below(m, l, cs, h, j); let q = cat(m, cs.take(j), h); assert forall|i: int| 0 <= i < q.len() implies l((#[trigger] q[i]).0, key) by { let x = q[i]; let k = cs[j].key; assert(l(x.0, k)); if !l(x.0, key) { if l(key, x.0) { assert(l(key, k)); } } } }
  else { assert(cs.take(j) =~= Seq::empty()); }
  if j + 1 < cs.len() { lemma_below(m, l, cs, h, j + 1); let q = cat(m, cs.skip(j + 1), h); assert forall|i: int| 0 <= i < q.len() implies l(key, (#[trigger] q[i]).0) by { let x = q[i]; let k = cs[j + 1].key; assert(!l(x.0, k)); if !l(key, x.0) { if l(x.0, key) { assert(l(x.0, k)); } } } }
  else { assert(cs.skip(j + 1) =~= Seq::empty()); }
}
pub proof fn lemma_got<K, V>(a: Seq<(K, V, bool)>, c: Seq<(K, V, bool)>, b: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, key: K, v: V, f: bool)
  requires lo(a, l, key), above(b, l, key), got(c, l, key, v, f)
  ensures got(a + c + b, l, key, v, f)
{
  let q = a + c + b; let n = a.len() as int;
  if f { let i = choose|i: int| #[trigger] at(c, l, key, i) && c[i].2 && c[i].1 == v; assert(q[n + i] == c[i]); assert(at(q, l, key, n + i)); }
  else { assert forall|i: int| #[trigger] at(q, l, key, i) implies !q[i].2 by { if i < n { assert(q[i] == a[i]); } else if i < n + c.len() { assert(q[i] == c[i - n]); assert(at(c, l, key, i - n)); } else { assert(q[i] == b[i - n - c.len()]); } } }
}
pub proof fn lemma_ins<K, V>(a: Seq<(K, V, bool)>, c: Seq<(K, V, bool)>, c2: Seq<(K, V, bool)>, b: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, key: K, v: V, f: bool)
  requires lo(a, l, key), above(b, l, key), ins(c, c2, l, key, v, f)
  ensures ins(a + c + b, a + c2 + b, l, key, v, f)
{
  let q = a + c + b; let q2 = a + c2 + b; let n = a.len() as int;
  let i0 = choose|i: int| #[trigger] ins_at(c, c2, l, key, v, f, i); let i = i0 + n;
  assert forall|j: int| 0 <= j < i implies l((#[trigger] q[j]).0, key) by { if j < n { assert(q[j] == a[j]); } else { assert(q[j] == c[j - n]); } }
  if i0 < c.len() && eqv(l, c[i0].0, key) { assert(q[i] == c[i0]); assert(q2[i] == c2[i0]); assert(q2 =~= q.update(i, (q2[i].0, v, f))); }
  else {
    assert forall|j: int| i <= j < q.len() implies l(key, (#[trigger] q[j]).0) by { if j < n + c.len() { assert(q[j] == c[j - n]); } else { assert(q[j] == b[j - n - c.len()]); } }
    assert(q2 =~= q.insert(i, (key, v, f)));
  }
  assert(ins_at(q, q2, l, key, v, f, i));
}
pub proof fn lemma_ins_keys<K, V>(q: Seq<(K, V, bool)>, q2: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, key: K, v: V, f: bool)
  requires ins(q, q2, l, key, v, f), strict_weak(l), sort3(q, l)
  ensures sort3(q2, l), q2.len() > 0, forall|k: K| #![trigger lo(q2, l, k)] lo(q, l, k) && l(key, k) ==> lo(q2, l, k), forall|k: K| #![trigger hi(q2, l, k)] hi(q, l, k) && !l(key, k) ==> hi(q2, l, k)
{
  let i = choose|i: int| #[trigger] ins_at(q, q2, l, key, v, f, i);
  let up = i < q.len() && eqv(l, q[i].0, key);
  assert forall|a: int, b: int| 0 <= a < b < q2.len() implies l((#[trigger] q2[a]).0, (#[trigger] q2[b]).0) by {
    if up { assert(l(q[a].0, q[b].0)); let x = q2[a]; let y = q2[b]; let z = q[i]; }
    else { let x = if a < i { q[a] } else { q[a - 1] }; let y = if b < i { q[b] } else { q[b - 1] }; }
  }
  assert forall|k: K| #![trigger lo(q2, l, k)] lo(q, l, k) && l(key, k) implies lo(q2, l, k) by {
    assert forall|j: int| 0 <= j < q2.len() implies l((#[trigger] q2[j]).0, k) by { if up { let z = q[j]; let w = q[i]; } else { let z = if j < i { q[j] } else if j > i { q[j - 1] } else { q2[j] }; } } }
  assert forall|k: K| #![trigger hi(q2, l, k)] hi(q, l, k) && !l(key, k) implies hi(q2, l, k) by {
    assert forall|j: int| 0 <= j < q2.len() implies !l((#[trigger] q2[j]).0, k) by { if up { let z = q[j]; let w = q[i]; } else { let z = if j < i { q[j] } else if j > i { q[j - 1] } else { q2[j] }; } } }
}

// the entries of a leaf, or of the subtree below the child the search picked
pub proof fn lemma_leaf<K, V>(cs: Seq<entry<K, V>>, l: spec_fn(K, K) -> bool, j: int)
  requires sort3(lq(cs), l), strict_weak(l)
  ensures forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> lq(cs)[i] == (cs[i].key, cs[i].val, cs[i].valid)
{}
pub proof fn lemma_leaf_hit<K, V>(cs: Seq<entry<K, V>>, l: spec_fn(K, K) -> bool, key: K, j: int)
  requires sort3(lq(cs), l), strict_weak(l), 0 <= j < cs.len(), eqv(l, cs[j].key, key)
  ensures got(lq(cs), l, key, cs[j].val, cs[j].valid)
{
  let q = lq(cs);
  assert(at(q, l, key, j));
  if !cs[j].valid { assert forall|i: int| #[trigger] at(q, l, key, i) implies !q[i].2 by { let x = q[i]; let y = q[j]; if i < j { assert(l(q[i].0, q[j].0)); } else if j < i { assert(l(q[j].0, q[i].0)); } } }
}
pub open spec fn out<K, V>(m: Map<int, node<K, V>>, n: int, r: int, h: int) -> Seq<(K, V, bool)> { if r == 0 { sq(m, n, h) } else { sq(m, n, h) + sq(m, r, h) } }
pub open spec fn grow<K, V>(cs: Seq<entry<K, V>>, j: int, e: entry<K, V>, u: int) -> Seq<entry<K, V>> { if u == 0 { cs } else { cs.insert(j + 1, e) } }
pub proof fn lemma_child_seps<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, j: int, u: int, e: entry<K, V>, key: K, v: V, f: bool)
  requires seps(m0, l, cs, h), strict_weak(l), 0 <= j < cs.len(), j > 0 ==> !l(key, cs[j].key), j + 1 < cs.len() ==> l(key, cs[j + 1].key), sort3(sq(m0, cs[j].next, h), l),
    forall|k: int| 0 <= k < cs.len() && k != j ==> #[trigger] sq(m1, cs[k].next, h) == sq(m0, cs[k].next, h),
    ({ let c = cs[j].next; ins(sq(m0, c, h), out(m1, c, u, h), l, key, v, f) && (u != 0 ==> e.next == u && lo(sq(m1, c, h), l, e.key) && hi(sq(m1, u, h), l, e.key)) })
  ensures seps(m1, l, grow(cs, j, e, u), h)
{
  let c = cs[j].next; let cs2 = grow(cs, j, e, u); let o = out(m1, c, u, h);
  lemma_ins_keys(sq(m0, c, h), o, l, key, v, f);
  assert forall|k: int| 1 <= k < cs2.len() implies #[trigger] sep1(m1, l, cs2, h, k) by {
    if k < j { assert(sep1(m0, l, cs, h, k)); assert(cs2[k] == cs[k] && cs2[k - 1] == cs[k - 1]); assert(sq(m1, cs[k].next, h) == sq(m0, cs[k].next, h) && sq(m1, cs[k - 1].next, h) == sq(m0, cs[k - 1].next, h)); }
    else if k == j { assert(sep1(m0, l, cs, h, k)); assert(cs2[k] == cs[k] && cs2[k - 1] == cs[k - 1]); assert(sq(m1, cs[k - 1].next, h) == sq(m0, cs[k - 1].next, h)); assert(hi(o, l, cs[k].key));
      assert forall|i: int| 0 <= i < sq(m1, c, h).len() implies !l((#[trigger] sq(m1, c, h)[i]).0, cs[k].key) by { assert(o[i] == sq(m1, c, h)[i]); } }
    else if u != 0 && k == j + 1 { assert(cs2[k] == e && cs2[k - 1] == cs[j]); }
    else {
      let g = if u == 0 { k } else { k - 1 };
      assert(sep1(m0, l, cs, h, g)); assert(cs2[k] == cs[g]); assert(sq(m1, cs[g].next, h) == sq(m0, cs[g].next, h));
      if g == j + 1 { assert(lo(o, l, cs[g].key)); let w = cs2[k - 1].next;
        assert forall|i: int| 0 <= i < sq(m1, w, h).len() implies l((#[trigger] sq(m1, w, h)[i]).0, cs[g].key) by { if u == 0 { assert(w == c); assert(o[i] == sq(m1, w, h)[i]); } else { assert(w == u); assert(o[sq(m1, c, h).len() + i] == sq(m1, w, h)[i]); } } }
      else { assert(cs2[k - 1] == cs[g - 1]); assert(sq(m1, cs[g - 1].next, h) == sq(m0, cs[g - 1].next, h)); }
    }
  }
}
pub proof fn lemma_sets(d: Set<int>, a: Set<int>, c: Set<int>, b: Set<int>, c1: Set<int>, u1: Set<int>)
  requires a.disjoint(c), a.union(c).disjoint(b), a.subset_of(d), b.subset_of(d), c.subset_of(d), forall|y: int| #[trigger] c1.contains(y) ==> c.contains(y) || !d.contains(y), forall|y: int| #[trigger] u1.contains(y) ==> c.contains(y) || !d.contains(y), c1.disjoint(u1)
  ensures a.disjoint(c1), a.union(c1).disjoint(u1), a.union(c1).disjoint(b), a.union(c1).union(u1).disjoint(b), forall|y: int| #[trigger] a.union(c1).union(u1).union(b).contains(y) ==> a.union(c).union(b).contains(y) || !d.contains(y)
{
  assert forall|w: int| #[trigger] a.contains(w) implies !c1.contains(w) && !u1.contains(w) && !b.contains(w) by { assert(d.contains(w)); assert(!c.contains(w)); assert(a.union(c).contains(w)); }
  assert forall|w: int| #[trigger] b.contains(w) implies !c1.contains(w) && !u1.contains(w) by { assert(d.contains(w)); if c.contains(w) { assert(a.union(c).contains(w)); } }
}
pub proof fn lemma_child_keep<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, j: int)
  requires okc(m0, l, cs, h), 0 <= j < cs.len(), fr(m0, m1, fp(m0, cs[j].next, h))
  ensures ({ let a = cs.take(j); let b = cs.skip(j + 1); let c = cs[j].next; okc(m0, l, a, h) && okc(m0, l, b, h) && okn(m0, l, c, h) && okc(m1, l, a, h) && okc(m1, l, b, h) && cat(m1, a, h) == cat(m0, a, h) && cat(m1, b, h) == cat(m0, b, h) && fps(m1, a, h) == fps(m0, a, h) && fps(m1, b, h) == fps(m0, b, h)
      && cat(m0, cs, h) == cat(m0, a, h) + sq(m0, c, h) + cat(m0, b, h) && fps(m0, cs, h) == fps(m0, a, h).union(fp(m0, c, h)).union(fps(m0, b, h)) && fps(m0, a, h).disjoint(fp(m0, c, h)) && fps(m0, a, h).union(fp(m0, c, h)).disjoint(fps(m0, b, h)) }),
    forall|k: int| 0 <= k < cs.len() && k != j ==> #[trigger] sq(m1, cs[k].next, h) == sq(m0, cs[k].next, h)
{
  let c = cs[j].next; let a = cs.take(j); let b = cs.skip(j + 1);
  lemma_mid(m0, l, cs, h, j); lemma_domc(m0, l, a, h); lemma_domc(m0, l, b, h);
  assert forall|y: int| #[trigger] fps(m0, a, h).contains(y) implies m1.dom().contains(y) && m1[y] == m0[y] by { assert(m0.dom().contains(y)); assert(!fp(m0, c, h).contains(y)); }
  assert forall|y: int| #[trigger] fps(m0, b, h).contains(y) implies m1.dom().contains(y) && m1[y] == m0[y] by { assert(m0.dom().contains(y)); if fp(m0, c, h).contains(y) { assert(fps(m0, a, h).union(fp(m0, c, h)).contains(y)); } }
  lemma_keepc(m0, m1, l, a, h); lemma_keepc(m0, m1, l, b, h);
  assert forall|k: int| 0 <= k < cs.len() && k != j implies #[trigger] sq(m1, cs[k].next, h) == sq(m0, cs[k].next, h) by { if k < j { assert(a[k] == cs[k]); assert(sq(m1, a[k].next, h) == sq(m0, a[k].next, h)); } else { assert(b[k - j - 1] == cs[k]); assert(sq(m1, b[k - j - 1].next, h) == sq(m0, b[k - j - 1].next, h)); } }
}
pub proof fn lemma_child_join<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, j: int, u: int, e: entry<K, V>)
  requires h >= 0, 0 <= j < cs.len(), ({ let a = cs.take(j); let b = cs.skip(j + 1); let c = cs[j].next; let fu = if u == 0 { Set::<int>::empty() } else { fp(m, u, h) };
      okc(m, l, a, h) && okc(m, l, b, h) && okn(m, l, c, h) && m[c].m >= 1 && (u != 0 ==> e.next == u && okn(m, l, u, h) && m[u].m >= 1) && fps(m, a, h).disjoint(fp(m, c, h)) && fps(m, a, h).union(fp(m, c, h)).disjoint(fps(m, b, h)) && fps(m, a, h).union(fp(m, c, h)).disjoint(fu) && fps(m, a, h).union(fp(m, c, h)).union(fu).disjoint(fps(m, b, h)) })
  ensures ({ let a = cs.take(j); let b = cs.skip(j + 1); let c = cs[j].next; let fu = if u == 0 { Set::<int>::empty() } else { fp(m, u, h) }; let cs2 = grow(cs, j, e, u);
      okc(m, l, cs2, h) && cat(m, cs2, h) == cat(m, a, h) + out(m, c, u, h) + cat(m, b, h) && fps(m, cs2, h) == fps(m, a, h).union(fp(m, c, h)).union(fu).union(fps(m, b, h)) })
{
  let c = cs[j].next; let a = cs.take(j); let b = cs.skip(j + 1); let cs2 = grow(cs, j, e, u); let d = a.push(cs[j]);
  lemma_push(m, l, a, cs[j], h);
  if u == 0 { lemma_cat(m, l, d, b, h); assert(cs2 =~= d + b); assert(fps(m, d, h).union(Set::<int>::empty()) =~= fps(m, d, h)); }
  else { lemma_push(m, l, d, e, h); lemma_cat(m, l, d.push(e), b, h); assert(cs2 =~= d.push(e) + b); assert(cat(m, a, h) + out(m, c, u, h) =~= (cat(m, a, h) + sq(m, c, h)) + sq(m, u, h)); }
}
// the child at j was rewritten, and a new sibling with entry e may have split off
pub proof fn lemma_child<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, cs: Seq<entry<K, V>>, h: int, j: int, u: int, e: entry<K, V>, key: K, v: V, f: bool)
  requires h >= 0, okx(m0, l, x, cs, h + 1), m0.dom().contains(x), strict_weak(l), sort3(cat(m0, cs, h), l), 0 <= j < cs.len(), j > 0 ==> !l(key, cs[j].key), j + 1 < cs.len() ==> l(key, cs[j + 1].key),
    ({ let c = cs[j].next; fr(m0, m1, fp(m0, c, h)) && from(m0, fp(m0, c, h), fp(m1, c, h)) && okn(m1, l, c, h) && m1[c].m >= 1 && ins(sq(m0, c, h), out(m1, c, u, h), l, key, v, f)
      && (u != 0 ==> e.next == u && from(m0, fp(m0, c, h), fp(m1, u, h)) && okn(m1, l, u, h) && m1[u].m >= 1 && fp(m1, c, h).disjoint(fp(m1, u, h)) && lo(sq(m1, c, h), l, e.key) && hi(sq(m1, u, h), l, e.key)) })
  ensures ({ let cs2 = grow(cs, j, e, u); okx(m1, l, x, cs2, h + 1) && ins(cat(m0, cs, h), cat(m1, cs2, h), l, key, v, f) && from(m0, fps(m0, cs, h), fps(m1, cs2, h)) }),
    fr(m0, m1, fps(m0, cs, h)), m1[x] == m0[x]
{
  let c = cs[j].next; let a = cs.take(j); let b = cs.skip(j + 1); let cs2 = grow(cs, j, e, u);
  lemma_child_keep(m0, m1, l, cs, h, j); lemma_dom(m0, l, c, h); lemma_domc(m0, l, a, h); lemma_domc(m0, l, b, h);
  lemma_find(m0, l, cs, h, j, key); lemma_sort_mid(cat(m0, a, h), sq(m0, c, h), cat(m0, b, h), l);
  let fu = if u == 0 { Set::<int>::empty() } else { fp(m1, u, h) };
  lemma_sets(m0.dom(), fps(m0, a, h), fp(m0, c, h), fps(m0, b, h), fp(m1, c, h), fu);
  lemma_child_join(m1, l, cs, h, j, u, e);
  lemma_ins(cat(m0, a, h), sq(m0, c, h), out(m1, c, u, h), cat(m0, b, h), l, key, v, f);
  lemma_child_seps(m0, m1, l, cs, h, j, u, e, key, v, f);
  assert(!fps(m1, cs2, h).contains(x));
}
// x now holds the entries cs2
pub proof fn lemma_fin<K, V>(m1: Map<int, node<K, V>>, m2: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, cs2: Seq<entry<K, V>>, h: int)
  requires okx(m1, l, x, cs2, h), x != 0, m2 =~= m1.insert(x, m2[x]), own(m2[x]) == cs2, m2[x].children.len() == 64, 0 <= m2[x].m < 64
  ensures okn(m2, l, x, h), sq(m2, x, h) == sqc(m1, cs2, h), fp(m2, x, h) == fpc(m1, cs2, h).insert(x)
{ if h > 0 { lemma_domc(m1, l, cs2, h - 1); } assert(!fpc(m1, cs2, h).contains(x)); assert forall|y: int| #[trigger] fpc(m1, cs2, h).contains(y) implies m2.dom().contains(y) && m2[y] == m1[y] by {} lemma_keepx(m1, m2, l, x, cs2, h); }
pub proof fn lemma_takec<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, c: int)
  requires seps(m, l, cs, h), 0 <= c <= cs.len()
  ensures seps(m, l, cs.take(c), h), seps(m, l, cs.skip(c), h)
{
  let a = cs.take(c); let b = cs.skip(c);
  assert forall|k: int| 1 <= k < a.len() implies #[trigger] sep1(m, l, a, h, k) by { assert(sep1(m, l, cs, h, k)); assert(a[k] == cs[k] && a[k - 1] == cs[k - 1]); }
  assert forall|k: int| 1 <= k < b.len() implies #[trigger] sep1(m, l, b, h, k) by { assert(sep1(m, l, cs, h, c + k)); assert(b[k] == cs[c + k] && b[k - 1] == cs[c + k - 1]); }
}
// the entries cs2 of x were divided between x and a new node r
pub proof fn lemma_cut<K, V>(m1: Map<int, node<K, V>>, m3: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, r: int, cs2: Seq<entry<K, V>>, c: int, h: int)
  requires okx(m1, l, x, cs2, h), h >= 0, x != 0, r != 0, x != r, m1.dom().contains(x), strict_weak(l), sort3(sqc(m1, cs2, h), l), !m1.dom().contains(r), m3.dom() =~= m1.dom().insert(r), forall|y: int| #![trigger m3[y]] m1.dom().contains(y) && y != x ==> m3[y] == m1[y],
    1 <= c < cs2.len(), own(m3[x]) == cs2.take(c), own(m3[r]) == cs2.skip(c), m3[x].children.len() == 64, m3[r].children.len() == 64, 0 <= m3[x].m < 64, 0 <= m3[r].m < 64
  ensures okn(m3, l, x, h), okn(m3, l, r, h), fp(m3, x, h).disjoint(fp(m3, r, h)), sq(m3, x, h) + sq(m3, r, h) == sqc(m1, cs2, h), lo(sq(m3, x, h), l, cs2[c].key), hi(sq(m3, r, h), l, cs2[c].key),
    forall|y: int| #[trigger] fp(m3, x, h).contains(y) ==> y == x || fpc(m1, cs2, h).contains(y), forall|y: int| #[trigger] fp(m3, r, h).contains(y) ==> y == r || fpc(m1, cs2, h).contains(y)
{
  let a = cs2.take(c); let b = cs2.skip(c); assert(cs2 =~= a + b);
  if h > 0 {
    lemma_cat(m1, l, a, b, h - 1); lemma_takec(m1, l, cs2, h - 1, c); lemma_domc(m1, l, cs2, h - 1); lemma_below(m1, l, cs2, h - 1, c);
    let f = fps(m1, cs2, h - 1);
    assert(!f.contains(x) && !f.contains(r)); 
    assert(okx(m1, l, x, a, h)); assert(okx(m1, l, r, b, h));
    assert forall|y: int| #[trigger] fpc(m1, a, h).contains(y) implies m3.dom().contains(y) && m3[y] == m1[y] by { assert(f.contains(y)); }
    assert forall|y: int| #[trigger] fpc(m1, b, h).contains(y) implies m3.dom().contains(y) && m3[y] == m1[y] by { assert(f.contains(y)); }
  } else {
    assert(lq(a) + lq(b) =~= lq(cs2)); let q = lq(cs2);
    assert forall|i: int| 0 <= i < a.len() implies l((#[trigger] lq(a)[i]).0, cs2[c].key) by { assert(l(q[i].0, q[c].0)); }
    assert forall|i: int| 0 <= i < b.len() implies !l((#[trigger] lq(b)[i]).0, cs2[c].key) by { let y = q[c]; let z = q[c + i]; if i > 0 { assert(l(q[c].0, q[c + i].0)); } }
  }
  lemma_keepx(m1, m3, l, x, a, h); lemma_keepx(m1, m3, l, r, b, h);
}
pub proof fn lemma_leaf_ins<K, V>(cs: Seq<entry<K, V>>, l: spec_fn(K, K) -> bool, j: int, key: K, v: V, f: bool, cs2: Seq<entry<K, V>>)
  requires 0 <= j <= cs.len(), forall|i: int| 0 <= i < j ==> l((#[trigger] cs[i]).key, key),
    if j < cs.len() && eqv(l, cs[j].key, key) { cs2 == cs.update(j, cs2[j]) && cs2[j].val == v && cs2[j].valid == f && (cs2[j].key == key || cs2[j].key == cs[j].key) }
      else { (forall|i: int| j <= i < cs.len() ==> l(key, (#[trigger] cs[i]).key)) && cs2 == cs.insert(j, cs2[j]) && cs2[j].key == key && cs2[j].val == v && cs2[j].valid == f }
  ensures ins(lq(cs), lq(cs2), l, key, v, f)
{
  let q = lq(cs); let q2 = lq(cs2);
  assert forall|i: int| 0 <= i < j implies l((#[trigger] q[i]).0, key) by { assert(q[i].0 == cs[i].key); }
  if j < cs.len() && eqv(l, cs[j].key, key) { assert(q2 =~= q.update(j, (q2[j].0, v, f))); }
  else { assert forall|i: int| j <= i < q.len() implies l(key, (#[trigger] q[i]).0) by { assert(q[i].0 == cs[i].key); } assert(q2 =~= q.insert(j, (key, v, f))); }
  assert(ins_at(q, q2, l, key, v, f, j));
}
// the entries from j on are above key
pub proof fn lemma_leaf_above<K, V>(cs: Seq<entry<K, V>>, l: spec_fn(K, K) -> bool, j: int, key: K)
  requires sort3(lq(cs), l), strict_weak(l), 0 <= j < cs.len(), l(key, cs[j].key)
  ensures forall|i: int| j <= i < cs.len() ==> l(key, (#[trigger] cs[i]).key)
{ assert forall|i: int| j <= i < cs.len() implies l(key, (#[trigger] cs[i]).key) by { let q = lq(cs); let x = cs[j]; if i > j { assert(l(q[j].0, q[i].0)); } } }

// no entry, live or not, is order-equivalent to k
pub open spec fn none<K, V>(q: Seq<(K, V, bool)>, less: spec_fn(K, K) -> bool, k: K) -> bool { forall|i: int| !#[trigger] at(q, less, k, i) }
pub proof fn lemma_none<K, V>(a: Seq<(K, V, bool)>, c: Seq<(K, V, bool)>, b: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, key: K)
  requires lo(a, l, key), above(b, l, key), none(c, l, key)
  ensures none(a + c + b, l, key)
{
  let q = a + c + b; let n = a.len() as int;
  assert forall|i: int| !#[trigger] at(q, l, key, i) by { if at(q, l, key, i) { if i < n { assert(q[i] == a[i]); } else if i < n + c.len() { assert(q[i] == c[i - n]); assert(at(c, l, key, i - n)); } else { assert(q[i] == b[i - n - c.len()]); } } }
}
// what insert guarantees: the subtree at n, and the sibling r that split off it (if any), hold the entries with the new one put in
pub open spec fn sibling<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, r: int, h: int) -> bool {
  okn(m, l, r, h) && m[r].m >= 1 && fp(m, n, h).disjoint(fp(m, r, h)) && lo(sq(m, n, h), l, m[r].children[0].key) && hi(sq(m, r, h), l, m[r].children[0].key) && from(m0, fp(m0, n, h), fp(m, r, h))
}
pub open spec fn inserted<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, r: int, h: int, key: K, v: V, f: bool) -> bool {
  okn(m, l, n, h) && m[n].m >= 1 && ins(sq(m0, n, h), out(m, n, r, h), l, key, v, f) && fr(m0, m, fp(m0, n, h)) && from(m0, fp(m0, n, h), fp(m, n, h)) && (r != 0 ==> sibling(m0, m, l, n, r, h) && none(sq(m0, n, h), l, key))
}
// the entries of n are to be cs2, over the heap m1 in which n itself is unchanged
pub open spec fn ready<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, cs2: Seq<entry<K, V>>, h: int, key: K, v: V, f: bool) -> bool {
  h >= 0 && n != 0 && m0.dom().contains(n) && m1.dom().contains(n) && m1[n] == m0[n] && m0[n].children.len() == 64 && 0 <= m0[n].m < 64 && okx(m1, l, n, cs2, h) && ins(sq(m0, n, h), sqc(m1, cs2, h), l, key, v, f) && sort3(sqc(m1, cs2, h), l)
  && fr(m0, m1, fpc(m0, own(m0[n]), h)) && from(m0, fpc(m0, own(m0[n]), h), fpc(m1, cs2, h)) && cs2.len() > 0 && none(sq(m0, n, h), l, key)
}
pub proof fn lemma_ifr<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, r: int, h: int, key: K, v: V, f: bool)
  requires inserted(m0, m, l, n, r, h, key, v, f)
  ensures fr(m0, m, fp(m0, n, h))
{}
pub proof fn lemma_hit<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int, key: K, v: V, f: bool)
  requires h == 0, okn(m0, l, n, h), m == m0.insert(n, m[n]), m[n].m == m0[n].m, m[n].children.len() == 64, 0 <= j < own(m0[n]).len(), forall|i: int| 0 <= i < j ==> l((#[trigger] own(m0[n])[i]).key, key), eqv(l, own(m0[n])[j].key, key),
    m[n].children == m0[n].children.update(j, m[n].children[j]), m[n].children[j].val == v, m[n].children[j].valid == f, m[n].children[j].key == key || m[n].children[j].key == m0[n].children[j].key
  ensures inserted(m0, m, l, n, 0, h, key, v, f)
{ let cs = own(m0[n]); let c1 = own(m[n]); assert(c1 =~= cs.update(j, c1[j])); assert(c1[j] == m[n].children[j]); lemma_leaf_ins(cs, l, j, key, v, f, c1); lemma_fin(m0, m, l, n, c1, h); }
pub proof fn lemma_down<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int, key: K, v: V, f: bool)
  requires h > 0, okn(m0, l, n, h), strict_weak(l), sort3(sq(m0, n, h), l), 0 <= j < own(m0[n]).len(), j > 0 ==> !l(key, own(m0[n])[j].key), j + 1 < own(m0[n]).len() ==> l(key, own(m0[n])[j + 1].key),
    inserted(m0, m, l, own(m0[n])[j].next, 0, h - 1, key, v, f)
  ensures inserted(m0, m, l, n, 0, h, key, v, f)
{ let cs = own(m0[n]); lemma_child(m0, m, l, n, cs, h - 1, j, 0, cs[j], key, v, f); assert(m[n] == m0[n]); lemma_fin(m, m, l, n, cs, h); lemma_dom(m0, l, n, h); }
pub proof fn lemma_grown<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int, e: entry<K, V>, key: K, v: V, f: bool)
  requires h > 0, okn(m0, l, n, h), strict_weak(l), sort3(sq(m0, n, h), l), 0 <= j < own(m0[n]).len(), j > 0 ==> !l(key, own(m0[n])[j].key), j + 1 < own(m0[n]).len() ==> l(key, own(m0[n])[j + 1].key),
    e.next != 0, inserted(m0, m, l, own(m0[n])[j].next, e.next, h - 1, key, v, f), e.key == m[e.next].children[0].key
  ensures ready(m0, m, l, n, own(m0[n]).insert(j + 1, e), h, key, v, f), m[n] == m0[n], m.dom().contains(n)
{ let cs = own(m0[n]); lemma_child(m0, m, l, n, cs, h - 1, j, e.next, e, key, v, f); lemma_ins_keys(sq(m0, n, h), cat(m, cs.insert(j + 1, e), h - 1), l, key, v, f); lemma_mid(m0, l, cs, h - 1, j); lemma_find(m0, l, cs, h - 1, j, key); lemma_none(cat(m0, cs.take(j), h - 1), sq(m0, cs[j].next, h - 1), cat(m0, cs.skip(j + 1), h - 1), l, key); }
pub proof fn lemma_miss<K, V>(m0: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, j: int, e: entry<K, V>, key: K, v: V, f: bool)
  requires okn(m0, l, n, 0), strict_weak(l), sort3(sq(m0, n, 0), l), 0 <= j <= own(m0[n]).len(), forall|i: int| 0 <= i < j ==> l((#[trigger] own(m0[n])[i]).key, key), forall|i: int| j <= i < own(m0[n]).len() ==> l(key, (#[trigger] own(m0[n])[i]).key), e.key == key, e.val == v, e.valid == f
  ensures ready(m0, m0, l, n, own(m0[n]).insert(j, e), 0, key, v, f)
{ let cs = own(m0[n]); let c3 = cs.insert(j, e); if j < cs.len() { assert(l(key, cs[j].key)); } lemma_leaf_ins(cs, l, j, key, v, f, c3); lemma_ins_keys(lq(cs), lq(c3), l, key, v, f); assert(sq(m0, n, 0) == lq(cs)); assert forall|i: int| !#[trigger] at(lq(cs), l, key, i) by { if 0 <= i < cs.len() { assert(lq(cs)[i].0 == cs[i].key); if i < j { assert(l(cs[i].key, key)); } else { assert(l(key, cs[i].key)); } } } }
pub proof fn lemma_fit<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, cs2: Seq<entry<K, V>>, h: int, key: K, v: V, f: bool)
  requires ready(m0, m1, l, n, cs2, h, key, v, f), m =~= m1.insert(n, m[n]), own(m[n]) == cs2, m[n].children.len() == 64, 0 <= m[n].m < 64
  ensures inserted(m0, m, l, n, 0, h, key, v, f)
{ lemma_fin(m1, m, l, n, cs2, h); }
pub proof fn lemma_two<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, r: int, cs2: Seq<entry<K, V>>, h: int, key: K, v: V, f: bool)
  requires ready(m0, m1, l, n, cs2, h, key, v, f), strict_weak(l), r != 0, !m1.dom().contains(r), m.dom() =~= m1.dom().insert(r), forall|y: int| #![trigger m[y]] m1.dom().contains(y) && y != n ==> m[y] == m1[y],
    1 <= m[n].m < cs2.len(), own(m[n]) == cs2.take(m[n].m), own(m[r]) == cs2.skip(m[n].m), m[n].children.len() == 64, m[r].children.len() == 64, 0 <= m[n].m < 64, 1 <= m[r].m < 64
  ensures inserted(m0, m, l, n, r, h, key, v, f)
{ let c = m[n].m; lemma_cut(m1, m, l, n, r, cs2, c, h); assert(m[r].children[0] == own(m[r])[0]); assert(m[r].children[0] == cs2[c]); }
pub proof fn lemma_facts<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int)
  requires okn(m, l, n, h)
  ensures h >= 0, n != 0, m.dom().contains(n), m[n].children.len() == 64, 0 <= m[n].m < 64, own(m[n]).len() == m[n].m, h > 0 ==> m[n].m > 0
{ lemma_dom(m, l, n, h); }
pub proof fn lemma_above<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, j: int, key: K)
  requires okn(m, l, n, 0), sort3(sq(m, n, 0), l), strict_weak(l), 0 <= j < own(m[n]).len(), l(key, own(m[n])[j].key)
  ensures forall|i: int| j <= i < own(m[n]).len() ==> l(key, (#[trigger] own(m[n])[i]).key)
{ lemma_leaf_above(own(m[n]), l, j, key); }
pub proof fn lemma_below_child<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int)
  requires okn(m, l, n, h), sort3(sq(m, n, h), l), strict_weak(l), 0 <= j < own(m[n]).len(), h > 0
  ensures okn(m, l, own(m[n])[j].next, h - 1), sort3(sq(m, own(m[n])[j].next, h - 1), l)
{ let cs = own(m[n]); lemma_mid(m, l, cs, h - 1, j); lemma_sort_mid(cat(m, cs.take(j), h - 1), sq(m, cs[j].next, h - 1), cat(m, cs.skip(j + 1), h - 1), l); }

// ---- the live entries in increasing key order: what a tree stands for
pub open spec fn live<K, V>(q: Seq<(K, V, bool)>) -> Seq<(K, V)> decreases q.len() { if q.len() == 0 { Seq::empty() } else if q.last().2 { live(q.drop_last()).push((q.last().0, q.last().1)) } else { live(q.drop_last()) } }
pub open spec fn sorted<K, V>(q: Seq<(K, V)>, less: spec_fn(K, K) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> less((#[trigger] q[i]).0, (#[trigger] q[j]).0) }
pub open spec fn put_at<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V, i: int) -> bool {
  0 <= i <= q.len() && (forall|j: int| 0 <= j < i ==> less((#[trigger] q[j]).0, k)) && if i < q.len() && eqv(less, q[i].0, k) { q2 == q.update(i, (q2[i].0, v)) && eqv(less, q2[i].0, k) }
    else { (forall|j: int| i <= j < q.len() ==> less(k, (#[trigger] q[j]).0)) && q2 == q.insert(i, (q2[i].0, v)) && eqv(less, q2[i].0, k) }
}
// q2 is q with the value of the entry order-equivalent to k replaced, or with a new entry in its place in the order
pub open spec fn put<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V) -> bool { exists|i: int| #[trigger] put_at(q, q2, less, k, v, i) }
pub open spec fn holds_key<K, V>(q: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K) -> bool { exists|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) }
pub open spec fn del<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K) -> bool {
  if holds_key(q, less, k) { exists|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) && q2 == q.remove(i) } else { q2 == q }
}
pub proof fn lemma_live_push<K, V>(q: Seq<(K, V, bool)>, x: (K, V, bool))
  ensures live(q.push(x)) == (if x.2 { live(q).push((x.0, x.1)) } else { live(q) })
{ assert(q.push(x).drop_last() =~= q); }
pub proof fn lemma_live_cat<K, V>(a: Seq<(K, V, bool)>, b: Seq<(K, V, bool)>)
  ensures live(a + b) == live(a) + live(b)
  decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(live(a) + live(b) =~= live(a)); } else { let c = b.drop_last(); lemma_live_cat(a, c); assert(a + b =~= (a + c).push(b.last())); lemma_live_push(a + c, b.last()); assert(live(a) + live(b) =~= live(a + b)); } }
pub proof fn lemma_live_one<K, V>(a: Seq<(K, V, bool)>, x: (K, V, bool), b: Seq<(K, V, bool)>)
  ensures live(a.push(x) + b) == (if x.2 { live(a).push((x.0, x.1)) + live(b) } else { live(a) + live(b) })
{ lemma_live_push(a, x); lemma_live_cat(a.push(x), b); }
pub proof fn lemma_live_has<K, V>(q: Seq<(K, V, bool)>)
  ensures forall|j: int| 0 <= j < live(q).len() ==> q.contains(((#[trigger] live(q)[j]).0, live(q)[j].1, true)), forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).2 ==> live(q).contains((q[i].0, q[i].1))
  decreases q.len()
{
  if q.len() > 0 {
    let p = q.drop_last(); let n = q.len() - 1; lemma_live_has(p);
    assert forall|j: int| 0 <= j < live(q).len() implies q.contains(((#[trigger] live(q)[j]).0, live(q)[j].1, true)) by {
      if j < live(p).len() { assert(live(q)[j] == live(p)[j]); let t = (live(p)[j].0, live(p)[j].1, true); let i = choose|i: int| 0 <= i < p.len() && p[i] == t; assert(q[i] == t); } else { assert(q[n] == (live(q)[j].0, live(q)[j].1, true)); } }
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).2 implies live(q).contains((q[i].0, q[i].1)) by {
      if i < n { assert(p[i] == q[i]); let t = (q[i].0, q[i].1); let j = choose|j: int| 0 <= j < live(p).len() && live(p)[j] == t; assert(live(q)[j] == t); } else { assert(live(q)[live(q).len() - 1] == (q[i].0, q[i].1)); } }
  }
}
pub proof fn lemma_live_sorted<K, V>(q: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool)
  requires sort3(q, l)
  ensures sorted(live(q), l)
  decreases q.len()
{
  if q.len() > 0 {
    let p = q.drop_last(); let n = q.len() - 1; assert(q =~= p + seq![q[n]]); lemma_sort3(p, seq![q[n]], l); lemma_live_sorted(p, l); lemma_live_has(p);
    assert forall|i: int, j: int| 0 <= i < j < live(q).len() implies l((#[trigger] live(q)[i]).0, (#[trigger] live(q)[j]).0) by {
      assert(live(q)[i] == live(p)[i]);
      if j < live(p).len() { assert(live(q)[j] == live(p)[j]); } else { let t = (live(p)[i].0, live(p)[i].1, true); let a = choose|a: int| 0 <= a < p.len() && p[a] == t; assert(l(q[a].0, q[n].0)); } }
  }
}
pub proof fn lemma_live_got<K, V>(q: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K, v: V, f: bool)
  requires got(q, l, k, v, f)
  ensures f == holds_key(live(q), l, k), f ==> exists|i: int| 0 <= i < live(q).len() && eqv(l, (#[trigger] live(q)[i]).0, k) && v == live(q)[i].1
{
  lemma_live_has(q);
  if f { let i = choose|i: int| #[trigger] at(q, l, k, i) && q[i].2 && q[i].1 == v; assert(live(q).contains((q[i].0, q[i].1))); let j = choose|j: int| 0 <= j < live(q).len() && live(q)[j] == (q[i].0, q[i].1); assert(eqv(l, live(q)[j].0, k)); }
  else if holds_key(live(q), l, k) { let j = choose|j: int| 0 <= j < live(q).len() && eqv(l, (#[trigger] live(q)[j]).0, k); let t = (live(q)[j].0, live(q)[j].1, true); let i = choose|i: int| 0 <= i < q.len() && q[i] == t; assert(at(q, l, k, i)); }
}
pub proof fn lemma_live_lo<K, V>(a: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K)
  ensures lo(a, l, k) ==> forall|j: int| 0 <= j < live(a).len() ==> l((#[trigger] live(a)[j]).0, k), above(a, l, k) ==> forall|j: int| 0 <= j < live(a).len() ==> l(k, (#[trigger] live(a)[j]).0)
{
  lemma_live_has(a); let g = live(a);
  assert forall|j: int| 0 <= j < g.len() implies (lo(a, l, k) ==> l((#[trigger] g[j]).0, k)) && (above(a, l, k) ==> l(k, g[j].0)) by { let t = (g[j].0, g[j].1, true); let c = choose|c: int| 0 <= c < a.len() && a[c] == t; assert(a[c].0 == g[j].0); }
}
pub proof fn lemma_seq_hit<K, V>(g: Seq<(K, V)>, la: Seq<(K, V)>, x: (K, V), lb: Seq<(K, V)>, y: K, l: spec_fn(K, K) -> bool, k: K, v: V)
  requires g == la.push(x) + lb, eqv(l, x.0, k), eqv(l, y, k), forall|j: int| 0 <= j < la.len() ==> l((#[trigger] la[j]).0, k)
  ensures holds_key(g, l, k), put(g, la.push((y, v)) + lb, l, k, v), del(g, la + lb, l, k)
{
  let n = la.len() as int; let g2 = la.push((y, v)) + lb; assert(g[n] == x);
  assert forall|j: int| 0 <= j < n implies l((#[trigger] g[j]).0, k) by { assert(g[j] == la[j]); }
  assert(g2[n] == (y, v)); assert(g2 =~= g.update(n, (y, v))); assert(put_at(g, g2, l, k, v, n)); assert(la + lb =~= g.remove(n));
}
pub proof fn lemma_seq_miss<K, V>(g: Seq<(K, V)>, la: Seq<(K, V)>, lb: Seq<(K, V)>, y: K, l: spec_fn(K, K) -> bool, k: K, v: V)
  requires g == la + lb, eqv(l, y, k), forall|j: int| 0 <= j < la.len() ==> l((#[trigger] la[j]).0, k), forall|j: int| 0 <= j < lb.len() ==> l(k, (#[trigger] lb[j]).0)
  ensures !holds_key(g, l, k), put(g, la.push((y, v)) + lb, l, k, v), del(g, la + lb, l, k)
{
  let n = la.len() as int; let g2 = la.push((y, v)) + lb;
  assert forall|j: int| 0 <= j < n implies l((#[trigger] g[j]).0, k) by { assert(g[j] == la[j]); }
  assert forall|j: int| n <= j < g.len() implies l(k, (#[trigger] g[j]).0) by { assert(g[j] == lb[j - n]); }
  assert(g2[n] == (y, v)); assert(g2 =~= g.insert(n, (y, v))); assert(put_at(g, g2, l, k, v, n));
}
pub proof fn lemma_ins_parts<K, V>(q: Seq<(K, V, bool)>, q2: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K, v: V, f: bool, i: int)
  requires sort3(q, l), strict_weak(l), ins_at(q, q2, l, k, v, f, i)
  ensures ({ let up = i < q.len() && eqv(l, q[i].0, k); let a = q.take(i); let b = if up { q.skip(i + 1) } else { q.skip(i) };
      lo(a, l, k) && above(b, l, k) && q2 == a.push((q2[i].0, v, f)) + b && eqv(l, q2[i].0, k) && if up { q == a.push(q[i]) + b } else { q == a + b } })
{
  let up = i < q.len() && eqv(l, q[i].0, k); let a = q.take(i); let b = if up { q.skip(i + 1) } else { q.skip(i) };
  assert forall|c: int| 0 <= c < b.len() implies l(k, (#[trigger] b[c]).0) by { let d = if up { i + 1 + c } else { i + c }; assert(b[c] == q[d]); if up { assert(l(q[i].0, q[d].0)); let z = q[i].0; } }
  assert(q2 =~= a.push((q2[i].0, v, f)) + b);
  if up { assert(q =~= a.push(q[i]) + b); } else { assert(q =~= a + b); }
}
pub proof fn lemma_live_ins<K, V>(q: Seq<(K, V, bool)>, q2: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K, v: V, f: bool)
  requires sort3(q, l), strict_weak(l), ins(q, q2, l, k, v, f)
  ensures f ==> put(live(q), live(q2), l, k, v), !f ==> del(live(q), live(q2), l, k), live(q2).len() == live(q).len() + (if f { 1int } else { 0 }) - (if holds_key(live(q), l, k) { 1int } else { 0 })
{
  let i = choose|i: int| #[trigger] ins_at(q, q2, l, k, v, f, i); lemma_ins_parts(q, q2, l, k, v, f, i);
  let up = i < q.len() && eqv(l, q[i].0, k); let a = q.take(i); let b = if up { q.skip(i + 1) } else { q.skip(i) };
  let y = q2[i].0;
  lemma_live_lo(a, l, k); lemma_live_lo(b, l, k); lemma_live_one(a, (y, v, f), b);
  if up { lemma_live_one(a, q[i], b); } else { lemma_live_cat(a, b); }
  if up && q[i].2 { lemma_seq_hit(live(q), live(a), (q[i].0, q[i].1), live(b), y, l, k, v); } else { lemma_seq_miss(live(q), live(a), live(b), y, l, k, v); }
}
pub proof fn lemma_live_at<K, V>(q: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K)
  requires holds_key(live(q), l, k)
  ensures !none(q, l, k)
{ lemma_live_has(q); let j = choose|j: int| 0 <= j < live(q).len() && eqv(l, (#[trigger] live(q)[j]).0, k); let t = (live(q)[j].0, live(q)[j].1, true); let i = choose|i: int| 0 <= i < q.len() && q[i] == t; assert(at(q, l, k, i)); }
// ---- a whole tree
pub open spec fn all<K, V>(s: S<K, V>, p: int) -> Seq<(K, V, bool)> { sq(s.node, s.Tree[p].root, s.Tree[p].height) }
pub open spec fn view<K, V>(s: S<K, V>, p: int) -> Seq<(K, V)> { live(all(s, p)) }
pub open spec fn nodes<K, V>(s: S<K, V>, p: int) -> Set<int> { fp(s.node, s.Tree[p].root, s.Tree[p].height) }
pub open spec fn wf<K, V>(s: S<K, V>, p: int) -> bool {
  &&& p != 0 && s.Tree.dom().contains(p) && strict_weak(s.Tree[p].less)
  &&& okn(s.node, s.Tree[p].less, s.Tree[p].root, s.Tree[p].height) && sort3(all(s, p), s.Tree[p].less) && s.Tree[p].n == view(s, p).len()
}
pub open spec fn separate<K, V>(s: S<K, V>, p: int, q: int) -> bool { p != q && nodes(s, p).disjoint(nodes(s, q)) }
// every other tree that shares no node with p stays as it is and still shares none
pub open spec fn others_kept<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q) && s.Tree[q] == s0.Tree[q]
}
pub proof fn lemma_kept<K, V>(s0: S<K, V>, s: S<K, V>, p: int)
  requires wf(s0, p), fr(s0.node, s.node, nodes(s0, p)), from(s0.node, nodes(s0, p), nodes(s, p)), s.Tree =~= s0.Tree.insert(p, s.Tree[p])
  ensures others_kept(s0, s, p)
{
  assert forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) implies wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q) && s.Tree[q] == s0.Tree[q] by {
    let t = s0.Tree[q]; let f = nodes(s0, q); lemma_dom(s0.node, t.less, t.root, t.height);
    assert forall|y: int| #[trigger] f.contains(y) implies s.node.dom().contains(y) && s.node[y] == s0.node[y] by { assert(!nodes(s0, p).contains(y)); }
    lemma_keep(s0.node, s.node, t.less, t.root, t.height);
    assert forall|y: int| #[trigger] nodes(s, p).contains(y) implies !nodes(s, q).contains(y) by { }
  }
}
// the root split: a new root over the old one and its sibling
pub proof fn lemma_newroot<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m2: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, u: int, w: int, h: int)
  requires okn(m1, l, n, h), m1[n].m >= 1, u != 0, sibling(m0, m1, l, n, u, h), from(m0, fp(m0, n, h), fp(m1, n, h)), fr(m0, m1, fp(m0, n, h)), !m1.dom().contains(w), w != 0, m2 =~= m1.insert(w, m2[w]), m2[w].m == 2, m2[w].children.len() == 64, m2[w].children[0].next == n, m2[w].children[1].next == u, m2[w].children[1].key == m1[u].children[0].key
  ensures okn(m2, l, w, h + 1), sq(m2, w, h + 1) == sq(m1, n, h) + sq(m1, u, h), fr(m0, m2, fp(m0, n, h)), from(m0, fp(m0, n, h), fp(m2, w, h + 1))
{
  let cs = own(m2[w]); let e0 = m2[w].children[0]; let e1 = m2[w].children[1]; let z = Seq::<entry<K, V>>::empty();
  assert(cs =~= z.push(e0).push(e1));
  lemma_dom(m1, l, n, h); lemma_dom(m1, l, u, h); lemma_facts(m1, l, n, h);
  lemma_keep(m1, m2, l, n, h); lemma_keep(m1, m2, l, u, h);
  lemma_push(m2, l, z, e0, h); lemma_push(m2, l, z.push(e0), e1, h);
  assert(cat(m2, cs, h) =~= sq(m1, n, h) + sq(m1, u, h));
  assert(fps(m2, cs, h) =~= fp(m1, n, h).union(fp(m1, u, h)));
  assert(fps(m2, z.push(e0), h) =~= fp(m1, n, h));
  assert(okc(m2, l, z, h));
  assert forall|k: int| 1 <= k < cs.len() implies #[trigger] sep1(m2, l, cs, h, k) by { assert(cs[1] == e1 && cs[0] == e0); }
  assert(okx(m2, l, w, cs, h + 1));
}
pub proof fn lemma_new<K, V>(s0: S<K, V>, s: S<K, V>, p: int, less: spec_fn(K, K) -> bool)
  requires strict_weak(less), p != 0, !s0.Tree.dom().contains(p), s.Tree =~= s0.Tree.insert(p, s.Tree[p]), s.Tree[p].less == less, s.Tree[p].height == 0, s.Tree[p].n == 0,
    ({ let x = s.Tree[p].root; x != 0 && !s0.node.dom().contains(x) && s.node =~= s0.node.insert(x, s.node[x]) && s.node[x].m == 0 && s.node[x].children.len() == 64 })
  ensures wf(s, p), view(s, p).len() == 0, forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q) && s.Tree[q] == s0.Tree[q]
{
  let x = s.Tree[p].root; assert(own(s.node[x]) =~= Seq::<entry<K, V>>::empty()); assert(okx(s.node, less, x, own(s.node[x]), 0)); assert(all(s, p).len() == 0);
  assert(fp(s.node, x, 0) =~= Set::<int>::empty().insert(x));
  assert forall|q: int| #[trigger] wf(s0, q) implies wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q) && s.Tree[q] == s0.Tree[q] by {
    let t = s0.Tree[q]; lemma_dom(s0.node, t.less, t.root, t.height);
    assert forall|y: int| #[trigger] nodes(s0, q).contains(y) implies s.node.dom().contains(y) && s.node[y] == s0.node[y] by { }
    lemma_keep(s0.node, s.node, t.less, t.root, t.height);
    assert forall|y: int| #[trigger] nodes(s, p).contains(y) implies !nodes(s, q).contains(y) by { }
  }
}

// ---- how full the nodes are: below x every node uses at least half of its 64 places
pub open spec fn full<K, V>(m: Map<int, node<K, V>>, c: int, h: int) -> bool { m[c].m >= 32 && dense(m, c, h) }
pub open spec fn densec<K, V>(m: Map<int, node<K, V>>, cs: Seq<entry<K, V>>, h: int) -> bool decreases h, 0nat { h > 0 ==> forall|k: int| 0 <= k < cs.len() ==> m[(#[trigger] cs[k]).next].m >= 32 && dense(m, cs[k].next, h - 1) }
pub open spec fn dense<K, V>(m: Map<int, node<K, V>>, x: int, h: int) -> bool decreases h, 1nat { densec(m, own(m[x]), h) }
// what insert keeps of it
pub open spec fn thick<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, n: int, r: int, h: int) -> bool {
  dense(m0, n, h) ==> dense(m, n, h) && (m[n].m >= m0[n].m || m[n].m >= 32) && (r != 0 ==> full(m, n, h) && full(m, r, h))
}
pub proof fn lemma_sub<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int, k: int)
  requires okc(m, l, cs, h), 0 <= k < cs.len()
  ensures okn(m, l, cs[k].next, h), forall|y: int| #[trigger] fp(m, cs[k].next, h).contains(y) ==> fps(m, cs, h).contains(y)
{ lemma_mid(m, l, cs, h, k); }
pub proof fn lemma_notin<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int)
  requires h > 0, okn(m, l, n, h), 0 <= j < own(m[n]).len()
  ensures !fp(m, own(m[n])[j].next, h - 1).contains(n)
{ let cs = own(m[n]); assert(okx(m, l, n, cs, h)); lemma_sub(m, l, cs, h - 1, j); }
pub proof fn lemma_dkeep<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, h: int)
  requires okn(m0, l, x, h), dense(m0, x, h), forall|y: int| #[trigger] fp(m0, x, h).contains(y) ==> m[y] == m0[y]
  ensures dense(m, x, h), m[x] == m0[x]
  decreases h
{
  assert(fp(m0, x, h).contains(x));
  if h > 0 {
    let cs = own(m0[x]);
    assert forall|k: int| 0 <= k < cs.len() implies m[(#[trigger] cs[k]).next].m >= 32 && dense(m, cs[k].next, h - 1) by {
      lemma_sub(m0, l, cs, h - 1, k);
      assert forall|y: int| #[trigger] fp(m0, cs[k].next, h - 1).contains(y) implies m[y] == m0[y] by { assert(fps(m0, cs, h - 1).contains(y)); assert(fp(m0, x, h).contains(y)); }
      lemma_dkeep(m0, m, l, cs[k].next, h - 1);
    }
  }
}
// child j changed, and a sibling u may have split off it
pub proof fn lemma_dchild<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int, u: int, e: entry<K, V>)
  requires h > 0, okn(m0, l, n, h), dense(m0, n, h), 0 <= j < own(m0[n]).len(), fr(m0, m1, fp(m0, own(m0[n])[j].next, h - 1)), thick(m0, m1, own(m0[n])[j].next, u, h - 1), u != 0 ==> e.next == u
  ensures densec(m1, grow(own(m0[n]), j, e, u), h)
{
  let cs = own(m0[n]); let c = cs[j].next; let cs2 = grow(cs, j, e, u); let a = cs.take(j); let b = cs.skip(j + 1); let g = h - 1;
  lemma_child_keep(m0, m1, l, cs, g, j); lemma_domc(m0, l, a, g); lemma_domc(m0, l, b, g);
  assert forall|k: int| 0 <= k < cs.len() && k != j implies m1[(#[trigger] cs[k]).next].m >= 32 && dense(m1, cs[k].next, g) by {
    let d = if k < j { a } else { b }; let i = if k < j { k } else { k - j - 1 };
    assert(d[i] == cs[k]); lemma_sub(m0, l, d, g, i);
    assert forall|y: int| #[trigger] fp(m0, cs[k].next, g).contains(y) implies m1[y] == m0[y] by { assert(fps(m0, d, g).contains(y)); assert(m0.dom().contains(y)); if fp(m0, c, g).contains(y) { assert(fps(m0, a, g).union(fp(m0, c, g)).contains(y)); } }
    lemma_dkeep(m0, m1, l, cs[k].next, g);
  }
  assert(m0[cs[j].next].m >= 32 && dense(m0, cs[j].next, g));
  assert forall|k: int| 0 <= k < cs2.len() implies m1[(#[trigger] cs2[k]).next].m >= 32 && dense(m1, cs2[k].next, g) by {
    if u == 0 || k <= j { assert(cs2[k] == cs[k]); } else if k == j + 1 { assert(cs2[k] == e); } else { assert(cs2[k] == cs[k - 1]); }
  }
}
// x alone changes, and what lies below the entries cs2 does not
pub proof fn lemma_dnode<K, V>(m1: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, cs2: Seq<entry<K, V>>, h: int)
  requires okx(m1, l, x, cs2, h), densec(m1, cs2, h), forall|y: int| #![trigger m[y]] m1.dom().contains(y) && y != x ==> m[y] == m1[y]
  ensures densec(m, cs2, h)
{
  if h > 0 {
    lemma_domc(m1, l, cs2, h - 1);
    assert forall|k: int| 0 <= k < cs2.len() implies m[(#[trigger] cs2[k]).next].m >= 32 && dense(m, cs2[k].next, h - 1) by {
      lemma_sub(m1, l, cs2, h - 1, k);
      assert forall|y: int| #[trigger] fp(m1, cs2[k].next, h - 1).contains(y) implies m[y] == m1[y] by { assert(fps(m1, cs2, h - 1).contains(y)); }
      assert(fp(m1, cs2[k].next, h - 1).contains(cs2[k].next));
      lemma_dkeep(m1, m, l, cs2[k].next, h - 1);
    }
  }
}
pub proof fn lemma_d0<K, V>(m: Map<int, node<K, V>>, cs: Seq<entry<K, V>>) ensures densec(m, cs, 0) {}
pub proof fn lemma_t_hit<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, n: int)
  requires m[n].m == m0[n].m
  ensures thick(m0, m, n, 0, 0)
{}
pub proof fn lemma_t_down<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int, key: K, v: V, f: bool)
  requires h > 0, okn(m0, l, n, h), 0 <= j < own(m0[n]).len(), inserted(m0, m, l, own(m0[n])[j].next, 0, h - 1, key, v, f), thick(m0, m, own(m0[n])[j].next, 0, h - 1)
  ensures thick(m0, m, n, 0, h)
{
  let cs = own(m0[n]);
  if dense(m0, n, h) { lemma_dchild(m0, m, l, n, h, j, 0, cs[j]); lemma_sub(m0, l, cs, h - 1, j); assert(!fps(m0, cs, h - 1).contains(n)); assert(!fp(m0, cs[j].next, h - 1).contains(n)); assert(m[n] == m0[n]); }
}
pub proof fn lemma_t_grown<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, h: int, j: int, e: entry<K, V>, key: K, v: V, f: bool)
  requires h > 0, okn(m0, l, n, h), 0 <= j < own(m0[n]).len(), e.next != 0, inserted(m0, m, l, own(m0[n])[j].next, e.next, h - 1, key, v, f), thick(m0, m, own(m0[n])[j].next, e.next, h - 1)
  ensures dense(m0, n, h) ==> densec(m, own(m0[n]).insert(j + 1, e), h)
{ if dense(m0, n, h) { lemma_dchild(m0, m, l, n, h, j, e.next, e); } }
pub proof fn lemma_t_fit<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, cs2: Seq<entry<K, V>>, h: int, key: K, v: V, f: bool)
  requires ready(m0, m1, l, n, cs2, h, key, v, f), dense(m0, n, h) ==> densec(m1, cs2, h), m =~= m1.insert(n, m[n]), own(m[n]) == cs2, m[n].m >= m0[n].m
  ensures thick(m0, m, n, 0, h)
{ if dense(m0, n, h) { lemma_dnode(m1, m, l, n, cs2, h); } }
pub proof fn lemma_t_two<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, r: int, cs2: Seq<entry<K, V>>, h: int, key: K, v: V, f: bool)
  requires ready(m0, m1, l, n, cs2, h, key, v, f), dense(m0, n, h) ==> densec(m1, cs2, h), r != 0, !m1.dom().contains(r), forall|y: int| #![trigger m[y]] m1.dom().contains(y) && y != n ==> m[y] == m1[y],
    32 <= m[n].m <= cs2.len(), own(m[n]) == cs2.take(m[n].m), own(m[r]) == cs2.skip(m[n].m), m[r].m >= 32
  ensures thick(m0, m, n, r, h)
{
  if dense(m0, n, h) {
    lemma_dnode(m1, m, l, n, cs2, h); let a = own(m[n]); let b = own(m[r]); let c = m[n].m;
    if h > 0 {
      assert forall|k: int| 0 <= k < a.len() implies m[(#[trigger] a[k]).next].m >= 32 && dense(m, a[k].next, h - 1) by { assert(a[k] == cs2[k]); }
      assert forall|k: int| 0 <= k < b.len() implies m[(#[trigger] b[k]).next].m >= 32 && dense(m, b[k].next, h - 1) by { assert(b[k] == cs2[c + k]); }
    }
  }
}
// the fewest entries of a tree of height h, and of a subtree in it
pub open spec fn p32(h: int) -> int decreases h { if h <= 0 { 1 } else { 32 * p32(h - 1) } }
pub open spec fn least(h: int) -> int { if h <= 0 { 0 } else { 2 * p32(h) } }
pub proof fn lemma_p32(h: int) ensures p32(h) >= 1 decreases h { if h > 0 { lemma_p32(h - 1); } }
pub proof fn lemma_many<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, x: int, h: int)
  requires okn(m, l, x, h), dense(m, x, h)
  ensures sq(m, x, h).len() >= m[x].m * p32(h)
  decreases h, 1nat
{ let cs = own(m[x]); if h > 0 { assert(okx(m, l, x, cs, h)); lemma_manyc(m, l, cs, h - 1); assert(p32(h) == 32 * p32(h - 1)); assert(cs.len() == m[x].m); } else { assert(sq(m, x, h) == lq(cs)); assert(p32(h) == 1); } }
pub proof fn lemma_manyc<K, V>(m: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, cs: Seq<entry<K, V>>, h: int)
  requires okc(m, l, cs, h), densec(m, cs, h + 1)
  ensures cat(m, cs, h).len() >= cs.len() * (32 * p32(h))
  decreases h, cs.len() + 1
{
  if cs.len() > 0 {
    let a = cs.drop_last(); let c = cs.last().next; let n = a.len() as int; let w = 32 * p32(h);
    assert(cs[n] == cs.last());
    assert forall|k: int| 0 <= k < a.len() implies m[(#[trigger] a[k]).next].m >= 32 && dense(m, a[k].next, h) by { assert(a[k] == cs[k]); }
    lemma_manyc(m, l, a, h); lemma_many(m, l, c, h); lemma_p32(h);
    let mm = m[c].m;
    assert(mm * p32(h) >= w) by (nonlinear_arith) requires mm >= 32, p32(h) >= 1, w == 32 * p32(h);
    assert((n + 1) * w == n * w + w) by (nonlinear_arith);
  } else { assert(0 * (32 * p32(h)) == 0); }
}
pub proof fn lemma_ins_same<K, V>(q: Seq<(K, V, bool)>, q2: Seq<(K, V, bool)>, l: spec_fn(K, K) -> bool, k: K, v: V, f: bool)
  requires strict_weak(l), ins(q, q2, l, k, v, f), !none(q, l, k)
  ensures q2.len() == q.len()
{
  let i = choose|i: int| #[trigger] ins_at(q, q2, l, k, v, f, i); let j = choose|j: int| #[trigger] at(q, l, k, j);
  if j < i { assert(l(q[j].0, k)); } else if !(i < q.len() && eqv(l, q[i].0, k)) { assert(l(k, q[j].0)); }
}
// a tree whose nodes are at least half full, its root apart
pub open spec fn slim<K, V>(s: S<K, V>, p: int) -> bool { dense(s.node, s.Tree[p].root, s.Tree[p].height) && (s.Tree[p].height > 0 ==> s.node[s.Tree[p].root].m >= 2) }
// the height is logarithmic in the number of entries, live or removed
pub open spec fn shallow<K, V>(s: S<K, V>, p: int) -> bool { all(s, p).len() >= least(s.Tree[p].height) }
pub open spec fn others_slim<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool { forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) && slim(s0, q) ==> slim(s, q) }
pub proof fn lemma_shallow<K, V>(s: S<K, V>, p: int)
  requires wf(s, p), slim(s, p)
  ensures shallow(s, p)
{ let t = s.Tree[p]; lemma_many(s.node, t.less, t.root, t.height); lemma_p32(t.height); let k = s.node[t.root].m; if t.height > 0 { assert(k * p32(t.height) >= 2 * p32(t.height)) by (nonlinear_arith) requires k >= 2, p32(t.height) >= 1; } }
pub proof fn lemma_slims<K, V>(s0: S<K, V>, s: S<K, V>, p: int)
  requires fr(s0.node, s.node, nodes(s0, p)), s.Tree =~= s0.Tree.insert(p, s.Tree[p])
  ensures others_slim(s0, s, p)
{
  assert forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) && slim(s0, q) implies slim(s, q) by {
    let t = s0.Tree[q]; lemma_dom(s0.node, t.less, t.root, t.height);
    assert forall|y: int| #[trigger] nodes(s0, q).contains(y) implies s.node[y] == s0.node[y] by { assert(!nodes(s0, p).contains(y)); }
    lemma_dkeep(s0.node, s.node, t.less, t.root, t.height);
  }
}
// a new root w over n and u
pub proof fn lemma_slimroot<K, V>(m1: Map<int, node<K, V>>, m2: Map<int, node<K, V>>, l: spec_fn(K, K) -> bool, n: int, u: int, w: int, h: int)
  requires okn(m1, l, n, h), okn(m1, l, u, h), full(m1, n, h), full(m1, u, h), !m1.dom().contains(w), m2 =~= m1.insert(w, m2[w]), m2[w].m == 2, m2[w].children.len() == 64, m2[w].children[0].next == n, m2[w].children[1].next == u
  ensures dense(m2, w, h + 1)
{
  let cs = own(m2[w]); lemma_dom(m1, l, n, h); lemma_dom(m1, l, u, h); lemma_facts(m1, l, n, h);
  assert(cs.len() == 2 && cs[0] == m2[w].children[0] && cs[1] == m2[w].children[1]);
  lemma_dkeep(m1, m2, l, n, h); lemma_dkeep(m1, m2, l, u, h);
}

@func Tree.search (p, x, key, height) (v, ok)
@decreases height
@requires p != 0 && s.Tree.dom().contains(p) && strict_weak(s.Tree[p].less)
@requires okn(s.node, s.Tree[p].less, x, height) && sort3(sq(s.node, x, height), s.Tree[p].less)
@ensures got(sq(s.node, x, height), s.Tree[p].less, key, v, ok)
@entry let l = s.Tree[p].less; let m = s.node; let cs = own(m[x]); let q = sq(m, x, height); assert(q == sqc(m, cs, height)); if height > 0 { lemma_domc(m, l, cs, height - 1); } let mut jj = 0int;
@loop 1
@invariant height == 0 && 0 <= v_j <= cs.len()
@invariant forall|i: int| 0 <= i < v_j ==> !eqv(l, (#[trigger] cs[i]).key, key)
@loopentry assert(cs[v_j] == v_children[v_j]); if eqv(l, cs[v_j].key, key) { lemma_leaf_hit(cs, l, key, v_j); }
@loopexit assert forall|i: int| #[trigger] at(q, l, key, i) implies !q[i].2 by { assert(q[i].0 == cs[i].key); }
@decreases cs.len() - v_j
@loop 2
@invariant height > 0 && 0 <= v_j_2 < cs.len()
@invariant v_j_2 > 0 ==> !l(key, cs[v_j_2].key)
@loopentry jj = v_j_2; let c = cs[jj].next; assert(cs[jj] == v_children[jj]); assert(okn(m, l, c, height - 1)); if jj + 1 < cs.len() { assert(cs[jj + 1] == v_children[jj + 1]); } lemma_mid(m, l, cs, height - 1, jj); lemma_sort_mid(cat(m, cs.take(jj), height - 1), sq(m, c, height - 1), cat(m, cs.skip(jj + 1), height - 1), l); if jj + 1 == cs.len() || l(key, cs[jj + 1].key) { lemma_find(m, l, cs, height - 1, jj, key); assert forall|w: V, f: bool| #[trigger] got(sq(m, c, height - 1), l, key, w, f) implies got(q, l, key, w, f) by { lemma_got(cat(m, cs.take(jj), height - 1), sq(m, c, height - 1), cat(m, cs.skip(jj + 1), height - 1), l, key, w, f); } }
@decreases cs.len() - v_j_2

@func Tree.split (p, n) (r)
@requires n != 0 && s.node.dom().contains(n) && s.node[n].children.len() == 64
@ensures r != 0 && !s0.node.dom().contains(r) && s.node.dom() == s0.node.dom().insert(r)
@ensures forall|x: int| #![trigger s.node[x]] s0.node.dom().contains(x) && x != n ==> s.node[x] == s0.node[x]
@ensures s.node[n].children.len() == 64 && s.node[r].children.len() == 64 && 1 <= s.node[n].m < 64 && s.node[r].m == 64 - s.node[n].m
@ensures own(s.node[n]) == s0.node[n].children.take(s.node[n].m)
@ensures own(s.node[r]) == s0.node[n].children.skip(s.node[n].m)
@ensures[T02] s.node[n].m >= 32 && s.node[r].m >= 32
@loop 1
@loopbefore let s1 = s; let c = s.node[n].m;
@invariant 1 <= c < 64 && 0 <= v_j <= 64 - c && s.node.dom() == s1.node.dom() && s.node[v_n].m == 64 - c && s.node[v_n].children.len() == 64 && s.node[n].m == c && s.node[n].children.len() == 64
@invariant forall|x: int| #![trigger s.node[x]] x != v_n && x != n ==> s.node[x] == s1.node[x]
@invariant forall|i: int| 0 <= i < 64 && (i < c || i >= c + v_j) ==> #[trigger] s.node[n].children[i] == s0.node[n].children[i]
@invariant forall|i: int| 0 <= i < v_j ==> #[trigger] s.node[v_n].children[i] == s0.node[n].children[c + i]
@exit assert(own(s.node[n]) =~= s0.node[n].children.take(s.node[n].m)); assert(own(s.node[r]) =~= s0.node[n].children.skip(s.node[n].m)); assert(s.node.dom() =~= s0.node.dom().insert(r));

@func Tree.insert (p, n, key, value, height, valid) (r)
@flag hide okn sq sqc cat inserted ready sort3 dense densec
@decreases height
@requires p != 0 && s.Tree.dom().contains(p) && strict_weak(s.Tree[p].less)
@requires okn(s.node, s.Tree[p].less, n, height) && sort3(sq(s.node, n, height), s.Tree[p].less)
@ensures inserted(s0.node, s.node, s.Tree[p].less, n, r, height, key, value, valid)
@ensures[T02] thick(s0.node, s.node, n, r, height)
@ensures fr(s0.node, s.node, fp(s0.node, n, height))
@entry let l = s.Tree[p].less; let m0 = s.node; let cs = own(m0[n]); let q = sq(m0, n, height); let mut ph = 0int; let mut jj = 0int; let mut m1 = m0; let mut cs2 = cs; lemma_facts(m0, l, n, height);
@exit if ph == 1 { assert(s.node =~= m0.insert(n, s.node[n])); assert(s.node[n].children =~= m0[n].children.update(jj, s.node[n].children[jj])); lemma_hit(m0, s.node, l, n, height, jj, key, value, valid); lemma_t_hit(m0, s.node, n); }
@exit if ph == 2 { lemma_down(m0, s.node, l, n, height, jj, key, value, valid); lemma_t_down(m0, s.node, l, n, height, jj, key, value, valid); }
@exit if ph == 3 && r == 0 { lemma_fit(m0, m1, s.node, l, n, cs2, height, key, value, valid); lemma_t_fit(m0, m1, s.node, l, n, cs2, height, key, value, valid); }
@exit if ph == 3 && r != 0 { lemma_two(m0, m1, s.node, l, n, r, cs2, height, key, value, valid); if s.node[n].m >= 32 && s.node[r].m >= 32 { lemma_t_two(m0, m1, s.node, l, n, r, cs2, height, key, value, valid); } }
@exit assert(inserted(m0, s.node, l, n, r, height, key, value, valid)); lemma_ifr(m0, s.node, l, n, r, height, key, value, valid);
@before Tree.split assert(s.node[n].children =~= cs2);
@before copy
let m3 = s.node; let c3 = cs.insert(v_j, v_ent); if height > 0 { lemma_grown(m0, m3, l, n, height, v_j - 1, v_ent, key, value, valid); lemma_t_grown(m0, m3, l, n, height, v_j - 1, v_ent, key, value, valid); } else { lemma_d0(m0, c3); lemma_miss(m0, l, n, v_j, v_ent, key, value, valid); }
ph = 3; m1 = m3; cs2 = c3;
@after copy
assert forall|ch: Seq<entry<K, V>>| #![trigger ch.take(m1[n].m + 1)] ch == s.node[n].children.update(v_j, v_ent) implies ch.take(m1[n].m + 1) == cs2 by { assert(ch.take(m1[n].m + 1) =~= cs2); }
@loop 1
@invariant height == 0 && 0 <= v_j <= cs.len() && s.node == m0
@invariant forall|i: int| 0 <= i < v_j ==> l((#[trigger] cs[i]).key, key)
@loopentry ph = 1; jj = v_j; assert(cs[jj] == m0[n].children[jj]); if l(key, cs[jj].key) { lemma_above(m0, l, n, jj, key); }
@decreases cs.len() - v_j
@loop 2
@invariant height > 0 && 0 <= v_j < cs.len() && s.node == m0
@invariant v_j > 0 ==> !l(key, cs[v_j].key)
@loopentry ph = 2; jj = v_j; assert(cs[jj] == m0[n].children[jj]); if jj + 1 < cs.len() { assert(cs[jj + 1] == m0[n].children[jj + 1]); } lemma_below_child(m0, l, n, height, jj); lemma_notin(m0, l, n, height, jj);
@decreases cs.len() - v_j
@loop 3
@loopbefore let m3 = s.node; let j3 = v_j; let c3 = cs.insert(v_j, v_ent); if height > 0 { lemma_grown(m0, m3, l, n, height, j3 - 1, v_ent, key, value, valid); lemma_t_grown(m0, m3, l, n, height, j3 - 1, v_ent, key, value, valid); } else { lemma_d0(m0, c3); lemma_miss(m0, l, n, j3, v_ent, key, value, valid); } let ch0 = m3[n].children;
@invariant s.node =~= m3.insert(n, s.node[n]) && s.node[n].m == m3[n].m && s.node[n].children.len() == 64
@invariant forall|i: int| 0 <= i <= v_i ==> #[trigger] s.node[n].children[i] == ch0[i]
@invariant forall|i: int| v_i < i <= m3[n].m ==> #[trigger] s.node[n].children[i] == ch0[i - 1]
@invariant v_i >= j3
@loopexit ph = 3; m1 = m3; cs2 = c3; assert forall|ch: Seq<entry<K, V>>| #![trigger ch.take(m3[n].m + 1)] ch == s.node[n].children.update(j3, v_ent) implies ch.take(m3[n].m + 1) == c3 by { assert(ch.take(m3[n].m + 1) =~= c3); }

@func Tree.each (p, n, height, f)
@decreases height
@requires okn(s.node, s.Tree[p].less, n, height)
@ensures tr == tr0 + live(sq(s.node, n, height))
@entry let l = s.Tree[p].less; let m = s.node; let cs = own(m[n]); lemma_facts(m, l, n, height); assert(okx(m, l, n, cs, height)); if height > 0 { lemma_domc(m, l, cs, height - 1); } assert(live(Seq::<(K, V, bool)>::empty()) == Seq::<(K, V)>::empty());
@loop 1
@loopbefore assert(lq(cs.take(0)) =~= Seq::<(K, V, bool)>::empty());
@invariant height == 0 && 0 <= v_j <= cs.len() && tr =~= tr0 + live(lq(cs.take(v_j)))
@loopentry let e = cs[v_j]; assert(e == m[n].children[v_j]); assert(lq(cs.take(v_j + 1)) =~= lq(cs.take(v_j)).push((e.key, e.val, e.valid))); lemma_live_push(lq(cs.take(v_j)), (e.key, e.val, e.valid));
@loopexit assert(cs.take(cs.len() as int) =~= cs);
@decreases cs.len() - v_j
@loop 2
@loopbefore assert(cs.take(0) =~= Seq::<entry<K, V>>::empty());
@invariant height > 0 && 0 <= v_j_2 <= cs.len() && tr =~= tr0 + live(cat(m, cs.take(v_j_2), height - 1))
@loopentry let e = cs[v_j_2]; assert(e == m[n].children[v_j_2]); assert(cs.take(v_j_2 + 1) =~= cs.take(v_j_2).push(e)); lemma_push(m, l, cs.take(v_j_2), e, height - 1); lemma_live_cat(cat(m, cs.take(v_j_2), height - 1), sq(m, e.next, height - 1));
@loopexit assert(cs.take(cs.len() as int) =~= cs);
@decreases cs.len() - v_j_2

@func New (less) (r)
@requires strict_weak(less)
@ensures wf(s, r) && view(s, r).len() == 0 && s.Tree[r].less == less && !s0.Tree.dom().contains(r)
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && separate(s, r, q) && view(s, q) == view(s0, q) && s.Tree[q] == s0.Tree[q]
@ensures[T02] slim(s, r) && shallow(s, r)
@exit lemma_new(s0, s, r, less);

@func Tree.Size (p) (r)
@requires wf(s, p)
@ensures r == view(s, p).len()

@func Tree.Get (p, key) (v, ok)
@requires wf(s, p)
@ensures ok == holds_key(view(s, p), s.Tree[p].less, key)
@ensures ok ==> exists|i: int| 0 <= i < view(s, p).len() && eqv(s.Tree[p].less, (#[trigger] view(s, p)[i]).0, key) && v == view(s, p)[i].1
@exit lemma_live_got(all(s, p), s.Tree[p].less, key, v, ok);

@func Tree.Each (p, f)
@requires wf(s, p)
@ensures tr == tr0 + view(s, p) && sorted(view(s, p), s.Tree[p].less)
@entry lemma_live_sorted(all(s, p), s.Tree[p].less);

@func Tree.Put (p, key, value)
@flag hide okn sq sqc cat sort3 live dense
@requires wf(s, p)
@ensures wf(s, p)
@ensures put(view(s0, p), view(s, p), s0.Tree[p].less, key, value) && s.Tree[p].less == s0.Tree[p].less
@ensures others_kept(s0, s, p)
@ensures[T02] slim(s0, p) ==> slim(s, p) && shallow(s, p)
@ensures[T02] others_slim(s0, s, p)
@ensures[T02] ins(all(s0, p), all(s, p), s0.Tree[p].less, key, value, true)
@entry let l = s.Tree[p].less; let m0 = s.node; let n = s.Tree[p].root; let h = s.Tree[p].height; let q = all(s, p); lemma_facts(m0, l, n, h); let mut m1 = m0;
@after Tree.insert m1 = s.node; 
@exit if s.Tree[p].root != n { assert(s.node =~= m1.insert(s.Tree[p].root, s.node[s.Tree[p].root])); let u = s.node[s.Tree[p].root].children[1].next; lemma_facts(m1, l, u, h); lemma_facts(m1, l, n, h); lemma_newroot(m0, m1, s.node, l, n, u, s.Tree[p].root, h); if slim(s0, p) && full(m1, n, h) && full(m1, u, h) { lemma_slimroot(m1, s.node, l, n, u, s.Tree[p].root, h); } }
@exit lemma_ins_keys(q, all(s, p), l, key, value, true); lemma_live_ins(q, all(s, p), l, key, value, true); lemma_kept(s0, s, p);
@exit lemma_slims(s0, s, p); if slim(s0, p) { lemma_shallow(s, p); }

@func Tree.Remove (p, key)
@flag hide okn sq sqc cat sort3 live dense
@requires wf(s, p)
@ensures wf(s, p)
@ensures del(view(s0, p), view(s, p), s0.Tree[p].less, key) && s.Tree[p].less == s0.Tree[p].less
@ensures others_kept(s0, s, p)
@ensures[T02] slim(s0, p) ==> slim(s, p) && shallow(s, p)
@ensures[T02] others_slim(s0, s, p)
@ensures[T02] all(s, p).len() == all(s0, p).len()
@entry let l = s.Tree[p].less; let m0 = s.node; let n = s.Tree[p].root; let h = s.Tree[p].height; let q = all(s, p); lemma_facts(m0, l, n, h); let mut m1 = m0;
@exit if holds_key(view(s0, p), l, key) { lemma_live_at(q, l, key); lemma_ins_same(q, all(s, p), l, key, zero::<V>(), false); lemma_ins_keys(q, all(s, p), l, key, zero::<V>(), false); lemma_live_ins(q, all(s, p), l, key, zero::<V>(), false); } lemma_kept(s0, s, p);
@exit lemma_slims(s0, s, p); if slim(s0, p) { lemma_shallow(s, p); }
