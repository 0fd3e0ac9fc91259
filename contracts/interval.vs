@state I V
@counter height
@prelude
// ---- the tree as a value: the nodes reachable from a pointer
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(V)]
pub enum T<I, V> { E, N { a: int, k: intrvl<I>, v: V, h: int, l: Box<T<I, V>>, r: Box<T<I, V>> } }
pub open spec fn root<I, V>(t: T<I, V>) -> int { match t { T::E => 0, T::N { a, .. } => a } }
pub open spec fn lf<I, V>(t: T<I, V>) -> T<I, V> { match t { T::E => T::E, T::N { l, .. } => *l } }
pub open spec fn rt<I, V>(t: T<I, V>) -> T<I, V> { match t { T::E => T::E, T::N { r, .. } => *r } }
pub open spec fn mk<I, V>(a: int, k: intrvl<I>, v: V, h: int, l: T<I, V>, r: T<I, V>) -> T<I, V> { T::N { a, k, v, h, l: Box::new(l), r: Box::new(r) } }
// x is the address of a node of t
pub open spec fn inn<I, V>(t: T<I, V>, x: int) -> bool decreases t { match t { T::E => false, T::N { a, l, r, .. } => x == a || inn(*l, x) || inn(*r, x) } }
pub open spec fn apart<I, V>(t: T<I, V>, u: T<I, V>) -> bool { forall|x: int| !(#[trigger] inn(t, x) && #[trigger] inn(u, x)) }
pub open spec fn okt<I, V>(m: Map<int, node<I, V>>, t: T<I, V>) -> bool decreases t {
  match t {
    T::E => true,
    T::N { a, k, v, h, l, r } => a != 0 && m.dom().contains(a) && m[a].key == k && m[a].value == v && m[a].height == h && m[a].left == root(*l) && m[a].right == root(*r)
      && okt(m, *l) && okt(m, *r) && !inn(*l, a) && !inn(*r, a) && apart(*l, *r),
  }
}
pub open spec fn is<I, V>(m: Map<int, node<I, V>>, p: int, t: T<I, V>) -> bool { p == root(t) && okt(m, t) }
pub open spec fn tree<I, V>(m: Map<int, node<I, V>>, p: int) -> T<I, V> { choose|t: T<I, V>| #[trigger] is(m, p, t) }
pub open spec fn ok<I, V>(m: Map<int, node<I, V>>, p: int) -> bool { is(m, p, tree(m, p)) }
pub open spec fn num<I, V>(t: T<I, V>) -> int decreases t { match t { T::E => 0, T::N { l, r, .. } => 1 + num(*l) + num(*r) } }
// the entries in order
pub open spec fn sq<I, V>(t: T<I, V>) -> Seq<KV<I, V>> decreases t { match t { T::E => Seq::empty(), T::N { k, v, l, r, .. } => sq(*l).push(en(k, v)) + sq(*r) } }
pub open spec fn ht<I, V>(t: T<I, V>) -> int { match t { T::E => 0, T::N { h, .. } => h } }
pub open spec fn nonneg<I, V>(t: T<I, V>) -> bool decreases t { match t { T::E => true, T::N { h, l, r, .. } => h >= 0 && nonneg(*l) && nonneg(*r) } }
// stored heights are the numbers of levels, and no two siblings differ by more than one
pub open spec fn bal<I, V>(t: T<I, V>) -> bool decreases t {
  match t { T::E => true, T::N { h, l, r, .. } => h == 1 + max2(ht(*l), ht(*r)) && -1 <= ht(*l) - ht(*r) <= 1 && bal(*l) && bal(*r) }
}
pub open spec fn levels<I, V>(t: T<I, V>) -> int decreases t { match t { T::E => 0, T::N { l, r, .. } => 1 + max2(levels(*l), levels(*r)) } }
pub open spec fn max2(a: int, b: int) -> int { if a <= b { b } else { a } }
// the entries of the sparsest AVL tree of h levels
pub open spec fn sparsest(h: int) -> int decreases h { if h <= 0 { 0 } else if h == 1 { 1 } else { sparsest(h - 1) + sparsest(h - 2) + 1 } }

// everything that existed outside the nodes of t is as it was
pub open spec fn frame<I, V>(m0: Map<int, node<I, V>>, m: Map<int, node<I, V>>, t: T<I, V>) -> bool {
  forall|x: int| #[trigger] m0.dom().contains(x) ==> m.dom().contains(x) && (!inn(t, x) ==> m[x] == m0[x])
}
// the nodes of u are nodes of t or new
pub open spec fn grown<I, V>(m0: Map<int, node<I, V>>, t: T<I, V>, u: T<I, V>) -> bool {
  forall|x: int| #[trigger] inn(u, x) ==> inn(t, x) || !m0.dom().contains(x)
}

pub proof fn lemma_dom<I, V>(m: Map<int, node<I, V>>, t: T<I, V>)
  requires okt(m, t)
  ensures (forall|x: int| #[trigger] inn(t, x) ==> x != 0 && m.dom().contains(x)) && !inn(t, 0) && num(t) >= 0 && sq(t).len() == num(t)
  decreases t
{
  match t { T::E => {}, T::N { a, l, r, .. } => {
    lemma_dom(m, *l); lemma_dom(m, *r);
    assert(okt(m, t) && a != 0 && m.dom().contains(a));
    assert forall|x: int| #[trigger] inn(t, x) implies x != 0 && m.dom().contains(x) by { if inn(*l, x) {} else if inn(*r, x) {} else { assert(x == a); } }
    if inn(t, 0) { if inn(*l, 0) {} else if inn(*r, 0) {} }
    assert(num(t) == 1 + num(*l) + num(*r));
    assert(sq(t).len() == num(t));
  } }
}
pub proof fn lemma_unique<I, V>(m: Map<int, node<I, V>>, t: T<I, V>, u: T<I, V>)
  requires okt(m, t), okt(m, u), root(t) == root(u)
  ensures t == u
  decreases t
{
  match t { T::E => { match u { T::E => {}, T::N { .. } => {} } },
    T::N { l, r, .. } => { match u { T::E => {}, T::N { l: l2, r: r2, .. } => { lemma_unique(m, *l, *l2); lemma_unique(m, *r, *r2); assert(l == l2 && r == r2); } } } }
}
pub proof fn lemma_is<I, V>(m: Map<int, node<I, V>>, p: int, t: T<I, V>)
  requires is(m, p, t)
  ensures ok(m, p), tree(m, p) == t
{ assert(is(m, p, tree(m, p))); lemma_unique(m, t, tree(m, p)); }
pub proof fn lemma_keep<I, V>(m0: Map<int, node<I, V>>, m: Map<int, node<I, V>>, t: T<I, V>)
  requires okt(m0, t), forall|x: int| #[trigger] inn(t, x) ==> m.dom().contains(x) && m[x] == m0[x]
  ensures okt(m, t)
  decreases t
{ match t { T::E => {}, T::N { a, l, r, .. } => { assert(inn(t, a)); assert forall|x: int| #[trigger] inn(*l, x) implies m.dom().contains(x) && m[x] == m0[x] by { assert(inn(t, x)); } assert forall|x: int| #[trigger] inn(*r, x) implies m.dom().contains(x) && m[x] == m0[x] by { assert(inn(t, x)); } lemma_keep(m0, m, *l); lemma_keep(m0, m, *r); } } }
pub proof fn lemma_kids<I, V>(m: Map<int, node<I, V>>, t: T<I, V>)
  requires okt(m, t)
  ensures okt(m, lf(t)), okt(m, rt(t)), apart(lf(t), rt(t)), !inn(lf(t), root(t)), !inn(rt(t), root(t)), !inn(t, 0), root(t) != 0 ==> inn(t, root(t)) && m.dom().contains(root(t)) && m[root(t)].key == ky(t) && m[root(t)].value == vl(t) && m[root(t)].height == ht(t) && m[root(t)].left == root(lf(t)) && m[root(t)].right == root(rt(t)),
    forall|x: int| #[trigger] inn(t, x) ==> m.dom().contains(x) && x != 0 && (x == root(t) || inn(lf(t), x) || inn(rt(t), x)),
    forall|x: int| #[trigger] inn(lf(t), x) ==> inn(t, x) && m.dom().contains(x) && !inn(rt(t), x), forall|x: int| #[trigger] inn(rt(t), x) ==> inn(t, x) && m.dom().contains(x) && !inn(lf(t), x),
{ lemma_dom(m, t); match t { T::E => {}, T::N { l, r, .. } => { lemma_dom(m, *l); lemma_dom(m, *r); } } }
// the children of a tree
pub proof fn lemma_open<I, V>(m: Map<int, node<I, V>>, p: int)
  requires ok(m, p), p != 0
  ensures ({ let t = tree(m, p); t == mk(p, m[p].key, m[p].value, m[p].height, lf(t), rt(t)) && is(m, m[p].left, lf(t)) && is(m, m[p].right, rt(t)) && tree(m, m[p].left) == lf(t) && tree(m, m[p].right) == rt(t)
    && ok(m, m[p].left) && ok(m, m[p].right) && !inn(lf(t), p) && !inn(rt(t), p) && apart(lf(t), rt(t)) && m.dom().contains(p) && num(lf(t)) < num(t) && num(rt(t)) < num(t) })
{ let t = tree(m, p); lemma_is(m, m[p].left, lf(t)); lemma_is(m, m[p].right, rt(t)); lemma_dom(m, lf(t)); lemma_dom(m, rt(t)); }
// the left child was replaced by the tree u
pub proof fn lemma_left<I, V>(m0: Map<int, node<I, V>>, m1: Map<int, node<I, V>>, m2: Map<int, node<I, V>>, n: int, t: T<I, V>, u: T<I, V>)
  requires is(m0, n, t), n != 0, okt(m1, u), frame(m0, m1, lf(t)), grown(m0, lf(t), u), m2 == m1.insert(n, node { left: root(u), ..m1[n] })
  ensures is(m2, n, mk(n, m0[n].key, m0[n].value, m0[n].height, u, rt(t))), frame(m0, m2, t), grown(m0, t, mk(n, m0[n].key, m0[n].value, m0[n].height, u, rt(t))),
    mxo(m0, rt(t)) ==> mxo(m2, rt(t)), mxo(m1, u) ==> mxo(m2, u)
{
  lemma_kids(m0, t);
  assert(!inn(u, n)) by { assert(inn(t, n)); }
  assert(!inn(u, n)) by { if inn(u, n) { assert(inn(lf(t), n)); } }
  assert forall|x: int| #[trigger] inn(u, x) implies m2.dom().contains(x) && m2[x] == m1[x] by { lemma_dom(m1, u); }
  lemma_keep(m1, m2, u); lemma_mxkeep(m1, m2, u);
  assert forall|x: int| #[trigger] inn(rt(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(!inn(lf(t), x)); }
  lemma_keep(m0, m2, rt(t)); lemma_mxkeep(m0, m2, rt(t));
  assert(apart(u, rt(t)));
  assert(m1[n] == m0[n]);
  let w = mk(n, m0[n].key, m0[n].value, m0[n].height, u, rt(t));
  assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) || !m0.dom().contains(x) by { if inn(u, x) { } }
}
pub proof fn lemma_right<I, V>(m0: Map<int, node<I, V>>, m1: Map<int, node<I, V>>, m2: Map<int, node<I, V>>, n: int, t: T<I, V>, u: T<I, V>)
  requires is(m0, n, t), n != 0, okt(m1, u), frame(m0, m1, rt(t)), grown(m0, rt(t), u), m2 == m1.insert(n, node { right: root(u), ..m1[n] })
  ensures is(m2, n, mk(n, m0[n].key, m0[n].value, m0[n].height, lf(t), u)), frame(m0, m2, t), grown(m0, t, mk(n, m0[n].key, m0[n].value, m0[n].height, lf(t), u)),
    mxo(m0, lf(t)) ==> mxo(m2, lf(t)), mxo(m1, u) ==> mxo(m2, u)
{
  lemma_kids(m0, t);
  assert(!inn(u, n)) by { assert(inn(t, n)); }
  assert(!inn(u, n)) by { if inn(u, n) { assert(inn(rt(t), n)); } }
  assert forall|x: int| #[trigger] inn(u, x) implies m2.dom().contains(x) && m2[x] == m1[x] by { lemma_dom(m1, u); }
  lemma_keep(m1, m2, u); lemma_mxkeep(m1, m2, u);
  assert forall|x: int| #[trigger] inn(lf(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(!inn(rt(t), x)); }
  lemma_keep(m0, m2, lf(t)); lemma_mxkeep(m0, m2, lf(t));
  assert(apart(lf(t), u));
  assert(m1[n] == m0[n]);
  let w = mk(n, m0[n].key, m0[n].value, m0[n].height, lf(t), u);
  assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) || !m0.dom().contains(x) by { if inn(u, x) { } }
}
// the node n was rewritten in place
pub proof fn lemma_root<I, V>(m0: Map<int, node<I, V>>, m1: Map<int, node<I, V>>, n: int, t: T<I, V>)
  requires is(m0, n, t), n != 0, m1 == m0.insert(n, m1[n]), m1[n].left == m0[n].left, m1[n].right == m0[n].right
  ensures is(m1, n, mk(n, m1[n].key, m1[n].value, m1[n].height, lf(t), rt(t))), frame(m0, m1, t), grown(m0, t, mk(n, m1[n].key, m1[n].value, m1[n].height, lf(t), rt(t))),
    mxo(m0, lf(t)) ==> mxo(m1, lf(t)), mxo(m0, rt(t)) ==> mxo(m1, rt(t))
{
  lemma_kids(m0, t);
  assert forall|x: int| #[trigger] inn(lf(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(x != n); }
  assert forall|x: int| #[trigger] inn(rt(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(x != n); }
  lemma_keep(m0, m1, lf(t)); lemma_keep(m0, m1, rt(t)); lemma_mxkeep(m0, m1, lf(t)); lemma_mxkeep(m0, m1, rt(t));
}
pub open spec fn en<I, V>(k: intrvl<I>, v: V) -> KV<I, V> { KV { Low: k.low, High: k.high, Val: v } }
pub open spec fn sorted<I, V>(q: Seq<KV<I, V>>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> olt((#[trigger] q[i]).Low, (#[trigger] q[j]).Low) }
pub open spec fn put_at<I, V>(q: Seq<KV<I, V>>, q2: Seq<KV<I, V>>, e: KV<I, V>, i: int) -> bool {
  0 <= i <= q.len() && (forall|j: int| 0 <= j < i ==> olt((#[trigger] q[j]).Low, e.Low))
  && if i < q.len() && q[i].Low == e.Low { q2 == q.update(i, e) } else { (forall|j: int| i <= j < q.len() ==> olt(e.Low, (#[trigger] q[j]).Low)) && q2 == q.insert(i, e) }
}
// q2 is q with the interval starting where e starts replaced by e, or with e in its place in the order
pub open spec fn put<I, V>(q: Seq<KV<I, V>>, q2: Seq<KV<I, V>>, e: KV<I, V>) -> bool { exists|i: int| #[trigger] put_at(q, q2, e, i) }
pub open spec fn holds<I, V>(q: Seq<KV<I, V>>, low: I) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == low }
pub open spec fn del<I, V>(q: Seq<KV<I, V>>, q2: Seq<KV<I, V>>, low: I) -> bool {
  if holds(q, low) { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == low && q2 == q.remove(i) } else { q2 == q }
}
pub proof fn lemma_split<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>)
  requires sorted(ql.push(x) + qr)
  ensures sorted(ql), sorted(qr), forall|i: int| 0 <= i < ql.len() ==> olt((#[trigger] ql[i]).Low, x.Low), forall|i: int| 0 <= i < qr.len() ==> olt(x.Low, (#[trigger] qr[i]).Low)
{
  let q = ql.push(x) + qr; let n = ql.len() as int;
  assert(q[n] == x);
  assert forall|i: int| 0 <= i < n implies olt((#[trigger] ql[i]).Low, x.Low) by { assert(q[i] == ql[i]); }
  assert forall|i: int| 0 <= i < qr.len() implies olt(x.Low, (#[trigger] qr[i]).Low) by { assert(q[n + 1 + i] == qr[i]); }
  assert forall|i: int, j: int| 0 <= i < j < ql.len() implies olt((#[trigger] ql[i]).Low, (#[trigger] ql[j]).Low) by { assert(q[i] == ql[i] && q[j] == ql[j]); }
  assert forall|i: int, j: int| 0 <= i < j < qr.len() implies olt((#[trigger] qr[i]).Low, (#[trigger] qr[j]).Low) by { assert(q[n + 1 + i] == qr[i] && q[n + 1 + j] == qr[j]); }
}
pub proof fn lemma_sorted_put<I, V>(q: Seq<KV<I, V>>, q2: Seq<KV<I, V>>, e: KV<I, V>)
  requires sorted(q), put(q, q2, e)
  ensures sorted(q2)
{
  let i = choose|i: int| #[trigger] put_at(q, q2, e, i);
  if i < q.len() && q[i].Low == e.Low {
    assert forall|a: int, b: int| 0 <= a < b < q2.len() implies olt((#[trigger] q2[a]).Low, (#[trigger] q2[b]).Low) by { assert(olt(q[a].Low, q[b].Low)); }
  } else {
    assert forall|a: int, b: int| 0 <= a < b < q2.len() implies olt((#[trigger] q2[a]).Low, (#[trigger] q2[b]).Low) by {
      let x = if a < i { q[a] } else { q[a - 1] }; let y = if b < i { q[b] } else { q[b - 1] };
    }
  }
}
pub proof fn lemma_put_left<I, V>(ql: Seq<KV<I, V>>, ql2: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, e: KV<I, V>)
  requires sorted(ql.push(x) + qr), put(ql, ql2, e), olt(e.Low, x.Low)
  ensures put(ql.push(x) + qr, ql2.push(x) + qr, e)
{
  let q = ql.push(x) + qr; let q2 = ql2.push(x) + qr; let n = ql.len() as int;
  lemma_split(ql, x, qr);
  let i = choose|i: int| #[trigger] put_at(ql, ql2, e, i);
  assert forall|j: int| 0 <= j < i implies olt((#[trigger] q[j]).Low, e.Low) by { assert(q[j] == ql[j]); }
  if i < n && ql[i].Low == e.Low { assert(q2 =~= q.update(i, e)); assert(q[i] == ql[i]); }
  else {
    assert(q2 =~= q.insert(i, e));
    assert forall|j: int| i <= j < q.len() implies olt(e.Low, (#[trigger] q[j]).Low) by { if j < n { assert(q[j] == ql[j]); } else if j > n { assert(q[j] == qr[j - n - 1]); } }
  }
  assert(put_at(q, q2, e, i));
}
pub proof fn lemma_put_right<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, qr2: Seq<KV<I, V>>, e: KV<I, V>)
  requires sorted(ql.push(x) + qr), put(qr, qr2, e), olt(x.Low, e.Low)
  ensures put(ql.push(x) + qr, ql.push(x) + qr2, e)
{
  let q = ql.push(x) + qr; let q2 = ql.push(x) + qr2; let n = ql.len() as int;
  lemma_split(ql, x, qr);
  let i0 = choose|i: int| #[trigger] put_at(qr, qr2, e, i); let i = i0 + n + 1;
  assert forall|j: int| 0 <= j < i implies olt((#[trigger] q[j]).Low, e.Low) by { if j < n { assert(q[j] == ql[j]); } else if j > n { assert(q[j] == qr[j - n - 1]); } }
  if i0 < qr.len() && qr[i0].Low == e.Low { assert(q2 =~= q.update(i, e)); assert(q[i] == qr[i0]); }
  else {
    assert(q2 =~= q.insert(i, e));
    assert forall|j: int| i <= j < q.len() implies olt(e.Low, (#[trigger] q[j]).Low) by { assert(q[j] == qr[j - n - 1]); }
  }
  assert(put_at(q, q2, e, i));
}
pub proof fn lemma_put_here<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, e: KV<I, V>)
  requires sorted(ql.push(x) + qr), x.Low == e.Low
  ensures put(ql.push(x) + qr, ql.push(e) + qr, e)
{
  let q = ql.push(x) + qr; let q2 = ql.push(e) + qr; let n = ql.len() as int;
  lemma_split(ql, x, qr);
  assert(q[n] == x && q2[n] == e); assert(q2 =~= q.update(n, e));
  assert forall|j: int| 0 <= j < n implies olt((#[trigger] q[j]).Low, e.Low) by { assert(q[j] == ql[j]); }
  assert(put_at(q, q2, e, n));
}
pub proof fn lemma_contains<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>)
  ensures ({ let q = ql.push(x) + qr; q.contains(x) && (forall|y: KV<I, V>| #[trigger] ql.contains(y) ==> q.contains(y)) && (forall|y: KV<I, V>| #[trigger] qr.contains(y) ==> q.contains(y)) })
{
  let q = ql.push(x) + qr; let n = ql.len() as int; assert(q[n] == x);
  assert forall|y: KV<I, V>| #[trigger] ql.contains(y) implies q.contains(y) by { let i = ql.index_of(y); assert(q[i] == y); }
  assert forall|y: KV<I, V>| #[trigger] qr.contains(y) implies q.contains(y) by { let i = qr.index_of(y); assert(q[n + 1 + i] == y); }
}
// where an interval starting at low is
pub proof fn lemma_where<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, low: I)
  requires sorted(ql.push(x) + qr)
  ensures
    ({ let q = ql.push(x) + qr; let n = ql.len() as int;
    (olt(low, x.Low) ==> holds(q, low) == holds(ql, low)) && (olt(x.Low, low) ==> holds(q, low) == holds(qr, low)) && (x.Low == low ==> holds(q, low) && q[n] == x) })
{
  let q = ql.push(x) + qr; let n = ql.len() as int;
  lemma_split(ql, x, qr);
  assert(q[n] == x);
  if olt(low, x.Low) {
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == low implies i < n && q[i] == ql[i] by { if i > n { assert(q[i] == qr[i - n - 1]); assert(olt(x.Low, qr[i - n - 1].Low)); } }
    if holds(ql, low) { let i = choose|i: int| 0 <= i < ql.len() && (#[trigger] ql[i]).Low == low; assert(q[i] == ql[i]); }
    if holds(q, low) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == low; assert(q[i] == ql[i]); }
  }
  if olt(x.Low, low) {
    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == low implies i > n && q[i] == qr[i - n - 1] by { if i < n { assert(q[i] == ql[i]); assert(olt(ql[i].Low, x.Low)); } }
    if holds(qr, low) { let i = choose|i: int| 0 <= i < qr.len() && (#[trigger] qr[i]).Low == low; assert(q[i + n + 1] == qr[i]); }
    if holds(q, low) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == low; assert(q[i] == qr[i - n - 1]); }
  }
}
pub proof fn lemma_del_left<I, V>(ql: Seq<KV<I, V>>, ql2: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, low: I)
  requires sorted(ql.push(x) + qr), del(ql, ql2, low), olt(low, x.Low)
  ensures del(ql.push(x) + qr, ql2.push(x) + qr, low)
{
  let q = ql.push(x) + qr; let q2 = ql2.push(x) + qr;
  lemma_where(ql, x, qr, low);
  if holds(ql, low) {
    let i = choose|i: int| 0 <= i < ql.len() && (#[trigger] ql[i]).Low == low && ql2 == ql.remove(i);
    assert(q[i] == ql[i]); assert(q2 =~= q.remove(i));
  }
}
pub proof fn lemma_del_right<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, qr2: Seq<KV<I, V>>, low: I)
  requires sorted(ql.push(x) + qr), del(qr, qr2, low), olt(x.Low, low)
  ensures del(ql.push(x) + qr, ql.push(x) + qr2, low)
{
  let q = ql.push(x) + qr; let q2 = ql.push(x) + qr2; let n = ql.len() as int;
  lemma_where(ql, x, qr, low);
  if holds(qr, low) {
    let i = choose|i: int| 0 <= i < qr.len() && (#[trigger] qr[i]).Low == low && qr2 == qr.remove(i);
    assert(q[i + n + 1] == qr[i]); assert(q2 =~= q.remove(i + n + 1));
  }
}
pub proof fn lemma_del_here<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, q2: Seq<KV<I, V>>)
  requires q2 =~= ql + qr
  ensures del(ql.push(x) + qr, q2, x.Low)
{
  let q = ql.push(x) + qr; let n = ql.len() as int;
  assert(q[n] == x); assert(q2 =~= q.remove(n));
}
// removing the start of the first interval removes the first interval
pub proof fn lemma_del_first<I, V>(q: Seq<KV<I, V>>, q2: Seq<KV<I, V>>)
  requires sorted(q), q.len() > 0, del(q, q2, q[0].Low)
  ensures q2 == q.skip(1)
{
  assert(q[0].Low == q[0].Low);
  let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == q[0].Low && q2 == q.remove(i);
  if i > 0 { assert(olt(q[0].Low, q[i].Low)); }
  assert(q2 =~= q.skip(1));
}
pub proof fn lemma_sorted_del<I, V>(q: Seq<KV<I, V>>, q2: Seq<KV<I, V>>, low: I)
  requires sorted(q), del(q, q2, low)
  ensures sorted(q2)
{
  if holds(q, low) {
    let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).Low == low && q2 == q.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < q2.len() implies olt((#[trigger] q2[a]).Low, (#[trigger] q2[b]).Low) by { let x = if a < i { q[a] } else { q[a + 1] }; let y = if b < i { q[b] } else { q[b + 1] }; }
  }
}
// ---- the highest upper bound of a tree
pub open spec fn omax<I>(a: I, b: I) -> I { if olt(a, b) { b } else { a } }
pub open spec fn with<I, V>(a: I, t: T<I, V>) -> I { match t { T::E => a, T::N { .. } => omax(a, mh(t)) } }
pub open spec fn mh<I, V>(t: T<I, V>) -> I decreases t {
  match t { T::E => arbitrary(), T::N { k, l, r, .. } => { let a = match *r { T::E => k.high, T::N { .. } => omax(k.high, mh(*r)) }; match *l { T::E => a, T::N { .. } => omax(a, mh(*l)) } } }
}
// every node stores the highest upper bound of the intervals below it
pub open spec fn mxo<I, V>(m: Map<int, node<I, V>>, t: T<I, V>) -> bool decreases t { match t { T::E => true, T::N { a, l, r, .. } => m[a].max == mh(t) && mxo(m, *l) && mxo(m, *r) } }
pub open spec fn mx_of<I, V>(m: Map<int, node<I, V>>, n: int) -> I {
  let a = if m[n].right != 0 { omax(m[n].key.high, m[m[n].right].max) } else { m[n].key.high };
  if m[n].left != 0 { omax(a, m[m[n].left].max) } else { a }
}
pub proof fn lemma_mxkeep<I, V>(m0: Map<int, node<I, V>>, m: Map<int, node<I, V>>, t: T<I, V>)
  requires forall|x: int| #[trigger] inn(t, x) ==> m[x].max == m0[x].max
  ensures mxo(m0, t) == mxo(m, t)
  decreases t
{ match t { T::E => {}, T::N { a, l, r, .. } => { assert(inn(t, a)); assert forall|x: int| #[trigger] inn(*l, x) implies m[x].max == m0[x].max by { assert(inn(t, x)); } assert forall|x: int| #[trigger] inn(*r, x) implies m[x].max == m0[x].max by { assert(inn(t, x)); } lemma_mxkeep(m0, m, *l); lemma_mxkeep(m0, m, *r); } } }
// a node whose bound was recomputed from its children
pub proof fn lemma_mx<I, V>(m: Map<int, node<I, V>>, t: T<I, V>)
  requires okt(m, t), t is N
  ensures mxo(m, lf(t)) && mxo(m, rt(t)) && m[root(t)].max == mx_of(m, root(t)) ==> mxo(m, t),
    mxo(m, t) ==> mxo(m, lf(t)) && mxo(m, rt(t)) && m[root(t)].max == mh(t)
{
  lemma_kids(m, t);
  if mxo(m, lf(t)) && mxo(m, rt(t)) && m[root(t)].max == mx_of(m, root(t)) {
    match t { T::E => {}, T::N { a, k, l, r, .. } => {
      match *r { T::E => {}, T::N { a: a2, .. } => { assert(a2 != 0); assert(m[a2].max == mh(*r)); } }
      match *l { T::E => {}, T::N { a: a2, .. } => { assert(a2 != 0); assert(m[a2].max == mh(*l)); } }
      assert(m[a].max == mh(t));
    } }
  }
}
pub proof fn lemma_mh<I, V>(t: T<I, V>)
  ensures forall|i: int| 0 <= i < sq(t).len() ==> !olt(mh(t), (#[trigger] sq(t)[i]).High)
  decreases t
{
  match t { T::E => {}, T::N { k, v, l, r, .. } => {
    lemma_mh(*l); lemma_mh(*r);
    let ql = sq(*l); let n = ql.len() as int; let qr = sq(*r);
    assert(!olt(mh(t), k.high));
    assert(*l is E || !olt(mh(t), mh(*l))); assert(*r is E || !olt(mh(t), mh(*r)));
    assert forall|i: int| 0 <= i < sq(t).len() implies !olt(mh(t), (#[trigger] sq(t)[i]).High) by {
      if i < n { assert(sq(t)[i] == ql[i]); assert(!olt(mh(*l), ql[i].High)); } else if i == n { assert(sq(t)[i] == en(k, v)); } else { assert(sq(t)[i] == qr[i - n - 1]); assert(!olt(mh(*r), qr[i - n - 1].High)); }
    }
  } }
}
// the intervals of q that overlap [lo, hi)
pub open spec fn hit<I, V>(e: KV<I, V>, lo: I, hi: I) -> bool { olt(e.Low, hi) && olt(lo, e.High) }
pub open spec fn sel<I, V>(q: Seq<KV<I, V>>, lo: I, hi: I) -> Seq<KV<I, V>> decreases q.len() {
  if q.len() == 0 { q } else if hit(q.last(), lo, hi) { sel(q.drop_last(), lo, hi).push(q.last()) } else { sel(q.drop_last(), lo, hi) }
}
pub proof fn lemma_sel_add<I, V>(a: Seq<KV<I, V>>, b: Seq<KV<I, V>>, lo: I, hi: I)
  ensures sel(a + b, lo, hi) == sel(a, lo, hi) + sel(b, lo, hi)
  decreases b.len()
{
  if b.len() == 0 { assert(a + b =~= a); assert(sel(a, lo, hi) + sel(b, lo, hi) =~= sel(a, lo, hi)); }
  else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_sel_add(a, b.drop_last(), lo, hi); assert(sel(a + b, lo, hi) =~= sel(a, lo, hi) + sel(b, lo, hi)); }
}
pub proof fn lemma_sel_none<I, V>(q: Seq<KV<I, V>>, lo: I, hi: I)
  requires forall|i: int| 0 <= i < q.len() ==> !hit(#[trigger] q[i], lo, hi)
  ensures sel(q, lo, hi) =~= Seq::<KV<I, V>>::empty()
  decreases q.len()
{ if q.len() > 0 { assert(!hit(q[q.len() - 1], lo, hi)); let p = q.drop_last(); assert forall|i: int| 0 <= i < p.len() implies !hit(#[trigger] p[i], lo, hi) by { assert(p[i] == q[i]); } lemma_sel_none(p, lo, hi); } }
pub proof fn lemma_sel_node<I, V>(ql: Seq<KV<I, V>>, x: KV<I, V>, qr: Seq<KV<I, V>>, lo: I, hi: I)
  ensures sel(ql.push(x) + qr, lo, hi) == (if hit(x, lo, hi) { sel(ql, lo, hi).push(x) } else { sel(ql, lo, hi) }) + sel(qr, lo, hi)
{ lemma_sel_add(ql.push(x), qr, lo, hi); assert(ql.push(x).drop_last() =~= ql); assert(ql.push(x).last() == x); }
pub open spec fn tri<I, V>(q: Seq<KV<I, V>>) -> Seq<(I, I, V)> { Seq::new(q.len(), |i: int| (q[i].Low, q[i].High, q[i].Val)) }
// the arrays that existed before are as they were, except the one a is about
pub open spec fn arr_grown<I, V>(m0: Map<int, Seq<KV<I, V>>>, m: Map<int, Seq<KV<I, V>>>, a: int, r: int) -> bool {
  (r == a || (r != 0 && !m0.dom().contains(r))) && (forall|x: int| #[trigger] m0.dom().contains(x) ==> m.dom().contains(x)) && m[0] == m0[0] && (forall|x: int| #[trigger] m0.dom().contains(x) && x != a ==> m[x] == m0[x])
}
pub proof fn lemma_levels<I, V>(t: T<I, V>)
  requires bal(t)
  ensures levels(t) == ht(t), num(t) >= sparsest(ht(t)), ht(t) >= 0
  decreases t
{
  match t { T::E => {}, T::N { l, r, h, .. } => { lemma_levels(*l); lemma_levels(*r); if ht(*l) <= ht(*r) { lemma_sparsest(ht(*l), ht(*r)); } else { lemma_sparsest(ht(*r), ht(*l)); } if h >= 2 { if ht(*l) < ht(*r) { assert(ht(*l) == h - 2); } else if ht(*r) < ht(*l) { assert(ht(*r) == h - 2); } else { lemma_sparsest(h - 2, h - 1); } } } }
}
pub proof fn lemma_sparsest(a: int, b: int)
  requires a <= b
  ensures sparsest(a) <= sparsest(b), 0 <= sparsest(a)
  decreases b, b - a
{
  if a <= 0 { if b > 1 { lemma_sparsest(0, b - 1); lemma_sparsest(0, b - 2); } }
  else if b > 1 && a < b { lemma_sparsest(a, b - 1); lemma_sparsest(0, b - 2); }
  else if a > 1 { lemma_sparsest(0, a - 1); lemma_sparsest(0, a - 2); }
}

// ---- the map
pub open spec fn wf<I, V>(s: S<I, V>, p: int) -> bool {
  &&& p != 0 && s.Tree.dom().contains(p) && ok(s.node, s.Tree[p].root)
  &&& sorted(view(s, p)) && nonneg(tr_of(s, p))
}
pub open spec fn tr_of<I, V>(s: S<I, V>, p: int) -> T<I, V> { tree(s.node, s.Tree[p].root) }
// the entries in increasing key order
pub open spec fn view<I, V>(s: S<I, V>, p: int) -> Seq<KV<I, V>> { sq(tr_of(s, p)) }
pub open spec fn balanced<I, V>(s: S<I, V>, p: int) -> bool { bal(tr_of(s, p)) }
pub open spec fn separate<I, V>(s: S<I, V>, p: int, q: int) -> bool { p != q && apart(tr_of(s, p), tr_of(s, q)) }
// the stored bounds are exact
pub open spec fn exact<I, V>(s: S<I, V>, p: int) -> bool { mxo(s.node, tr_of(s, p)) }
pub open spec fn others_exact<I, V>(s0: S<I, V>, s: S<I, V>, p: int) -> bool { forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> exact(s0, q) ==> exact(s, q) }
// every other tree that shares no node with p stays as it is and still shares none
pub open spec fn others_kept<I, V>(s0: S<I, V>, s: S<I, V>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && tr_of(s, q) == tr_of(s0, q) && s.Tree[q] == s0.Tree[q]
}
pub open spec fn ky<I, V>(t: T<I, V>) -> intrvl<I> { t->N_k }
pub open spec fn vl<I, V>(t: T<I, V>) -> V { t->N_v }
pub open spec fn rotl<I, V>(t: T<I, V>) -> T<I, V> {
  let x = rt(t); let h1 = 1 + max2(ht(lf(t)), ht(lf(x)));
  mk(root(x), ky(x), vl(x), 1 + max2(h1, ht(rt(x))), mk(root(t), ky(t), vl(t), h1, lf(t), lf(x)), rt(x))
}
pub open spec fn rotr<I, V>(t: T<I, V>) -> T<I, V> {
  let x = lf(t); let h1 = 1 + max2(ht(rt(x)), ht(rt(t)));
  mk(root(x), ky(x), vl(x), 1 + max2(ht(lf(x)), h1), lf(x), mk(root(t), ky(t), vl(t), h1, rt(x), rt(t)))
}
pub proof fn lemma_trans<I, V>(m0: Map<int, node<I, V>>, m1: Map<int, node<I, V>>, m2: Map<int, node<I, V>>, t: T<I, V>, u: T<I, V>, w: T<I, V>)
  requires frame(m0, m1, t), grown(m0, t, u), frame(m1, m2, u), grown(m1, u, w)
  ensures frame(m0, m2, t), grown(m0, t, w)
{}
// the tree after a left rotation, whatever the heights
pub proof fn lemma_rotl<I, V>(m0: Map<int, node<I, V>>, m: Map<int, node<I, V>>, n: int, t: T<I, V>)
  requires is(m0, n, t), n != 0, root(rt(t)) != 0,
    ({ let x = root(rt(t)); m == m0.insert(n, m[n]).insert(x, m[x]) && m[n] == (node { right: m0[x].left, height: m[n].height, max: m[n].max, ..m0[n] }) && m[x] == (node { left: n, height: m[x].height, max: m[x].max, ..m0[x] }) })
  ensures ({ let x = rt(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, mk(n, ky(t), vl(t), m[n].height, lf(t), lf(x)), rt(x));
    is(m, root(x), u) && sq(u) == sq(t) && frame(m0, m, t) && grown(m0, t, u) && tree(m, root(x)) == u && ok(m, root(x))
    && (mxo(m0, lf(t)) && mxo(m0, rt(t)) && m[n].max == mx_of(m, n) && m[root(x)].max == mx_of(m, root(x)) ==> mxo(m, u)) })
{
  let x = rt(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, mk(n, ky(t), vl(t), m[n].height, lf(t), lf(x)), rt(x));
  lemma_kids(m0, t); lemma_kids(m0, x);
  assert forall|y: int| #[trigger] inn(lf(t), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(y != n && y != root(x)); }
  assert forall|y: int| #[trigger] inn(lf(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  assert forall|y: int| #[trigger] inn(rt(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  lemma_keep(m0, m, lf(t)); lemma_keep(m0, m, lf(x)); lemma_keep(m0, m, rt(x)); lemma_mxkeep(m0, m, lf(t)); lemma_mxkeep(m0, m, lf(x)); lemma_mxkeep(m0, m, rt(x)); lemma_mx(m0, x);
  assert(okt(m, u)) by { assert(okt(m, *u->N_l)); }
  lemma_mx(m, *u->N_l); lemma_mx(m, u); assert(lf(*u->N_l) == lf(t) && rt(*u->N_l) == lf(x) && rt(u) == rt(x));
  assert(sq(t) == sq(lf(t)).push(en(ky(t), vl(t))) + sq(x)); assert(sq(x) == sq(lf(x)).push(en(ky(x), vl(x))) + sq(rt(x)));
  assert(sq(u) == sq(*u->N_l).push(en(ky(x), vl(x))) + sq(rt(x))); assert(sq(*u->N_l) == sq(lf(t)).push(en(ky(t), vl(t))) + sq(lf(x)));
  assert(sq(u) =~= sq(t));
  assert forall|y: int| #[trigger] inn(u, y) implies inn(t, y) by { if y == root(x) {} else if inn(*u->N_l, y) { if y != n && !inn(lf(t), y) { assert(inn(lf(x), y)); } } else { assert(inn(rt(x), y)); } }
  lemma_is(m, root(x), u);
}
pub proof fn lemma_rotr<I, V>(m0: Map<int, node<I, V>>, m: Map<int, node<I, V>>, n: int, t: T<I, V>)
  requires is(m0, n, t), n != 0, root(lf(t)) != 0,
    ({ let x = root(lf(t)); m == m0.insert(n, m[n]).insert(x, m[x]) && m[n] == (node { left: m0[x].right, height: m[n].height, max: m[n].max, ..m0[n] }) && m[x] == (node { right: n, height: m[x].height, max: m[x].max, ..m0[x] }) })
  ensures ({ let x = lf(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, lf(x), mk(n, ky(t), vl(t), m[n].height, rt(x), rt(t)));
    is(m, root(x), u) && sq(u) == sq(t) && frame(m0, m, t) && grown(m0, t, u) && tree(m, root(x)) == u && ok(m, root(x))
    && (mxo(m0, lf(t)) && mxo(m0, rt(t)) && m[n].max == mx_of(m, n) && m[root(x)].max == mx_of(m, root(x)) ==> mxo(m, u)) })
{
  let x = lf(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, lf(x), mk(n, ky(t), vl(t), m[n].height, rt(x), rt(t)));
  lemma_kids(m0, t); lemma_kids(m0, x);
  assert forall|y: int| #[trigger] inn(rt(t), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(y != n && y != root(x)); }
  assert forall|y: int| #[trigger] inn(lf(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  assert forall|y: int| #[trigger] inn(rt(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  lemma_keep(m0, m, rt(t)); lemma_keep(m0, m, lf(x)); lemma_keep(m0, m, rt(x)); lemma_mxkeep(m0, m, rt(t)); lemma_mxkeep(m0, m, lf(x)); lemma_mxkeep(m0, m, rt(x)); lemma_mx(m0, x);
  assert(okt(m, u)) by { assert(okt(m, *u->N_r)); }
  lemma_mx(m, *u->N_r); lemma_mx(m, u); assert(lf(*u->N_r) == rt(x) && rt(*u->N_r) == rt(t) && lf(u) == lf(x));
  assert(sq(t) == sq(x).push(en(ky(t), vl(t))) + sq(rt(t))); assert(sq(x) == sq(lf(x)).push(en(ky(x), vl(x))) + sq(rt(x)));
  assert(sq(u) == sq(lf(x)).push(en(ky(x), vl(x))) + sq(*u->N_r)); assert(sq(*u->N_r) == sq(rt(x)).push(en(ky(t), vl(t))) + sq(rt(t)));
  assert(sq(u) =~= sq(t));
  assert forall|y: int| #[trigger] inn(u, y) implies inn(t, y) by { if y == root(x) {} else if inn(*u->N_r, y) { if y != n && !inn(rt(t), y) { assert(inn(rt(x), y)); } } else { assert(inn(lf(x), y)); } }
  lemma_is(m, root(x), u);
}
pub open spec fn reb<I, V>(t: T<I, V>) -> T<I, V> {
  let l = lf(t); let r = rt(t); let d = ht(l) - ht(r);
  if d <= -2 { if ht(lf(r)) > ht(rt(r)) { rotl(mk(root(t), ky(t), vl(t), ht(t), l, rotr(r))) } else { rotl(t) } }
  else if d >= 2 { if ht(rt(l)) > ht(lf(l)) { rotr(mk(root(t), ky(t), vl(t), ht(t), rotl(l), r)) } else { rotr(t) } }
  else { t }
}
pub open spec fn balanced_by(l: int, r: int, m: int, h: int) -> bool { m == max2(l, r) && if -1 <= l - r <= 1 { h == m + 1 } else { m <= h <= m + 1 } }
pub proof fn lemma_reb<I, V>(t: T<I, V>)
  ensures t is N && bal(lf(t)) && bal(rt(t)) && -2 <= ht(lf(t)) - ht(rt(t)) <= 2 && ht(t) == 1 + max2(ht(lf(t)), ht(rt(t))) ==> bal(reb(t)) && balanced_by(ht(lf(t)), ht(rt(t)), max2(ht(lf(t)), ht(rt(t))), ht(reb(t)))
{
  reveal_with_fuel(bal, 4);
  let l = lf(t); let r = rt(t);
  if t is N && bal(lf(t)) && bal(rt(t)) && -2 <= ht(lf(t)) - ht(rt(t)) <= 2 && ht(t) == 1 + max2(ht(lf(t)), ht(rt(t))) {
  lemma_levels(l); lemma_levels(r);
  if ht(l) - ht(r) <= -2 { lemma_levels(lf(r)); lemma_levels(rt(r)); if ht(lf(r)) > ht(rt(r)) { let y = lf(r); lemma_levels(lf(y)); lemma_levels(rt(y)); } }
  else if ht(l) - ht(r) >= 2 { lemma_levels(lf(l)); lemma_levels(rt(l)); if ht(rt(l)) > ht(lf(l)) { let y = rt(l); lemma_levels(lf(y)); lemma_levels(rt(y)); } }
  }
}
pub proof fn lemma_kept<I, V>(s0: S<I, V>, s: S<I, V>, p: int)
  requires wf(s0, p), frame(s0.node, s.node, tr_of(s0, p)), grown(s0.node, tr_of(s0, p), tr_of(s, p)), s.Tree =~= s0.Tree.insert(p, s.Tree[p]), ok(s.node, s.Tree[p].root)
  ensures others_kept(s0, s, p), others_exact(s0, s, p)
{
  assert forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) implies wf(s, q) && separate(s, p, q) && tr_of(s, q) == tr_of(s0, q) && s.Tree[q] == s0.Tree[q] && (exact(s0, q) ==> exact(s, q)) by {
    let t = tr_of(s0, q);
    lemma_dom(s0.node, t); lemma_dom(s0.node, tr_of(s0, p));
    assert(s.Tree[q] == s0.Tree[q]);
    assert forall|x: int| #[trigger] inn(t, x) implies s.node.dom().contains(x) && s.node[x] == s0.node[x] by { assert(!inn(tr_of(s0, p), x)); }
    lemma_keep(s0.node, s.node, t); lemma_mxkeep(s0.node, s.node, t); lemma_is(s.node, s0.Tree[q].root, t);
    assert forall|x: int| !(#[trigger] inn(tr_of(s, p), x) && #[trigger] inn(t, x)) by { if inn(tr_of(s, p), x) && inn(t, x) { assert(!inn(tr_of(s0, p), x)); } }
  }
}

pub proof fn lemma_open2<I, V>(m: Map<int, node<I, V>>, p: int)
  ensures ok(m, p) && p != 0 ==> ({ let t = tree(m, p); t == mk(p, m[p].key, m[p].value, m[p].height, lf(t), rt(t)) && is(m, m[p].left, lf(t)) && is(m, m[p].right, rt(t)) && tree(m, m[p].left) == lf(t) && tree(m, m[p].right) == rt(t)
    && ok(m, m[p].left) && ok(m, m[p].right) && !inn(lf(t), p) && !inn(rt(t), p) && apart(lf(t), rt(t)) && m.dom().contains(p) && num(lf(t)) < num(t) && num(rt(t)) < num(t) }),
    ok(m, p) && p == 0 ==> tree(m, p) == T::<I, V>::E
{ if ok(m, p) && p != 0 { lemma_open(m, p); } }
// the node n was rewritten in place, its children kept
pub proof fn lemma_sync<I, V>(m0: Map<int, node<I, V>>, mc: Map<int, node<I, V>>, m: Map<int, node<I, V>>, n: int, t0: T<I, V>, tc: T<I, V>) -> (t: T<I, V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), m =~= mc.insert(n, m[n]), m[n].left == mc[n].left, m[n].right == mc[n].right
  ensures t == mk(n, m[n].key, m[n].value, m[n].height, lf(tc), rt(tc)), is(m, n, t), tree(m, n) == t, ok(m, n), frame(m0, m, t0), grown(m0, t0, t),
    is(m, m[n].left, lf(t)), is(m, m[n].right, rt(t)), tree(m, m[n].left) == lf(t), tree(m, m[n].right) == rt(t), ok(m, m[n].left), ok(m, m[n].right),
    sq(t) == sq(lf(tc)).push(en(m[n].key, m[n].value)) + sq(rt(tc)),
    mxo(mc, lf(tc)) ==> mxo(m, lf(tc)), mxo(mc, rt(tc)) ==> mxo(m, rt(tc))
{
  lemma_root(mc, m, n, tc);
  let t = mk(n, m[n].key, m[n].value, m[n].height, lf(tc), rt(tc));
  lemma_trans(m0, mc, m, t0, tc, t); lemma_is(m, n, t); lemma_open(m, n);
  t
}
pub proof fn lemma_right_sync<I, V>(m0: Map<int, node<I, V>>, mc: Map<int, node<I, V>>, ma: Map<int, node<I, V>>, n: int, t0: T<I, V>, tc: T<I, V>, u: T<I, V>) -> (t: T<I, V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), okt(ma, u), frame(mc, ma, rt(tc)), grown(mc, rt(tc), u)
  ensures t == mk(n, ma[n].key, ma[n].value, ma[n].height, lf(tc), u), ma[n] == mc[n],
    ({ let m = ma.insert(n, node { right: root(u), ..ma[n] }); is(m, n, t) && tree(m, n) == t && ok(m, n) && frame(m0, m, t0) && grown(m0, t0, t) }),
    sq(t) == sq(lf(tc)).push(en(mc[n].key, mc[n].value)) + sq(u),
    ({ let m = ma.insert(n, node { right: root(u), ..ma[n] }); (mxo(mc, lf(tc)) ==> mxo(m, lf(tc))) && (mxo(ma, u) ==> mxo(m, u)) })
{
  let m = ma.insert(n, node { right: root(u), ..ma[n] });
  assert(ma[n] == mc[n]) by { assert(!inn(rt(tc), n)); assert(mc.dom().contains(n)); }
  lemma_right(mc, ma, m, n, tc, u);
  let t = mk(n, ma[n].key, ma[n].value, ma[n].height, lf(tc), u);
  lemma_trans(m0, mc, m, t0, tc, t); lemma_is(m, n, t);
  t
}
pub proof fn lemma_left_sync<I, V>(m0: Map<int, node<I, V>>, mc: Map<int, node<I, V>>, ma: Map<int, node<I, V>>, n: int, t0: T<I, V>, tc: T<I, V>, u: T<I, V>) -> (t: T<I, V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), okt(ma, u), frame(mc, ma, lf(tc)), grown(mc, lf(tc), u)
  ensures t == mk(n, ma[n].key, ma[n].value, ma[n].height, u, rt(tc)), ma[n] == mc[n],
    ({ let m = ma.insert(n, node { left: root(u), ..ma[n] }); is(m, n, t) && tree(m, n) == t && ok(m, n) && frame(m0, m, t0) && grown(m0, t0, t) }),
    sq(t) == sq(u).push(en(mc[n].key, mc[n].value)) + sq(rt(tc)),
    ({ let m = ma.insert(n, node { left: root(u), ..ma[n] }); (mxo(mc, rt(tc)) ==> mxo(m, rt(tc))) && (mxo(ma, u) ==> mxo(m, u)) })
{
  let m = ma.insert(n, node { left: root(u), ..ma[n] });
  assert(ma[n] == mc[n]) by { assert(!inn(lf(tc), n)); assert(mc.dom().contains(n)); }
  lemma_left(mc, ma, m, n, tc, u);
  let t = mk(n, ma[n].key, ma[n].value, ma[n].height, u, rt(tc));
  lemma_trans(m0, mc, m, t0, tc, t); lemma_is(m, n, t);
  t
}

// what non-negative heights, and balance, say of the children
pub proof fn lemma_nn<I, V>(t: T<I, V>)
  ensures nonneg(t) ==> ht(t) >= 0 && nonneg(lf(t)) && nonneg(rt(t)) && ht(lf(t)) >= 0 && ht(rt(t)) >= 0,
    bal(t) ==> bal(lf(t)) && bal(rt(t)) && -1 <= ht(lf(t)) - ht(rt(t)) <= 1 && (root(t) != 0 ==> ht(t) == 1 + max2(ht(lf(t)), ht(rt(t)))) && ht(t) >= 0 && ht(lf(t)) >= 0 && ht(rt(t)) >= 0
{ reveal_with_fuel(nonneg, 3); reveal_with_fuel(bal, 2); if bal(t) { lemma_levels(t); lemma_levels(lf(t)); lemma_levels(rt(t)); } }

pub open spec fn none_kv<I, V>() -> KV<I, V> { KV { Low: zero::<I>(), High: zero::<I>(), Val: zero::<V>() } }
pub proof fn lemma_mxs<I, V>(m: Map<int, node<I, V>>, t: T<I, V>)
  requires okt(m, t)
  ensures t is N && mxo(m, lf(t)) && mxo(m, rt(t)) && m[root(t)].max == mx_of(m, root(t)) ==> mxo(m, t),
    mxo(m, t) ==> mxo(m, lf(t)) && mxo(m, rt(t)) && (t is N ==> m[root(t)].max == mh(t)), okt(m, lf(t)), okt(m, rt(t))
{ lemma_kids(m, t); if t is N { lemma_mx(m, t); } }

@func overlaps (i1, i2) (r)
@flag pure
@flag prop I02
@ensures r == (olt(i1.low, i2.high) && olt(i2.low, i1.high))

@func node.updateMax (n)
@requires n != 0 ==> s.node.dom().contains(n) && s.node[n].left != n && s.node[n].right != n && (s.node[n].left != 0 ==> s.node.dom().contains(s.node[n].left)) && (s.node[n].right != 0 ==> s.node.dom().contains(s.node[n].right))
@ensures n == 0 ==> s == s0
@ensures n != 0 ==> s.node == s0.node.insert(n, node { max: s.node[n].max, ..s0.node[n] }) && s.Tree == s0.Tree
@ensures[I02] n != 0 ==> s.node[n].max == mx_of(s0.node, n)
@exit if n != 0 { assert(s.node =~= s0.node.insert(n, node { max: s.node[n].max, ..s0.node[n] })); }

@func node.rotateLeft (n) (r)
@requires ok(s.node, n) && n != 0 && s.node[n].right != 0
@ensures ok(s.node, r) && r == s0.node[n].right && sq(tree(s.node, r)) == sq(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures nonneg(tree(s0.node, n)) ==> nonneg(tree(s.node, r))
@ensures[I03] tree(s.node, r) == rotl(tree(s0.node, n))
@ensures[I02] mxo(s0.node, lf(tree(s0.node, n))) && mxo(s0.node, rt(tree(s0.node, n))) ==> mxo(s.node, tree(s.node, r))
@entry let m0 = s.node; let t0 = tree(m0, n); lemma_open(m0, n); lemma_open(m0, m0[n].right); lemma_kids(m0, t0); lemma_kids(m0, rt(t0));
@exit assert(s.node =~= m0.insert(n, s.node[n]).insert(r, s.node[r])); lemma_rotl(m0, s.node, n, t0); reveal_with_fuel(nonneg, 4);

@func node.rotateRight (n) (r)
@requires ok(s.node, n) && n != 0 && s.node[n].left != 0
@ensures ok(s.node, r) && r == s0.node[n].left && sq(tree(s.node, r)) == sq(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures nonneg(tree(s0.node, n)) ==> nonneg(tree(s.node, r))
@ensures[I03] tree(s.node, r) == rotr(tree(s0.node, n))
@ensures[I02] mxo(s0.node, lf(tree(s0.node, n))) && mxo(s0.node, rt(tree(s0.node, n))) ==> mxo(s.node, tree(s.node, r))
@entry let m0 = s.node; let t0 = tree(m0, n); lemma_open(m0, n); lemma_open(m0, m0[n].left); lemma_kids(m0, t0); lemma_kids(m0, lf(t0));
@exit assert(s.node =~= m0.insert(n, s.node[n]).insert(r, s.node[r])); lemma_rotr(m0, s.node, n, t0); reveal_with_fuel(nonneg, 4);

@func node.rebalanceTree (n) (r)
@requires ok(s.node, n) && nonneg(lf(tree(s.node, n))) && nonneg(rt(tree(s.node, n)))
@ensures ok(s.node, r) && (r == 0) == (n == 0) && sq(tree(s.node, r)) == sq(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures nonneg(tree(s.node, r))
@ensures[I03] ({ let t = tree(s0.node, n); let l = lf(t); let r1 = rt(t); n != 0 && bal(l) && bal(r1) && -2 <= ht(l) - ht(r1) <= 2 ==> bal(tree(s.node, r)) && balanced_by(ht(l), ht(r1), max2(ht(l), ht(r1)), ht(tree(s.node, r))) })
@ensures[I02] mxo(s0.node, lf(tree(s0.node, n))) && mxo(s0.node, rt(tree(s0.node, n))) ==> mxo(s.node, tree(s.node, r))
@entry let m0 = s.node; let t0 = tree(m0, n); if n != 0 { lemma_open(m0, n); lemma_open2(m0, m0[n].left); lemma_open2(m0, m0[n].right); lemma_kids(m0, t0); } let mut mc = m0; let mut tc = t0;
@before node.rotateRight#1 lemma_nn(rt(t0)); tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node; lemma_open2(mc, root(rt(tc))); lemma_open2(mc, root(lf(rt(tc)))); lemma_open2(mc, root(rt(rt(tc)))); lemma_mxs(mc, rt(tc));
@after node.rotateRight#1 tc = lemma_right_sync(m0, mc, s.node, n, t0, tc, tree(s.node, mc[mc[n].right].left)); mc = s.node.insert(n, node { right: root(rt(tc)), ..s.node[n] });
@before node.rotateLeft#1 tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node;
@before node.rotateLeft#2 lemma_nn(lf(t0)); tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node; lemma_open2(mc, root(lf(tc))); lemma_open2(mc, root(lf(lf(tc)))); lemma_open2(mc, root(rt(lf(tc)))); lemma_mxs(mc, lf(tc));
@after node.rotateLeft#2 tc = lemma_left_sync(m0, mc, s.node, n, t0, tc, tree(s.node, mc[mc[n].left].right)); mc = s.node.insert(n, node { left: root(lf(tc)), ..s.node[n] });
@before node.rotateRight#2 tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node;
@exit if n != 0 { if r == n { tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node; lemma_mxs(mc, tc); } lemma_trans(m0, mc, s.node, t0, tc, tree(s.node, r)); lemma_reb(mk(n, ky(t0), vl(t0), 1 + max2(ht(lf(t0)), ht(rt(t0))), lf(t0), rt(t0))); }

@func node.findSmallest (n) (r)
@decreases num(tree(s.node, n))
@requires ok(s.node, n) && n != 0
@ensures r != 0 && s.node.dom().contains(r) && sq(tree(s.node, n)).len() > 0 && sq(tree(s.node, n))[0] == en(s.node[r].key, s.node[r].value)
@entry lemma_open(s.node, n); let t = tree(s.node, n); assert(sq(t) == sq(lf(t)).push(en(ky(t), vl(t))) + sq(rt(t)));
@exit if s.node[n].left != 0 { assert(sq(t)[0] == sq(lf(t))[0]); } else { assert(sq(t)[0] == en(ky(t), vl(t))); }

@func node.size (n) (r)
@flag counts
@decreases num(tree(s.node, n))
@requires ok(s.node, n)
@ensures r == sq(tree(s.node, n)).len()
@entry if n != 0 { lemma_open(s.node, n); let t = tree(s.node, n); assert(sq(t) == sq(lf(t)).push(en(ky(t), vl(t))) + sq(rt(t))); }

@func node.each (n, fn)
@decreases num(tree(s.node, n))
@requires ok(s.node, n)
@ensures tr == tr0 + tri(sq(tree(s.node, n)))
@entry if n != 0 { lemma_open(s.node, n); let t = tree(s.node, n); assert(sq(t) == sq(lf(t)).push(en(ky(t), vl(t))) + sq(rt(t))); }
@exit assert(tr =~= tr0 + tri(sq(tree(s.node, n))));

@func node.search (n, low) (r)
@decreases num(tree(s.node, n))
@requires ok(s.node, n) && sorted(sq(tree(s.node, n)))
@ensures (r != 0) == holds(sq(tree(s.node, n)), low)
@ensures r != 0 ==> s.node.dom().contains(r) && s.node[r].key.low == low && sq(tree(s.node, n)).contains(en(s.node[r].key, s.node[r].value))
@entry let t = tree(s.node, n); if n != 0 { lemma_open(s.node, n); let x = en(ky(t), vl(t)); lemma_split(sq(lf(t)), x, sq(rt(t))); lemma_where(sq(lf(t)), x, sq(rt(t)), low); assert(sq(t) == sq(lf(t)).push(x) + sq(rt(t))); lemma_contains(sq(lf(t)), x, sq(rt(t))); }

@func node.overlaps (n, key, result) (r)
@decreases num(tree(s.node, n))
@flag prop I02
@requires ok(s.node, n) && sorted(sq(tree(s.node, n))) && mxo(s.node, tree(s.node, n)) && slwf(s.arr_interval_KV_I_V, result)
@ensures slwf(s.arr_interval_KV_I_V, r) && sv(s.arr_interval_KV_I_V, r) == sv(s0.arr_interval_KV_I_V, result) + sel(sq(tree(s.node, n)), key.low, key.high)
@ensures s.node == s0.node && s.Tree == s0.Tree && arr_grown(s0.arr_interval_KV_I_V, s.arr_interval_KV_I_V, result.arr, r.arr)
@entry let t = tree(s.node, n); if n != 0 { lemma_open(s.node, n); let x = en(ky(t), vl(t)); lemma_split(sq(lf(t)), x, sq(rt(t))); assert(sq(t) == sq(lf(t)).push(x) + sq(rt(t))); lemma_mxs(s.node, t); lemma_mh(t); lemma_sel_node(sq(lf(t)), x, sq(rt(t)), key.low, key.high); if !olt(key.low, s.node[n].max) { lemma_sel_none(sq(t), key.low, key.high); } if !olt(s.node[n].key.low, key.high) { lemma_sel_none(sq(rt(t)), key.low, key.high); } }
@before node.overlaps#2 assert(arr_grown(s0.arr_interval_KV_I_V, s.arr_interval_KV_I_V, result.arr, v_result.arr));
@exit assert(sv(s.arr_interval_KV_I_V, r) =~= sv(s0.arr_interval_KV_I_V, result) + sel(sq(t), key.low, key.high));

@func node.insert (n, key, value, overwrite) (r, kv, found)
@decreases num(tree(s.node, n))
@requires ok(s.node, n) && sorted(sq(tree(s.node, n))) && nonneg(tree(s.node, n))
@ensures ok(s.node, r) && r != 0 && nonneg(tree(s.node, r)) && found == holds(sq(tree(s0.node, n)), key.low) && (if found { kv.Low == key.low && sq(tree(s0.node, n)).contains(kv) } else { kv == none_kv::<I, V>() })
@ensures if found && !overwrite { sq(tree(s.node, r)) == sq(tree(s0.node, n)) } else { put(sq(tree(s0.node, n)), sq(tree(s.node, r)), en(key, value)) }
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures[I03] bal(tree(s0.node, n)) ==> bal(tree(s.node, r)) && ht(tree(s0.node, n)) <= ht(tree(s.node, r)) <= ht(tree(s0.node, n)) + 1
@ensures[I02] mxo(s0.node, tree(s0.node, n)) ==> mxo(s.node, tree(s.node, r))
@entry let m0 = s.node; let t = tree(m0, n); let mut ma = m0; let mut mb = m0; let mut tc = t; let x = en(ky(t), vl(t)); let y = en(key, value); if n != 0 { lemma_open(m0, n); lemma_split(sq(lf(t)), x, sq(rt(t))); lemma_where(sq(lf(t)), x, sq(rt(t)), key.low); lemma_contains(sq(lf(t)), x, sq(rt(t))); assert(sq(t) == sq(lf(t)).push(x) + sq(rt(t))); lemma_dom(m0, t); lemma_mxs(m0, t); }
@after node.insert ma = s.node;
@before node.rebalanceTree#1 let u = if olt(key.low, ky(t).low) { tree(ma, s.node[n].left) } else { tree(ma, s.node[n].right) }; if olt(key.low, ky(t).low) { assert(s.node =~= ma.insert(n, node { left: root(u), ..ma[n] })); lemma_left(m0, ma, s.node, n, t, u); if put(sq(lf(t)), sq(u), y) { lemma_put_left(sq(lf(t)), sq(u), x, sq(rt(t)), y); } tc = mk(n, ky(t), vl(t), ht(t), u, rt(t)); } else if olt(ky(t).low, key.low) { assert(s.node =~= ma.insert(n, node { right: root(u), ..ma[n] })); lemma_right(m0, ma, s.node, n, t, u); if put(sq(rt(t)), sq(u), y) { lemma_put_right(sq(lf(t)), x, sq(rt(t)), sq(u), y); } tc = mk(n, ky(t), vl(t), ht(t), lf(t), u); } else { assert(s.node =~= m0.insert(n, s.node[n])); lemma_root(m0, s.node, n, t); tc = mk(n, s.node[n].key, s.node[n].value, s.node[n].height, lf(t), rt(t)); lemma_put_here(sq(lf(t)), x, sq(rt(t)), y); } lemma_is(s.node, n, tc); mb = s.node;
@exit if n == 0 { let w = mk(r, key, value, s.node[r].height, T::E, T::E); lemma_is(m0, 0, T::E); assert(okt(s.node, T::<I, V>::E)); assert(apart(T::<I, V>::E, T::<I, V>::E)); assert(!inn(T::<I, V>::E, r)); lemma_is(s.node, r, w); assert(sq(w) =~= seq![y]); assert(sq(w) =~= sq(t).insert(0, y)); assert(put_at(sq(t), sq(w), y, 0)); lemma_mxs(s.node, w); } else if s.node == m0 { lemma_trans(m0, m0, m0, t, t, t); } else { lemma_trans(m0, mb, s.node, t, tc, tree(s.node, r)); }

@func node.removeThis (n) (r)
@decreases num(tree(s.node, n)), 0int
@requires ok(s.node, n) && n != 0 && sorted(sq(tree(s.node, n))) && nonneg(tree(s.node, n))
@ensures ok(s.node, r) && nonneg(tree(s.node, r)) && del(sq(tree(s0.node, n)), sq(tree(s.node, r)), s0.node[n].key.low)
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures[I03] ({ let t = tree(s0.node, n); let u = tree(s.node, r); bal(t) ==> if r == 0 { ht(t) == 1 } else { bal(lf(u)) && bal(rt(u)) && -2 <= ht(lf(u)) - ht(rt(u)) <= 2 && max2(ht(lf(u)), ht(rt(u))) <= ht(t) - 1 && (max2(ht(lf(u)), ht(rt(u))) >= ht(t) - 1 || (max2(ht(lf(u)), ht(rt(u))) == ht(t) - 2 && -1 <= ht(lf(u)) - ht(rt(u)) <= 1)) } })
@ensures[I02] mxo(s0.node, tree(s0.node, n)) ==> mxo(s.node, lf(tree(s.node, r))) && mxo(s.node, rt(tree(s.node, r)))
@entry let m0 = s.node; let t = tree(m0, n); let x = en(ky(t), vl(t)); lemma_open(m0, n); lemma_split(sq(lf(t)), x, sq(rt(t))); assert(sq(t) == sq(lf(t)).push(x) + sq(rt(t))); lemma_kids(m0, t); lemma_nn(t); lemma_nn(lf(t)); lemma_nn(rt(t)); lemma_mxs(m0, t); lemma_mxs(m0, lf(t)); lemma_mxs(m0, rt(t)); let mut ma = m0; let mut cb = m0; let mut tb = t;
@after node.remove#1 cb = s.node;
@before node.remove#1 ma = s.node; assert(s.node =~= m0.insert(n, s.node[n])); lemma_root(m0, s.node, n, t); tb = mk(n, s.node[n].key, s.node[n].value, s.node[n].height, lf(t), rt(t)); lemma_is(ma, n, tb); lemma_open(ma, n); lemma_mxkeep(m0, ma, t);
@exit if s.node == m0 { lemma_is(m0, r, if m0[n].left == 0 { rt(t) } else { lf(t) }); assert(sq(tree(m0, r)) =~= sq(lf(t)) + sq(rt(t))); lemma_del_here(sq(lf(t)), x, sq(rt(t)), sq(tree(m0, r))); lemma_trans(m0, m0, m0, t, t, t); } else { let u = tree(cb, s.node[n].right); lemma_right(ma, cb, s.node, n, tb, u); let w = mk(n, ky(tb), vl(tb), ht(tb), lf(t), u); lemma_is(s.node, n, w); lemma_trans(m0, ma, s.node, t, tb, w); lemma_del_first(sq(rt(t)), sq(u)); assert(sq(w) == sq(lf(t)).push(en(ky(tb), vl(tb))) + sq(u)); assert(sq(w) =~= sq(lf(t)) + sq(rt(t))); lemma_del_here(sq(lf(t)), x, sq(rt(t)), sq(w)); }

@func node.remove (n, low) (r, kv, found)
@decreases num(tree(s.node, n)), 1int
@requires ok(s.node, n) && sorted(sq(tree(s.node, n))) && nonneg(tree(s.node, n))
@ensures ok(s.node, r) && nonneg(tree(s.node, r)) && del(sq(tree(s0.node, n)), sq(tree(s.node, r)), low) && found == holds(sq(tree(s0.node, n)), low) && (if found { kv.Low == low && sq(tree(s0.node, n)).contains(kv) } else { kv == none_kv::<I, V>() })
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures[I03] bal(tree(s0.node, n)) ==> bal(tree(s.node, r)) && ht(tree(s0.node, n)) - 1 <= ht(tree(s.node, r)) <= ht(tree(s0.node, n))
@ensures[I02] mxo(s0.node, tree(s0.node, n)) ==> mxo(s.node, tree(s.node, r))
@entry let m0 = s.node; let t = tree(m0, n); let mut ma = m0; let mut mb = m0; let mut tc = t; let x = en(ky(t), vl(t)); if n != 0 { lemma_open(m0, n); lemma_split(sq(lf(t)), x, sq(rt(t))); lemma_where(sq(lf(t)), x, sq(rt(t)), low); lemma_contains(sq(lf(t)), x, sq(rt(t))); assert(sq(t) == sq(lf(t)).push(x) + sq(rt(t))); lemma_dom(m0, t); lemma_mxs(m0, t); } else { lemma_is(m0, 0, T::E); }
@after node.remove ma = s.node;
@before node.rebalanceTree#1 lemma_nn(t); lemma_nn(lf(t)); lemma_nn(rt(t)); if olt(low, ky(t).low) { let u = tree(ma, s.node[n].left); assert(s.node =~= ma.insert(n, node { left: root(u), ..ma[n] })); lemma_left(m0, ma, s.node, n, t, u); lemma_del_left(sq(lf(t)), sq(u), x, sq(rt(t)), low); tc = mk(n, ky(t), vl(t), ht(t), u, rt(t)); } else if olt(ky(t).low, low) { let u = tree(ma, s.node[n].right); assert(s.node =~= ma.insert(n, node { right: root(u), ..ma[n] })); lemma_right(m0, ma, s.node, n, t, u); lemma_del_right(sq(lf(t)), x, sq(rt(t)), sq(u), low); tc = mk(n, ky(t), vl(t), ht(t), lf(t), u); } else { tc = tree(s.node, v_n); } lemma_is(s.node, v_n, tc); lemma_nn(tc); mb = s.node;
@exit if r == 0 { lemma_is(s.node, 0, T::E); } if n != 0 { lemma_trans(m0, mb, s.node, t, tc, tree(s.node, r)); }

@func New () (r)
@ensures wf(s, r) && view(s, r).len() == 0 && !s0.Tree.dom().contains(r)
@ensures[I03] balanced(s, r)
@ensures[I02] exact(s, r)
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && separate(s, r, q) && tr_of(s, q) == tr_of(s0, q) && s.Tree[q] == s0.Tree[q] && s.node == s0.node
@exit lemma_is(s.node, 0, T::E);

@func Tree.Put (p, low, high, value) (kv, found)
@requires wf(s, p)
@panics olt(high, low)
@ensures wf(s, p) && put(view(s0, p), view(s, p), KV { Low: low, High: high, Val: value })
@ensures found == holds(view(s0, p), low) && if found { kv.Low == low && view(s0, p).contains(kv) } else { kv == none_kv::<I, V>() }
@ensures others_kept(s0, s, p)
@ensures[I03] balanced(s0, p) ==> balanced(s, p)
@ensures[I02] exact(s0, p) ==> exact(s, p)
@ensures[I02] others_exact(s0, s, p)
@exit lemma_sorted_put(view(s0, p), view(s, p), KV { Low: low, High: high, Val: value }); lemma_kept(s0, s, p);

@func Tree.Add (p, low, high, value) (kv, found)
@requires wf(s, p)
@panics olt(high, low)
@ensures wf(s, p) && if found { view(s, p) == view(s0, p) } else { put(view(s0, p), view(s, p), KV { Low: low, High: high, Val: value }) }
@ensures found == holds(view(s0, p), low) && if found { kv.Low == low && view(s0, p).contains(kv) } else { kv == none_kv::<I, V>() }
@ensures others_kept(s0, s, p)
@ensures[I03] balanced(s0, p) ==> balanced(s, p)
@ensures[I02] exact(s0, p) ==> exact(s, p)
@ensures[I02] others_exact(s0, s, p)
@exit if !found { lemma_sorted_put(view(s0, p), view(s, p), KV { Low: low, High: high, Val: value }); } lemma_kept(s0, s, p);

@func Tree.Remove (p, low) (kv, found)
@requires wf(s, p)
@ensures wf(s, p) && del(view(s0, p), view(s, p), low)
@ensures found == holds(view(s0, p), low) && if found { kv.Low == low && view(s0, p).contains(kv) } else { kv == none_kv::<I, V>() }
@ensures others_kept(s0, s, p)
@ensures[I03] balanced(s0, p) ==> balanced(s, p)
@ensures[I02] exact(s0, p) ==> exact(s, p)
@ensures[I02] others_exact(s0, s, p)
@exit lemma_sorted_del(view(s0, p), view(s, p), low); lemma_kept(s0, s, p);

@func Tree.Get (p, low) (kv, found)
@requires wf(s, p)
@ensures found == holds(view(s, p), low) && if found { kv.Low == low && view(s, p).contains(kv) } else { kv == none_kv::<I, V>() }

@func Tree.Overlaps (p, low, high) (r)
@flag prop I02
@requires wf(s, p) && exact(s, p)
@panics olt(high, low)
@ensures slwf(s.arr_interval_KV_I_V, r) && sv(s.arr_interval_KV_I_V, r) == sel(view(s, p), low, high)
@ensures s.node == s0.node && s.Tree == s0.Tree && arr_grown(s0.arr_interval_KV_I_V, s.arr_interval_KV_I_V, 0, r.arr)

@func Tree.Each (p, fn)
@requires wf(s, p)
@ensures tr == tr0 + tri(view(s, p))

@func Tree.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).len()

@func Tree.Height (p) (n)
@flag prop I03
@requires wf(s, p)
@ensures balanced(s, p) ==> n == levels(tr_of(s, p)) && view(s, p).len() >= sparsest(n)
@entry lemma_dom(s.node, tr_of(s, p)); if balanced(s, p) { lemma_levels(tr_of(s, p)); } if s.Tree[p].root != 0 { lemma_open(s.node, s.Tree[p].root); }
