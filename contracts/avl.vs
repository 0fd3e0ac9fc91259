@state K V
@counter height
@prelude
// ---- the tree as a value: the nodes reachable from a pointer
pub enum T<K, V> { E, N { a: int, k: K, v: V, h: int, l: Box<T<K, V>>, r: Box<T<K, V>> } }
pub open spec fn root<K, V>(t: T<K, V>) -> int { match t { T::E => 0, T::N { a, .. } => a } }
pub open spec fn lf<K, V>(t: T<K, V>) -> T<K, V> { match t { T::E => T::E, T::N { l, .. } => *l } }
pub open spec fn rt<K, V>(t: T<K, V>) -> T<K, V> { match t { T::E => T::E, T::N { r, .. } => *r } }
pub open spec fn mk<K, V>(a: int, k: K, v: V, h: int, l: T<K, V>, r: T<K, V>) -> T<K, V> { T::N { a, k, v, h, l: Box::new(l), r: Box::new(r) } }
// x is the address of a node of t
pub open spec fn inn<K, V>(t: T<K, V>, x: int) -> bool decreases t { match t { T::E => false, T::N { a, l, r, .. } => x == a || inn(*l, x) || inn(*r, x) } }
pub open spec fn apart<K, V>(t: T<K, V>, u: T<K, V>) -> bool { forall|x: int| !(#[trigger] inn(t, x) && #[trigger] inn(u, x)) }
pub open spec fn okt<K, V>(m: Map<int, node<K, V>>, t: T<K, V>) -> bool decreases t {
  match t {
    T::E => true,
    T::N { a, k, v, h, l, r } => a != 0 && m.dom().contains(a) && m[a] == (node { key: k, value: v, height: h, left: root(*l), right: root(*r) })
      && okt(m, *l) && okt(m, *r) && !inn(*l, a) && !inn(*r, a) && apart(*l, *r),
  }
}
pub open spec fn is<K, V>(m: Map<int, node<K, V>>, p: int, t: T<K, V>) -> bool { p == root(t) && okt(m, t) }
pub open spec fn tree<K, V>(m: Map<int, node<K, V>>, p: int) -> T<K, V> { choose|t: T<K, V>| #[trigger] is(m, p, t) }
pub open spec fn ok<K, V>(m: Map<int, node<K, V>>, p: int) -> bool { is(m, p, tree(m, p)) }
pub open spec fn num<K, V>(t: T<K, V>) -> int decreases t { match t { T::E => 0, T::N { l, r, .. } => 1 + num(*l) + num(*r) } }
// the entries in order
pub open spec fn sq<K, V>(t: T<K, V>) -> Seq<(K, V)> decreases t { match t { T::E => Seq::empty(), T::N { k, v, l, r, .. } => sq(*l).push((k, v)) + sq(*r) } }
pub open spec fn ht<K, V>(t: T<K, V>) -> int { match t { T::E => 0, T::N { h, .. } => h } }
pub open spec fn nonneg<K, V>(t: T<K, V>) -> bool decreases t { match t { T::E => true, T::N { h, l, r, .. } => h >= 0 && nonneg(*l) && nonneg(*r) } }
// stored heights are the numbers of levels, and no two siblings differ by more than one
pub open spec fn bal<K, V>(t: T<K, V>) -> bool decreases t {
  match t { T::E => true, T::N { h, l, r, .. } => h == 1 + max2(ht(*l), ht(*r)) && -1 <= ht(*l) - ht(*r) <= 1 && bal(*l) && bal(*r) }
}
pub open spec fn levels<K, V>(t: T<K, V>) -> int decreases t { match t { T::E => 0, T::N { l, r, .. } => 1 + max2(levels(*l), levels(*r)) } }
pub open spec fn max2(a: int, b: int) -> int { if a <= b { b } else { a } }
// the entries of the sparsest AVL tree of h levels
pub open spec fn sparsest(h: int) -> int decreases h { if h <= 0 { 0 } else if h == 1 { 1 } else { sparsest(h - 1) + sparsest(h - 2) + 1 } }

// everything that existed outside the nodes of t is as it was
pub open spec fn frame<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, t: T<K, V>) -> bool {
  forall|x: int| #[trigger] m0.dom().contains(x) ==> m.dom().contains(x) && (!inn(t, x) ==> m[x] == m0[x])
}
// the nodes of u are nodes of t or new
pub open spec fn grown<K, V>(m0: Map<int, node<K, V>>, t: T<K, V>, u: T<K, V>) -> bool {
  forall|x: int| #[trigger] inn(u, x) ==> inn(t, x) || !m0.dom().contains(x)
}

pub proof fn lemma_dom<K, V>(m: Map<int, node<K, V>>, t: T<K, V>)
  requires okt(m, t)
  ensures (forall|x: int| #[trigger] inn(t, x) ==> x != 0 && m.dom().contains(x)) && !inn(t, 0) && num(t) >= 0 && sq(t).len() == num(t)
  decreases t
{
  match t { T::E => {}, T::N { a, l, r, .. } => {
    lemma_dom(m, *l); lemma_dom(m, *r);
    assert(okt(m, t) && a != 0 && m.dom().contains(a));
    assert forall|x: int| #[trigger] inn(t, x) implies x != 0 && m.dom().contains(x) by { if inn(*l, x) {} else if inn(*r, x) {} else { assert(x == a); } }
    if inn(t, 0) { if inn(*l, 0) {} else if inn(*r, 0) {} }
    assert(num(t) == 1 + num(*l) + num(*r));
    assert(sq(t).len() == num(t));
  } }
}
pub proof fn lemma_unique<K, V>(m: Map<int, node<K, V>>, t: T<K, V>, u: T<K, V>)
  requires okt(m, t), okt(m, u), root(t) == root(u)
  ensures t == u
  decreases t
{
  match t { T::E => { match u { T::E => {}, T::N { .. } => {} } },
    T::N { l, r, .. } => { match u { T::E => {}, T::N { l: l2, r: r2, .. } => { lemma_unique(m, *l, *l2); lemma_unique(m, *r, *r2); assert(l == l2 && r == r2); } } } }
}
pub proof fn lemma_is<K, V>(m: Map<int, node<K, V>>, p: int, t: T<K, V>)
  requires is(m, p, t)
  ensures ok(m, p), tree(m, p) == t
{ assert(is(m, p, tree(m, p))); lemma_unique(m, t, tree(m, p)); }
pub proof fn lemma_keep<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, t: T<K, V>)
  requires okt(m0, t), forall|x: int| #[trigger] inn(t, x) ==> m.dom().contains(x) && m[x] == m0[x]
  ensures okt(m, t)
  decreases t
{ match t { T::E => {}, T::N { a, l, r, .. } => { assert(inn(t, a)); assert forall|x: int| #[trigger] inn(*l, x) implies m.dom().contains(x) && m[x] == m0[x] by { assert(inn(t, x)); } assert forall|x: int| #[trigger] inn(*r, x) implies m.dom().contains(x) && m[x] == m0[x] by { assert(inn(t, x)); } lemma_keep(m0, m, *l); lemma_keep(m0, m, *r); } } }
pub proof fn lemma_kids<K, V>(m: Map<int, node<K, V>>, t: T<K, V>)
  requires okt(m, t)
  ensures okt(m, lf(t)), okt(m, rt(t)), apart(lf(t), rt(t)), !inn(lf(t), root(t)), !inn(rt(t), root(t)), !inn(t, 0), root(t) != 0 ==> inn(t, root(t)) && m.dom().contains(root(t)) && m[root(t)] == (node { key: ky(t), value: vl(t), height: ht(t), left: root(lf(t)), right: root(rt(t)) }),
    forall|x: int| #[trigger] inn(t, x) ==> m.dom().contains(x) && x != 0 && (x == root(t) || inn(lf(t), x) || inn(rt(t), x)),
    forall|x: int| #[trigger] inn(lf(t), x) ==> inn(t, x) && m.dom().contains(x) && !inn(rt(t), x), forall|x: int| #[trigger] inn(rt(t), x) ==> inn(t, x) && m.dom().contains(x) && !inn(lf(t), x),
{ lemma_dom(m, t); match t { T::E => {}, T::N { l, r, .. } => { lemma_dom(m, *l); lemma_dom(m, *r); } } }
// the children of a tree
pub proof fn lemma_open<K, V>(m: Map<int, node<K, V>>, p: int)
  requires ok(m, p), p != 0
  ensures ({ let t = tree(m, p); t == mk(p, m[p].key, m[p].value, m[p].height, lf(t), rt(t)) && is(m, m[p].left, lf(t)) && is(m, m[p].right, rt(t)) && tree(m, m[p].left) == lf(t) && tree(m, m[p].right) == rt(t)
    && ok(m, m[p].left) && ok(m, m[p].right) && !inn(lf(t), p) && !inn(rt(t), p) && apart(lf(t), rt(t)) && m.dom().contains(p) && num(lf(t)) < num(t) && num(rt(t)) < num(t) })
{ let t = tree(m, p); lemma_is(m, m[p].left, lf(t)); lemma_is(m, m[p].right, rt(t)); lemma_dom(m, lf(t)); lemma_dom(m, rt(t)); }
// the left child was replaced by the tree u
pub proof fn lemma_left<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m2: Map<int, node<K, V>>, n: int, t: T<K, V>, u: T<K, V>)
  requires is(m0, n, t), n != 0, okt(m1, u), frame(m0, m1, lf(t)), grown(m0, lf(t), u), m2 == m1.insert(n, node { left: root(u), ..m1[n] })
  ensures is(m2, n, mk(n, m0[n].key, m0[n].value, m0[n].height, u, rt(t))), frame(m0, m2, t), grown(m0, t, mk(n, m0[n].key, m0[n].value, m0[n].height, u, rt(t)))
{
  lemma_kids(m0, t);
  assert(!inn(u, n)) by { assert(inn(t, n)); }
  assert(!inn(u, n)) by { if inn(u, n) { assert(inn(lf(t), n)); } }
  assert forall|x: int| #[trigger] inn(u, x) implies m2.dom().contains(x) && m2[x] == m1[x] by { lemma_dom(m1, u); }
  lemma_keep(m1, m2, u);
  assert forall|x: int| #[trigger] inn(rt(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(!inn(lf(t), x)); }
  lemma_keep(m0, m2, rt(t));
  assert(apart(u, rt(t)));
  assert(m1[n] == m0[n]);
  let w = mk(n, m0[n].key, m0[n].value, m0[n].height, u, rt(t));
  assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) || !m0.dom().contains(x) by { if inn(u, x) { } }
}
pub proof fn lemma_right<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m2: Map<int, node<K, V>>, n: int, t: T<K, V>, u: T<K, V>)
  requires is(m0, n, t), n != 0, okt(m1, u), frame(m0, m1, rt(t)), grown(m0, rt(t), u), m2 == m1.insert(n, node { right: root(u), ..m1[n] })
  ensures is(m2, n, mk(n, m0[n].key, m0[n].value, m0[n].height, lf(t), u)), frame(m0, m2, t), grown(m0, t, mk(n, m0[n].key, m0[n].value, m0[n].height, lf(t), u))
{
  lemma_kids(m0, t);
  assert(!inn(u, n)) by { assert(inn(t, n)); }
  assert(!inn(u, n)) by { if inn(u, n) { assert(inn(rt(t), n)); } }
  assert forall|x: int| #[trigger] inn(u, x) implies m2.dom().contains(x) && m2[x] == m1[x] by { lemma_dom(m1, u); }
  lemma_keep(m1, m2, u);
  assert forall|x: int| #[trigger] inn(lf(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(!inn(rt(t), x)); }
  lemma_keep(m0, m2, lf(t));
  assert(apart(lf(t), u));
  assert(m1[n] == m0[n]);
  let w = mk(n, m0[n].key, m0[n].value, m0[n].height, lf(t), u);
  assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) || !m0.dom().contains(x) by { if inn(u, x) { } }
}
// the node n was rewritten in place
pub proof fn lemma_root<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, n: int, t: T<K, V>)
  requires is(m0, n, t), n != 0, m1 == m0.insert(n, m1[n]), m1[n].left == m0[n].left, m1[n].right == m0[n].right
  ensures is(m1, n, mk(n, m1[n].key, m1[n].value, m1[n].height, lf(t), rt(t))), frame(m0, m1, t), grown(m0, t, mk(n, m1[n].key, m1[n].value, m1[n].height, lf(t), rt(t)))
{
  lemma_kids(m0, t);
  assert forall|x: int| #[trigger] inn(lf(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(x != n); }
  assert forall|x: int| #[trigger] inn(rt(t), x) implies m1.dom().contains(x) && m1[x] == m0[x] by { assert(x != n); }
  lemma_keep(m0, m1, lf(t)); lemma_keep(m0, m1, rt(t));
}
pub open spec fn eqv<K>(less: spec_fn(K, K) -> bool, a: K, b: K) -> bool { !less(a, b) && !less(b, a) }
pub open spec fn sorted<K, V>(q: Seq<(K, V)>, less: spec_fn(K, K) -> bool) -> bool {
  forall|i: int, j: int| 0 <= i < j < q.len() ==> less((#[trigger] q[i]).0, (#[trigger] q[j]).0)
}
// k lies between the first i entries and the rest
pub open spec fn cut<K, V>(q: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, i: int) -> bool {
  0 <= i <= q.len() && (forall|j: int| 0 <= j < i ==> less((#[trigger] q[j]).0, k))
}
pub open spec fn put_at<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V, i: int) -> bool {
  cut(q, less, k, i) && if i < q.len() && eqv(less, q[i].0, k) { q2 == q.update(i, (q2[i].0, v)) && (q2[i].0 == k || q2[i].0 == q[i].0) }
    else { (forall|j: int| i <= j < q.len() ==> less(k, (#[trigger] q[j]).0)) && q2 == q.insert(i, (k, v)) }
}
// q2 is q with the value of the entry order-equivalent to k replaced, or with a new entry in its place in the order
pub open spec fn put<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V) -> bool { exists|i: int| #[trigger] put_at(q, q2, less, k, v, i) }
pub open spec fn holds_key<K, V>(q: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K) -> bool { exists|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) }
pub open spec fn del<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K) -> bool {
  if holds_key(q, less, k) { exists|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) && q2 == q.remove(i) } else { q2 == q }
}
pub proof fn lemma_split<K, V>(ql: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>, less: spec_fn(K, K) -> bool)
  requires sorted(ql.push(x) + qr, less)
  ensures sorted(ql, less), sorted(qr, less), forall|i: int| 0 <= i < ql.len() ==> less((#[trigger] ql[i]).0, x.0), forall|i: int| 0 <= i < qr.len() ==> less(x.0, (#[trigger] qr[i]).0)
{
  let q = ql.push(x) + qr; let n = ql.len() as int;
  assert(q[n] == x);
  assert forall|i: int| 0 <= i < n implies less((#[trigger] ql[i]).0, x.0) by { assert(q[i] == ql[i]); }
  assert forall|i: int| 0 <= i < qr.len() implies less(x.0, (#[trigger] qr[i]).0) by { assert(q[n + 1 + i] == qr[i]); }
  assert forall|i: int, j: int| 0 <= i < j < ql.len() implies less((#[trigger] ql[i]).0, (#[trigger] ql[j]).0) by { assert(q[i] == ql[i] && q[j] == ql[j]); }
  assert forall|i: int, j: int| 0 <= i < j < qr.len() implies less((#[trigger] qr[i]).0, (#[trigger] qr[j]).0) by { assert(q[n + 1 + i] == qr[i] && q[n + 1 + j] == qr[j]); }
}
pub proof fn lemma_sorted_put<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V)
  requires sorted(q, less), strict_weak(less), put(q, q2, less, k, v)
  ensures sorted(q2, less)
{
  let i = choose|i: int| #[trigger] put_at(q, q2, less, k, v, i);
  if i < q.len() && eqv(less, q[i].0, k) {
    assert forall|a: int, b: int| 0 <= a < b < q2.len() implies less((#[trigger] q2[a]).0, (#[trigger] q2[b]).0) by { assert(less(q[a].0, q[b].0)); let x = q2[a]; let y = q2[b]; let z = q[i]; }
  } else {
    assert forall|a: int, b: int| 0 <= a < b < q2.len() implies less((#[trigger] q2[a]).0, (#[trigger] q2[b]).0) by {
      let x = if a < i { q[a] } else { q[a - 1] }; let y = if b < i { q[b] } else { q[b - 1] };
    }
  }
}
pub proof fn lemma_put_left<K, V>(ql: Seq<(K, V)>, ql2: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V)
  requires sorted(ql.push(x) + qr, less), strict_weak(less), put(ql, ql2, less, k, v), less(k, x.0)
  ensures put(ql.push(x) + qr, ql2.push(x) + qr, less, k, v)
{
  let q = ql.push(x) + qr; let q2 = ql2.push(x) + qr; let n = ql.len() as int;
  lemma_split(ql, x, qr, less);
  let i = choose|i: int| #[trigger] put_at(ql, ql2, less, k, v, i);
  assert forall|j: int| 0 <= j < i implies less((#[trigger] q[j]).0, k) by { assert(q[j] == ql[j]); }
  if i < n && eqv(less, ql[i].0, k) { assert(q2 =~= q.update(i, (ql2[i].0, v))); assert(q[i] == ql[i]); assert(q2[i] == ql2[i]); }
  else {
    assert(q2 =~= q.insert(i, (k, v)));
    assert forall|j: int| i <= j < q.len() implies less(k, (#[trigger] q[j]).0) by { if j < n { assert(q[j] == ql[j]); } else if j > n { assert(q[j] == qr[j - n - 1]); } }
  }
  assert(put_at(q, q2, less, k, v, i));
}
pub proof fn lemma_put_right<K, V>(ql: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>, qr2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V)
  requires sorted(ql.push(x) + qr, less), strict_weak(less), put(qr, qr2, less, k, v), less(x.0, k)
  ensures put(ql.push(x) + qr, ql.push(x) + qr2, less, k, v)
{
  let q = ql.push(x) + qr; let q2 = ql.push(x) + qr2; let n = ql.len() as int;
  lemma_split(ql, x, qr, less);
  let i0 = choose|i: int| #[trigger] put_at(qr, qr2, less, k, v, i); let i = i0 + n + 1;
  assert forall|j: int| 0 <= j < i implies less((#[trigger] q[j]).0, k) by { if j < n { assert(q[j] == ql[j]); } else if j > n { assert(q[j] == qr[j - n - 1]); } }
  if i0 < qr.len() && eqv(less, qr[i0].0, k) { assert(q2 =~= q.update(i, (qr2[i0].0, v))); assert(q[i] == qr[i0]); assert(q2[i] == qr2[i0]); }
  else {
    assert(q2 =~= q.insert(i, (k, v)));
    assert forall|j: int| i <= j < q.len() implies less(k, (#[trigger] q[j]).0) by { assert(q[j] == qr[j - n - 1]); }
  }
  assert(put_at(q, q2, less, k, v, i));
}
pub proof fn lemma_put_here<K, V>(ql: Seq<(K, V)>, x: (K, V), y: (K, V), qr: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K, v: V)
  requires sorted(ql.push(x) + qr, less), strict_weak(less), eqv(less, x.0, k), y.1 == v, y.0 == k || y.0 == x.0
  ensures put(ql.push(x) + qr, ql.push(y) + qr, less, k, v)
{
  let q = ql.push(x) + qr; let q2 = ql.push(y) + qr; let n = ql.len() as int;
  lemma_split(ql, x, qr, less);
  assert(q[n] == x && q2[n] == y); assert(q2 =~= q.update(n, y));
  assert forall|j: int| 0 <= j < n implies less((#[trigger] q[j]).0, k) by { assert(q[j] == ql[j]); assert(less(ql[j].0, x.0)); }
  assert(put_at(q, q2, less, k, v, n));
}
pub proof fn lemma_contains<K, V>(ql: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>)
  ensures ({ let q = ql.push(x) + qr; q.contains(x) && (forall|y: (K, V)| #[trigger] ql.contains(y) ==> q.contains(y)) && (forall|y: (K, V)| #[trigger] qr.contains(y) ==> q.contains(y)) })
{
  let q = ql.push(x) + qr; let n = ql.len() as int; assert(q[n] == x);
  assert forall|y: (K, V)| #[trigger] ql.contains(y) implies q.contains(y) by { let i = ql.index_of(y); assert(q[i] == y); }
  assert forall|y: (K, V)| #[trigger] qr.contains(y) implies q.contains(y) by { let i = qr.index_of(y); assert(q[n + 1 + i] == y); }
}
// where the keys equivalent to k are
pub proof fn lemma_where<K, V>(ql: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K)
  requires sorted(ql.push(x) + qr, less), strict_weak(less)
  ensures
    ({ let q = ql.push(x) + qr; let n = ql.len() as int;
    (less(k, x.0) ==> holds_key(q, less, k) == holds_key(ql, less, k) && (forall|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) ==> i < n && q[i] == ql[i]))
    && (less(x.0, k) ==> holds_key(q, less, k) == holds_key(qr, less, k) && (forall|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) ==> i > n && q[i] == qr[i - n - 1]))
    && (eqv(less, x.0, k) ==> holds_key(q, less, k) && q[n] == x) })
{
  let q = ql.push(x) + qr; let n = ql.len() as int;
  lemma_split(ql, x, qr, less);
  assert(q[n] == x);
  if less(k, x.0) {
    assert forall|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) implies i < n && q[i] == ql[i] by { if i > n { assert(q[i] == qr[i - n - 1]); assert(less(x.0, qr[i - n - 1].0)); } }
    if holds_key(ql, less, k) { let i = choose|i: int| 0 <= i < ql.len() && eqv(less, (#[trigger] ql[i]).0, k); assert(q[i] == ql[i]); }
    if holds_key(q, less, k) { let i = choose|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k); assert(q[i] == ql[i]); }
  }
  if less(x.0, k) {
    assert forall|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) implies i > n && q[i] == qr[i - n - 1] by { if i < n { assert(q[i] == ql[i]); assert(less(ql[i].0, x.0)); } }
    if holds_key(qr, less, k) { let i = choose|i: int| 0 <= i < qr.len() && eqv(less, (#[trigger] qr[i]).0, k); assert(q[i + n + 1] == qr[i]); }
    if holds_key(q, less, k) { let i = choose|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k); assert(q[i] == qr[i - n - 1]); }
  }
}
pub proof fn lemma_del_left<K, V>(ql: Seq<(K, V)>, ql2: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K)
  requires sorted(ql.push(x) + qr, less), strict_weak(less), del(ql, ql2, less, k), less(k, x.0)
  ensures del(ql.push(x) + qr, ql2.push(x) + qr, less, k)
{
  let q = ql.push(x) + qr; let q2 = ql2.push(x) + qr;
  lemma_where(ql, x, qr, less, k);
  if holds_key(ql, less, k) {
    let i = choose|i: int| 0 <= i < ql.len() && eqv(less, (#[trigger] ql[i]).0, k) && ql2 == ql.remove(i);
    assert(q[i] == ql[i]); assert(q2 =~= q.remove(i));
  }
}
pub proof fn lemma_del_right<K, V>(ql: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>, qr2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K)
  requires sorted(ql.push(x) + qr, less), strict_weak(less), del(qr, qr2, less, k), less(x.0, k)
  ensures del(ql.push(x) + qr, ql.push(x) + qr2, less, k)
{
  let q = ql.push(x) + qr; let q2 = ql.push(x) + qr2; let n = ql.len() as int;
  lemma_where(ql, x, qr, less, k);
  if holds_key(qr, less, k) {
    let i = choose|i: int| 0 <= i < qr.len() && eqv(less, (#[trigger] qr[i]).0, k) && qr2 == qr.remove(i);
    assert(q[i + n + 1] == qr[i]); assert(q2 =~= q.remove(i + n + 1));
  }
}
pub proof fn lemma_del_here<K, V>(ql: Seq<(K, V)>, x: (K, V), qr: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K)
  requires sorted(ql.push(x) + qr, less), strict_weak(less), eqv(less, x.0, k), q2 =~= ql + qr
  ensures del(ql.push(x) + qr, q2, less, k)
{
  let q = ql.push(x) + qr; let n = ql.len() as int;
  assert(q[n] == x); assert(q2 =~= q.remove(n));
}
// removing the key of the first entry removes the first entry
pub proof fn lemma_del_first<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool)
  requires sorted(q, less), strict_weak(less), q.len() > 0, del(q, q2, less, q[0].0)
  ensures q2 == q.skip(1)
{
  assert(eqv(less, q[0].0, q[0].0));
  let i = choose|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, q[0].0) && q2 == q.remove(i);
  if i > 0 { assert(less(q[0].0, q[i].0)); }
  assert(q2 =~= q.skip(1));
}
pub proof fn lemma_sorted_del<K, V>(q: Seq<(K, V)>, q2: Seq<(K, V)>, less: spec_fn(K, K) -> bool, k: K)
  requires sorted(q, less), strict_weak(less), del(q, q2, less, k)
  ensures sorted(q2, less)
{
  if holds_key(q, less, k) {
    let i = choose|i: int| 0 <= i < q.len() && eqv(less, (#[trigger] q[i]).0, k) && q2 == q.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < q2.len() implies less((#[trigger] q2[a]).0, (#[trigger] q2[b]).0) by { let x = if a < i { q[a] } else { q[a + 1] }; let y = if b < i { q[b] } else { q[b + 1] }; }
  }
}
pub proof fn lemma_levels<K, V>(t: T<K, V>)
  requires bal(t)
  ensures levels(t) == ht(t), num(t) >= sparsest(ht(t)), ht(t) >= 0
  decreases t
{
  match t { T::E => {}, T::N { l, r, h, .. } => { lemma_levels(*l); lemma_levels(*r); if ht(*l) <= ht(*r) { lemma_sparsest(ht(*l), ht(*r)); } else { lemma_sparsest(ht(*r), ht(*l)); } if h >= 2 { if ht(*l) < ht(*r) { assert(ht(*l) == h - 2); } else if ht(*r) < ht(*l) { assert(ht(*r) == h - 2); } else { lemma_sparsest(h - 2, h - 1); } } } }
}
pub proof fn lemma_sparsest(a: int, b: int)
  requires a <= b
  ensures sparsest(a) <= sparsest(b), 0 <= sparsest(a)
  decreases b, b - a
{
  if a <= 0 { if b > 1 { lemma_sparsest(0, b - 1); lemma_sparsest(0, b - 2); } }
  else if b > 1 && a < b { lemma_sparsest(a, b - 1); lemma_sparsest(0, b - 2); }
  else if a > 1 { lemma_sparsest(0, a - 1); lemma_sparsest(0, a - 2); }
}

// ---- the map
pub open spec fn wf<K, V>(s: S<K, V>, p: int) -> bool {
  &&& p != 0 && s.Tree.dom().contains(p) && ok(s.node, s.Tree[p].root)
  &&& strict_weak(s.Tree[p].less) && sorted(view(s, p), s.Tree[p].less) && nonneg(tr_of(s, p))
}
pub open spec fn tr_of<K, V>(s: S<K, V>, p: int) -> T<K, V> { tree(s.node, s.Tree[p].root) }
// the entries in increasing key order
pub open spec fn view<K, V>(s: S<K, V>, p: int) -> Seq<(K, V)> { sq(tr_of(s, p)) }
pub open spec fn balanced<K, V>(s: S<K, V>, p: int) -> bool { bal(tr_of(s, p)) }
pub open spec fn separate<K, V>(s: S<K, V>, p: int, q: int) -> bool { p != q && apart(tr_of(s, p), tr_of(s, q)) }
// every other tree that shares no node with p stays as it is and still shares none
pub open spec fn others_kept<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && tr_of(s, q) == tr_of(s0, q) && s.Tree[q] == s0.Tree[q]
}
pub open spec fn ky<K, V>(t: T<K, V>) -> K { t->N_k }
pub open spec fn vl<K, V>(t: T<K, V>) -> V { t->N_v }
pub open spec fn rotl<K, V>(t: T<K, V>) -> T<K, V> {
  let x = rt(t); let h1 = 1 + max2(ht(lf(t)), ht(lf(x)));
  mk(root(x), ky(x), vl(x), 1 + max2(h1, ht(rt(x))), mk(root(t), ky(t), vl(t), h1, lf(t), lf(x)), rt(x))
}
pub open spec fn rotr<K, V>(t: T<K, V>) -> T<K, V> {
  let x = lf(t); let h1 = 1 + max2(ht(rt(x)), ht(rt(t)));
  mk(root(x), ky(x), vl(x), 1 + max2(ht(lf(x)), h1), lf(x), mk(root(t), ky(t), vl(t), h1, rt(x), rt(t)))
}
pub proof fn lemma_trans<K, V>(m0: Map<int, node<K, V>>, m1: Map<int, node<K, V>>, m2: Map<int, node<K, V>>, t: T<K, V>, u: T<K, V>, w: T<K, V>)
  requires frame(m0, m1, t), grown(m0, t, u), frame(m1, m2, u), grown(m1, u, w)
  ensures frame(m0, m2, t), grown(m0, t, w)
{}
// the tree after a left rotation, whatever the heights
pub proof fn lemma_rotl<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, n: int, t: T<K, V>)
  requires is(m0, n, t), n != 0, root(rt(t)) != 0,
    ({ let x = root(rt(t)); m == m0.insert(n, m[n]).insert(x, m[x]) && m[n] == (node { right: m0[x].left, height: m[n].height, ..m0[n] }) && m[x] == (node { left: n, height: m[x].height, ..m0[x] }) })
  ensures ({ let x = rt(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, mk(n, ky(t), vl(t), m[n].height, lf(t), lf(x)), rt(x));
    is(m, root(x), u) && sq(u) == sq(t) && frame(m0, m, t) && grown(m0, t, u) && tree(m, root(x)) == u && ok(m, root(x)) })
{
  let x = rt(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, mk(n, ky(t), vl(t), m[n].height, lf(t), lf(x)), rt(x));
  lemma_kids(m0, t); lemma_kids(m0, x);
  assert forall|y: int| #[trigger] inn(lf(t), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(y != n && y != root(x)); }
  assert forall|y: int| #[trigger] inn(lf(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  assert forall|y: int| #[trigger] inn(rt(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  lemma_keep(m0, m, lf(t)); lemma_keep(m0, m, lf(x)); lemma_keep(m0, m, rt(x));
  assert(okt(m, u)) by { assert(okt(m, *u->N_l)); }
  assert(sq(t) == sq(lf(t)).push((ky(t), vl(t))) + sq(x)); assert(sq(x) == sq(lf(x)).push((ky(x), vl(x))) + sq(rt(x)));
  assert(sq(u) == sq(*u->N_l).push((ky(x), vl(x))) + sq(rt(x))); assert(sq(*u->N_l) == sq(lf(t)).push((ky(t), vl(t))) + sq(lf(x)));
  assert(sq(u) =~= sq(t));
  assert forall|y: int| #[trigger] inn(u, y) implies inn(t, y) by { if y == root(x) {} else if inn(*u->N_l, y) { if y != n && !inn(lf(t), y) { assert(inn(lf(x), y)); } } else { assert(inn(rt(x), y)); } }
  lemma_is(m, root(x), u);
}
pub proof fn lemma_rotr<K, V>(m0: Map<int, node<K, V>>, m: Map<int, node<K, V>>, n: int, t: T<K, V>)
  requires is(m0, n, t), n != 0, root(lf(t)) != 0,
    ({ let x = root(lf(t)); m == m0.insert(n, m[n]).insert(x, m[x]) && m[n] == (node { left: m0[x].right, height: m[n].height, ..m0[n] }) && m[x] == (node { right: n, height: m[x].height, ..m0[x] }) })
  ensures ({ let x = lf(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, lf(x), mk(n, ky(t), vl(t), m[n].height, rt(x), rt(t)));
    is(m, root(x), u) && sq(u) == sq(t) && frame(m0, m, t) && grown(m0, t, u) && tree(m, root(x)) == u && ok(m, root(x)) })
{
  let x = lf(t); let u = mk(root(x), ky(x), vl(x), m[root(x)].height, lf(x), mk(n, ky(t), vl(t), m[n].height, rt(x), rt(t)));
  lemma_kids(m0, t); lemma_kids(m0, x);
  assert forall|y: int| #[trigger] inn(rt(t), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(y != n && y != root(x)); }
  assert forall|y: int| #[trigger] inn(lf(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  assert forall|y: int| #[trigger] inn(rt(x), y) implies m.dom().contains(y) && m[y] == m0[y] by { assert(inn(x, y)); }
  lemma_keep(m0, m, rt(t)); lemma_keep(m0, m, lf(x)); lemma_keep(m0, m, rt(x));
  assert(okt(m, u)) by { assert(okt(m, *u->N_r)); }
  assert(sq(t) == sq(x).push((ky(t), vl(t))) + sq(rt(t))); assert(sq(x) == sq(lf(x)).push((ky(x), vl(x))) + sq(rt(x)));
  assert(sq(u) == sq(lf(x)).push((ky(x), vl(x))) + sq(*u->N_r)); assert(sq(*u->N_r) == sq(rt(x)).push((ky(t), vl(t))) + sq(rt(t)));
  assert(sq(u) =~= sq(t));
  assert forall|y: int| #[trigger] inn(u, y) implies inn(t, y) by { if y == root(x) {} else if inn(*u->N_r, y) { if y != n && !inn(rt(t), y) { assert(inn(rt(x), y)); } } else { assert(inn(lf(x), y)); } }
  lemma_is(m, root(x), u);
}
pub open spec fn reb<K, V>(t: T<K, V>) -> T<K, V> {
  let l = lf(t); let r = rt(t); let d = ht(l) - ht(r);
  if d <= -2 { if ht(lf(r)) > ht(rt(r)) { rotl(mk(root(t), ky(t), vl(t), ht(t), l, rotr(r))) } else { rotl(t) } }
  else if d >= 2 { if ht(rt(l)) > ht(lf(l)) { rotr(mk(root(t), ky(t), vl(t), ht(t), rotl(l), r)) } else { rotr(t) } }
  else { t }
}
pub open spec fn balanced_by(l: int, r: int, m: int, h: int) -> bool { m == max2(l, r) && if -1 <= l - r <= 1 { h == m + 1 } else { m <= h <= m + 1 } }
pub proof fn lemma_reb<K, V>(t: T<K, V>)
  ensures t is N && bal(lf(t)) && bal(rt(t)) && -2 <= ht(lf(t)) - ht(rt(t)) <= 2 && ht(t) == 1 + max2(ht(lf(t)), ht(rt(t))) ==> bal(reb(t)) && balanced_by(ht(lf(t)), ht(rt(t)), max2(ht(lf(t)), ht(rt(t))), ht(reb(t)))
{
  reveal_with_fuel(bal, 4);
  let l = lf(t); let r = rt(t);
  if t is N && bal(lf(t)) && bal(rt(t)) && -2 <= ht(lf(t)) - ht(rt(t)) <= 2 && ht(t) == 1 + max2(ht(lf(t)), ht(rt(t))) {
  lemma_levels(l); lemma_levels(r);
  if ht(l) - ht(r) <= -2 { lemma_levels(lf(r)); lemma_levels(rt(r)); if ht(lf(r)) > ht(rt(r)) { let y = lf(r); lemma_levels(lf(y)); lemma_levels(rt(y)); } }
  else if ht(l) - ht(r) >= 2 { lemma_levels(lf(l)); lemma_levels(rt(l)); if ht(rt(l)) > ht(lf(l)) { let y = rt(l); lemma_levels(lf(y)); lemma_levels(rt(y)); } }
  }
}
pub proof fn lemma_kept<K, V>(s0: S<K, V>, s: S<K, V>, p: int)
  requires wf(s0, p), frame(s0.node, s.node, tr_of(s0, p)), grown(s0.node, tr_of(s0, p), tr_of(s, p)), s.Tree =~= s0.Tree.insert(p, s.Tree[p]), ok(s.node, s.Tree[p].root)
  ensures others_kept(s0, s, p)
{
  assert forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) implies wf(s, q) && separate(s, p, q) && tr_of(s, q) == tr_of(s0, q) && s.Tree[q] == s0.Tree[q] by {
    let t = tr_of(s0, q);
    lemma_dom(s0.node, t); lemma_dom(s0.node, tr_of(s0, p));
    assert(s.Tree[q] == s0.Tree[q]);
    assert forall|x: int| #[trigger] inn(t, x) implies s.node.dom().contains(x) && s.node[x] == s0.node[x] by { assert(!inn(tr_of(s0, p), x)); }
    lemma_keep(s0.node, s.node, t); lemma_is(s.node, s0.Tree[q].root, t);
    assert forall|x: int| !(#[trigger] inn(tr_of(s, p), x) && #[trigger] inn(t, x)) by { if inn(tr_of(s, p), x) && inn(t, x) { assert(!inn(tr_of(s0, p), x)); } }
  }
}

pub proof fn lemma_open2<K, V>(m: Map<int, node<K, V>>, p: int)
  ensures ok(m, p) && p != 0 ==> ({ let t = tree(m, p); t == mk(p, m[p].key, m[p].value, m[p].height, lf(t), rt(t)) && is(m, m[p].left, lf(t)) && is(m, m[p].right, rt(t)) && tree(m, m[p].left) == lf(t) && tree(m, m[p].right) == rt(t)
    && ok(m, m[p].left) && ok(m, m[p].right) && !inn(lf(t), p) && !inn(rt(t), p) && apart(lf(t), rt(t)) && m.dom().contains(p) && num(lf(t)) < num(t) && num(rt(t)) < num(t) }),
    ok(m, p) && p == 0 ==> tree(m, p) == T::<K, V>::E
{ if ok(m, p) && p != 0 { lemma_open(m, p); } }
// the node n was rewritten in place, its children kept
pub proof fn lemma_sync<K, V>(m0: Map<int, node<K, V>>, mc: Map<int, node<K, V>>, m: Map<int, node<K, V>>, n: int, t0: T<K, V>, tc: T<K, V>) -> (t: T<K, V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), m =~= mc.insert(n, m[n]), m[n].left == mc[n].left, m[n].right == mc[n].right
  ensures t == mk(n, m[n].key, m[n].value, m[n].height, lf(tc), rt(tc)), is(m, n, t), tree(m, n) == t, ok(m, n), frame(m0, m, t0), grown(m0, t0, t),
    is(m, m[n].left, lf(t)), is(m, m[n].right, rt(t)), tree(m, m[n].left) == lf(t), tree(m, m[n].right) == rt(t), ok(m, m[n].left), ok(m, m[n].right),
    sq(t) == sq(lf(tc)).push((m[n].key, m[n].value)) + sq(rt(tc))
{
  lemma_root(mc, m, n, tc);
  let t = mk(n, m[n].key, m[n].value, m[n].height, lf(tc), rt(tc));
  lemma_trans(m0, mc, m, t0, tc, t); lemma_is(m, n, t); lemma_open(m, n);
  t
}
pub proof fn lemma_right_sync<K, V>(m0: Map<int, node<K, V>>, mc: Map<int, node<K, V>>, ma: Map<int, node<K, V>>, n: int, t0: T<K, V>, tc: T<K, V>, u: T<K, V>) -> (t: T<K, V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), okt(ma, u), frame(mc, ma, rt(tc)), grown(mc, rt(tc), u)
  ensures t == mk(n, ma[n].key, ma[n].value, ma[n].height, lf(tc), u), ma[n] == mc[n],
    ({ let m = ma.insert(n, node { right: root(u), ..ma[n] }); is(m, n, t) && tree(m, n) == t && ok(m, n) && frame(m0, m, t0) && grown(m0, t0, t) }),
    sq(t) == sq(lf(tc)).push((mc[n].key, mc[n].value)) + sq(u)
{
  let m = ma.insert(n, node { right: root(u), ..ma[n] });
  assert(ma[n] == mc[n]) by { assert(!inn(rt(tc), n)); assert(mc.dom().contains(n)); }
  lemma_right(mc, ma, m, n, tc, u);
  let t = mk(n, ma[n].key, ma[n].value, ma[n].height, lf(tc), u);
  lemma_trans(m0, mc, m, t0, tc, t); lemma_is(m, n, t);
  t
}
pub proof fn lemma_left_sync<K, V>(m0: Map<int, node<K, V>>, mc: Map<int, node<K, V>>, ma: Map<int, node<K, V>>, n: int, t0: T<K, V>, tc: T<K, V>, u: T<K, V>) -> (t: T<K, V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), okt(ma, u), frame(mc, ma, lf(tc)), grown(mc, lf(tc), u)
  ensures t == mk(n, ma[n].key, ma[n].value, ma[n].height, u, rt(tc)), ma[n] == mc[n],
    ({ let m = ma.insert(n, node { left: root(u), ..ma[n] }); is(m, n, t) && tree(m, n) == t && ok(m, n) && frame(m0, m, t0) && grown(m0, t0, t) }),
    sq(t) == sq(u).push((mc[n].key, mc[n].value)) + sq(rt(tc))
{
  let m = ma.insert(n, node { left: root(u), ..ma[n] });
  assert(ma[n] == mc[n]) by { assert(!inn(lf(tc), n)); assert(mc.dom().contains(n)); }
  lemma_left(mc, ma, m, n, tc, u);
  let t = mk(n, ma[n].key, ma[n].value, ma[n].height, u, rt(tc));
  lemma_trans(m0, mc, m, t0, tc, t); lemma_is(m, n, t);
  t
}

// what non-negative heights, and balance, say of the children
pub proof fn lemma_nn<K, V>(t: T<K, V>)
  ensures nonneg(t) ==> ht(t) >= 0 && nonneg(lf(t)) && nonneg(rt(t)) && ht(lf(t)) >= 0 && ht(rt(t)) >= 0,
    bal(t) ==> bal(lf(t)) && bal(rt(t)) && -1 <= ht(lf(t)) - ht(rt(t)) <= 1 && (root(t) != 0 ==> ht(t) == 1 + max2(ht(lf(t)), ht(rt(t)))) && ht(t) >= 0 && ht(lf(t)) >= 0 && ht(rt(t)) >= 0
{ reveal_with_fuel(nonneg, 3); reveal_with_fuel(bal, 2); if bal(t) { lemma_levels(t); lemma_levels(lf(t)); lemma_levels(rt(t)); } }

@func node.rotateLeft (n) (r)
@requires ok(s.node, n) && n != 0 && s.node[n].right != 0
@ensures ok(s.node, r) && r == s0.node[n].right && sq(tree(s.node, r)) == sq(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures nonneg(tree(s0.node, n)) ==> nonneg(tree(s.node, r))
@ensures[V02] tree(s.node, r) == rotl(tree(s0.node, n))
@entry let m0 = s.node; let t0 = tree(m0, n); lemma_open(m0, n); lemma_open(m0, m0[n].right);
@exit assert(s.node =~= m0.insert(n, s.node[n]).insert(r, s.node[r])); lemma_rotl(m0, s.node, n, t0); reveal_with_fuel(nonneg, 4);

@func node.rotateRight (n) (r)
@requires ok(s.node, n) && n != 0 && s.node[n].left != 0
@ensures ok(s.node, r) && r == s0.node[n].left && sq(tree(s.node, r)) == sq(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures nonneg(tree(s0.node, n)) ==> nonneg(tree(s.node, r))
@ensures[V02] tree(s.node, r) == rotr(tree(s0.node, n))
@entry let m0 = s.node; let t0 = tree(m0, n); lemma_open(m0, n); lemma_open(m0, m0[n].left);
@exit assert(s.node =~= m0.insert(n, s.node[n]).insert(r, s.node[r])); lemma_rotr(m0, s.node, n, t0); reveal_with_fuel(nonneg, 4);

@func node.rebalanceTree (n) (r)
@requires ok(s.node, n) && nonneg(lf(tree(s.node, n))) && nonneg(rt(tree(s.node, n)))
@ensures ok(s.node, r) && (r == 0) == (n == 0) && sq(tree(s.node, r)) == sq(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures nonneg(tree(s.node, r))
@ensures[V02] ({ let t = tree(s0.node, n); let l = lf(t); let r1 = rt(t); n != 0 && bal(l) && bal(r1) && -2 <= ht(l) - ht(r1) <= 2 ==> bal(tree(s.node, r)) && balanced_by(ht(l), ht(r1), max2(ht(l), ht(r1)), ht(tree(s.node, r))) })
@entry let m0 = s.node; let t0 = tree(m0, n); if n != 0 { lemma_open(m0, n); lemma_open2(m0, m0[n].left); lemma_open2(m0, m0[n].right); } let mut mc = m0; let mut tc = t0;
@before node.rotateRight#1 lemma_nn(rt(t0)); tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node; lemma_open2(mc, root(rt(tc))); lemma_open2(mc, root(lf(rt(tc)))); lemma_open2(mc, root(rt(rt(tc))));
@after node.rotateRight#1 tc = lemma_right_sync(m0, mc, s.node, n, t0, tc, tree(s.node, mc[mc[n].right].left)); mc = s.node.insert(n, node { right: root(rt(tc)), ..s.node[n] });
@before node.rotateLeft#1 tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node;
@before node.rotateLeft#2 lemma_nn(lf(t0)); tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node; lemma_open2(mc, root(lf(tc))); lemma_open2(mc, root(lf(lf(tc)))); lemma_open2(mc, root(rt(lf(tc))));
@after node.rotateLeft#2 tc = lemma_left_sync(m0, mc, s.node, n, t0, tc, tree(s.node, mc[mc[n].left].right)); mc = s.node.insert(n, node { left: root(lf(tc)), ..s.node[n] });
@before node.rotateRight#2 tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node;
@exit if n != 0 { if r == n { tc = lemma_sync(m0, mc, s.node, n, t0, tc); mc = s.node; } lemma_trans(m0, mc, s.node, t0, tc, tree(s.node, r)); lemma_reb(mk(n, ky(t0), vl(t0), 1 + max2(ht(lf(t0)), ht(rt(t0))), lf(t0), rt(t0))); }

@func node.findSmallest (n) (r)
@decreases num(tree(s.node, n))
@requires ok(s.node, n) && n != 0
@ensures r != 0 && s.node.dom().contains(r) && sq(tree(s.node, n)).len() > 0 && sq(tree(s.node, n))[0] == (s.node[r].key, s.node[r].value)
@entry lemma_open(s.node, n); let t = tree(s.node, n); assert(sq(t) == sq(lf(t)).push((ky(t), vl(t))) + sq(rt(t)));
@exit if s.node[n].left != 0 { assert(sq(t)[0] == sq(lf(t))[0]); } else { assert(sq(t)[0] == (ky(t), vl(t))); }

@func node.size (n) (r)
@flag counts
@decreases num(tree(s.node, n))
@requires ok(s.node, n)
@ensures r == sq(tree(s.node, n)).len()
@entry if n != 0 { lemma_open(s.node, n); let t = tree(s.node, n); assert(sq(t) == sq(lf(t)).push((ky(t), vl(t))) + sq(rt(t))); }

@func node.each (n, fn)
@decreases num(tree(s.node, n))
@requires ok(s.node, n)
@ensures tr == tr0 + sq(tree(s.node, n))
@entry if n != 0 { lemma_open(s.node, n); let t = tree(s.node, n); assert(sq(t) == sq(lf(t)).push((ky(t), vl(t))) + sq(rt(t))); }
@exit assert(tr =~= tr0 + sq(tree(s.node, n)));

@func node.search (n, key, less) (r)
@decreases num(tree(s.node, n))
@requires ok(s.node, n) && strict_weak(less) && sorted(sq(tree(s.node, n)), less)
@ensures (r != 0) == holds_key(sq(tree(s.node, n)), less, key)
@ensures r != 0 ==> s.node.dom().contains(r) && eqv(less, s.node[r].key, key) && sq(tree(s.node, n)).contains((s.node[r].key, s.node[r].value))
@entry let t = tree(s.node, n); if n != 0 { lemma_open(s.node, n); lemma_split(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), less); lemma_where(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), less, key); assert(sq(t) == sq(lf(t)).push((ky(t), vl(t))) + sq(rt(t))); lemma_contains(sq(lf(t)), (ky(t), vl(t)), sq(rt(t))); }

@func node.add (n, key, value, less) (r)
@decreases num(tree(s.node, n))
@requires ok(s.node, n) && strict_weak(less) && sorted(sq(tree(s.node, n)), less) && nonneg(tree(s.node, n))
@ensures ok(s.node, r) && r != 0 && nonneg(tree(s.node, r)) && put(sq(tree(s0.node, n)), sq(tree(s.node, r)), less, key, value)
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures[V02] bal(tree(s0.node, n)) ==> bal(tree(s.node, r)) && ht(tree(s0.node, n)) <= ht(tree(s.node, r)) <= ht(tree(s0.node, n)) + 1
@entry let m0 = s.node; let t = tree(m0, n); let mut ma = m0; let mut mb = m0; let mut tc = t; if n != 0 { lemma_open(m0, n); lemma_split(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), less); assert(sq(t) == sq(lf(t)).push((ky(t), vl(t))) + sq(rt(t))); lemma_dom(m0, t); }
@after node.add ma = s.node;
@before node.rebalanceTree#1 let u = if less(key, ky(t)) { tree(ma, s.node[n].left) } else { tree(ma, s.node[n].right) }; if less(key, ky(t)) { assert(s.node =~= ma.insert(n, node { left: root(u), ..ma[n] })); lemma_left(m0, ma, s.node, n, t, u); lemma_put_left(sq(lf(t)), sq(u), (ky(t), vl(t)), sq(rt(t)), less, key, value); tc = mk(n, ky(t), vl(t), ht(t), u, rt(t)); } else if less(ky(t), key) { assert(s.node =~= ma.insert(n, node { right: root(u), ..ma[n] })); lemma_right(m0, ma, s.node, n, t, u); lemma_put_right(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), sq(u), less, key, value); tc = mk(n, ky(t), vl(t), ht(t), lf(t), u); } else { assert(s.node =~= m0.insert(n, s.node[n])); lemma_root(m0, s.node, n, t); tc = mk(n, s.node[n].key, s.node[n].value, s.node[n].height, lf(t), rt(t)); lemma_put_here(sq(lf(t)), (ky(t), vl(t)), (ky(tc), vl(tc)), sq(rt(t)), less, key, value); } lemma_is(s.node, n, tc); mb = s.node;
@exit if n == 0 { let w = mk(r, key, value, s.node[r].height, T::E, T::E); lemma_is(m0, 0, T::E); assert(okt(s.node, T::<K, V>::E)); assert(apart(T::<K, V>::E, T::<K, V>::E)); assert(!inn(T::<K, V>::E, r)); lemma_is(s.node, r, w); assert(sq(w) =~= seq![(key, value)]); assert(sq(w) =~= sq(t).insert(0, (key, value))); assert(put_at(sq(t), sq(w), less, key, value, 0)); } else { lemma_trans(m0, mb, s.node, t, tc, tree(s.node, r)); }

@func node.remove (n, key, less) (r)
@decreases num(tree(s.node, n))
@requires ok(s.node, n) && strict_weak(less) && sorted(sq(tree(s.node, n)), less) && nonneg(tree(s.node, n))
@ensures ok(s.node, r) && nonneg(tree(s.node, r)) && del(sq(tree(s0.node, n)), sq(tree(s.node, r)), less, key)
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures[V02] bal(tree(s0.node, n)) ==> bal(tree(s.node, r)) && ht(tree(s0.node, n)) - 1 <= ht(tree(s.node, r)) <= ht(tree(s0.node, n))
@entry let m0 = s.node; let t = tree(m0, n); let mut ma = m0; let mut mb = m0; let mut tc = t; if n != 0 { lemma_open(m0, n); lemma_split(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), less); assert(sq(t) == sq(lf(t)).push((ky(t), vl(t))) + sq(rt(t))); lemma_dom(m0, t); } else { lemma_is(m0, 0, T::E); }
@after node.remove ma = s.node;
@before node.remove#3 mb = s.node; assert(s.node =~= m0.insert(n, s.node[n])); lemma_root(m0, s.node, n, t); tc = mk(n, s.node[n].key, s.node[n].value, s.node[n].height, lf(t), rt(t)); lemma_is(mb, n, tc); lemma_open(mb, n);
@before node.rebalanceTree#1 lemma_nn(t); lemma_nn(lf(t)); lemma_nn(rt(t)); if less(key, ky(t)) { let u = tree(ma, s.node[n].left); assert(s.node =~= ma.insert(n, node { left: root(u), ..ma[n] })); lemma_left(m0, ma, s.node, n, t, u); lemma_del_left(sq(lf(t)), sq(u), (ky(t), vl(t)), sq(rt(t)), less, key); tc = mk(n, ky(t), vl(t), ht(t), u, rt(t)); } else if less(ky(t), key) { let u = tree(ma, s.node[n].right); assert(s.node =~= ma.insert(n, node { right: root(u), ..ma[n] })); lemma_right(m0, ma, s.node, n, t, u); lemma_del_right(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), sq(u), less, key); tc = mk(n, ky(t), vl(t), ht(t), lf(t), u); } else if v_n == n { let u = tree(ma, s.node[n].right); assert(s.node =~= ma.insert(n, node { right: root(u), ..ma[n] })); let tb = tc; lemma_right(mb, ma, s.node, n, tb, u); tc = mk(n, ky(tb), vl(tb), ht(tb), lf(t), u); lemma_trans(m0, mb, s.node, t, tb, tc); lemma_del_first(sq(rt(t)), sq(u), less); assert(sq(tc) == sq(lf(t)).push((ky(tb), vl(tb))) + sq(u)); assert(sq(tc) =~= sq(lf(t)) + sq(rt(t))); lemma_del_here(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), sq(tc), less, key); } else { tc = tree(s.node, v_n); lemma_open(s.node, v_n); lemma_dom(m0, lf(t)); lemma_dom(m0, rt(t)); assert(sq(tc) =~= sq(lf(t)) + sq(rt(t))); lemma_del_here(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), sq(tc), less, key); } lemma_is(s.node, v_n, tc); mb = s.node;
@exit if r == 0 { lemma_is(s.node, 0, T::E); } if n != 0 { if mb == m0 && v_n == 0 { lemma_del_here(sq(lf(t)), (ky(t), vl(t)), sq(rt(t)), Seq::empty(), less, key); } else { lemma_trans(m0, mb, s.node, t, tc, tree(s.node, r)); } }

@func New (less) (r)
@requires strict_weak(less)
@ensures wf(s, r) && view(s, r).len() == 0 && !s0.Tree.dom().contains(r) && s.Tree[r].less == less
@ensures[V02] balanced(s, r)
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && separate(s, r, q) && tr_of(s, q) == tr_of(s0, q) && s.Tree[q] == s0.Tree[q]
@exit lemma_is(s.node, 0, T::E);

@func Tree.Put (p, key, value)
@requires wf(s, p)
@ensures wf(s, p) && put(view(s0, p), view(s, p), s0.Tree[p].less, key, value) && s.Tree[p].less == s0.Tree[p].less
@ensures others_kept(s0, s, p)
@ensures[V02] balanced(s0, p) ==> balanced(s, p)
@exit lemma_sorted_put(view(s0, p), view(s, p), s0.Tree[p].less, key, value); lemma_kept(s0, s, p);

@func Tree.Remove (p, key)
@requires wf(s, p)
@ensures wf(s, p) && del(view(s0, p), view(s, p), s0.Tree[p].less, key) && s.Tree[p].less == s0.Tree[p].less
@ensures others_kept(s0, s, p)
@ensures[V02] balanced(s0, p) ==> balanced(s, p)
@exit lemma_sorted_del(view(s0, p), view(s, p), s0.Tree[p].less, key); lemma_kept(s0, s, p);

@func Tree.Get (p, key) (v, found)
@requires wf(s, p)
@ensures found == holds_key(view(s, p), s.Tree[p].less, key)
@ensures found ==> exists|i: int| 0 <= i < view(s, p).len() && eqv(s.Tree[p].less, (#[trigger] view(s, p)[i]).0, key) && v == view(s, p)[i].1
@ensures !found ==> v == zero::<V>()

@func Tree.Each (p, fn)
@requires wf(s, p)
@ensures tr == tr0 + view(s, p)

@func Tree.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).len()

@func Tree.Height (p) (n)
@flag prop V02
@requires wf(s, p)
@ensures balanced(s, p) ==> n == levels(tr_of(s, p)) && view(s, p).len() >= sparsest(n)
@entry lemma_dom(s.node, tr_of(s, p)); if balanced(s, p) { lemma_levels(tr_of(s, p)); } if s.Tree[p].root != 0 { lemma_open(s.node, s.Tree[p].root); }
