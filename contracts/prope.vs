@state V
@counter length
@prelude
// ---- a rope as a value: the tree of nodes reachable from a pointer. Subtrees may be shared.
pub enum T { L { a: int, v: Slice }, N { a: int, l: Box<T>, r: Box<T> } }
pub open spec fn root(t: T) -> int { match t { T::L { a, .. } => a, T::N { a, .. } => a } }
pub open spec fn lf(t: T) -> T { match t { T::L { .. } => t, T::N { l, .. } => *l } }
pub open spec fn rt(t: T) -> T { match t { T::L { .. } => t, T::N { r, .. } => *r } }
pub open spec fn mk(a: int, l: T, r: T) -> T { T::N { a, l: Box::new(l), r: Box::new(r) } }
pub open spec fn leaf(t: T) -> bool { match t { T::L { .. } => true, T::N { .. } => false } }
pub open spec fn inn(t: T, x: int) -> bool decreases t { match t { T::L { a, .. } => x == a, T::N { a, l, r } => x == a || inn(*l, x) || inn(*r, x) } }
// x is the array of a leaf
pub open spec fn uses(t: T, x: int) -> bool decreases t { match t { T::L { v, .. } => x == v.arr, T::N { l, r, .. } => uses(*l, x) || uses(*r, x) } }
pub open spec fn tl(t: T) -> int decreases t { match t { T::L { v, .. } => v.len, T::N { l, r, .. } => tl(*l) + tl(*r) } }
pub open spec fn ct<V>(m: Map<int, Seq<V>>, t: T) -> Seq<V> decreases t { match t { T::L { v, .. } => sv(m, v), T::N { l, r, .. } => ct(m, *l) + ct(m, *r) } }
pub open spec fn max2(a: int, b: int) -> int { if a <= b { b } else { a } }
// a bound on the depth that neither sharing nor rebuilding increases
pub open spec fn mu(t: T) -> int decreases t { match t { T::L { v, .. } => v.len, T::N { l, r, .. } => max2(tl(t), 1 + max2(mu(*l), mu(*r))) } }
pub open spec fn size(t: T) -> int decreases t { match t { T::L { .. } => 1, T::N { l, r, .. } => 1 + size(*l) + size(*r) } }
pub open spec fn okt<V>(s: S<V>, t: T) -> bool decreases t {
  match t {
    T::L { a, v } => a != 0 && s.Node.dom().contains(a) && s.Node[a].kind == 0 && s.Node[a].value == v && s.Node[a].length == v.len && slwf(s.arr_V, v),
    T::N { a, l, r } => a != 0 && s.Node.dom().contains(a) && s.Node[a].kind == 1 && s.Node[a].left == root(*l) && s.Node[a].right == root(*r) && s.Node[a].length == tl(t)
      && okt(s, *l) && okt(s, *r),
  }
}
pub open spec fn is<V>(s: S<V>, p: int, t: T) -> bool { p == root(t) && okt(s, t) }
pub open spec fn tree<V>(s: S<V>, p: int) -> T { choose|t: T| #[trigger] is(s, p, t) }
pub open spec fn ok<V>(s: S<V>, p: int) -> bool { is(s, p, tree(s, p)) }
// the sequence a rope represents
pub open spec fn val<V>(s: S<V>, p: int) -> Seq<V> { ct(s.arr_V, tree(s, p)) }
pub open spec fn same<V>(s0: S<V>, s: S<V>, q: int) -> bool { ok(s, q) && val(s, q) == val(s0, q) && mu(tree(s, q)) <= mu(tree(s0, q)) && from(s0, tree(s0, q), tree(s, q)) }
// every rope keeps its contents
pub open spec fn kept<V>(s0: S<V>, s: S<V>) -> bool { forall|q: int| #[trigger] ok(s0, q) ==> same(s0, s, q) }
pub open spec fn agrown<V>(a0: Map<int, Seq<V>>, a: Map<int, Seq<V>>) -> bool { a[0] == a0[0] && forall|x: int| #[trigger] a0.dom().contains(x) ==> a.dom().contains(x) && a[x] == a0[x] }
// everything that existed is as it was, except possibly the nodes in ex
pub open spec fn grown_but<V>(s0: S<V>, s: S<V>, ex: spec_fn(int) -> bool) -> bool {
  agrown(s0.arr_V, s.arr_V) && forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s.Node[x]] s0.Node.dom().contains(x) ==> s.Node.dom().contains(x) && (ex(x) || s.Node[x] == s0.Node[x])
}
pub open spec fn grown<V>(s0: S<V>, s: S<V>) -> bool {
  agrown(s0.arr_V, s.arr_V) && forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s.Node[x]] s0.Node.dom().contains(x) ==> s.Node.dom().contains(x) && s.Node[x] == s0.Node[x]
}
// all nodes of t are new
pub open spec fn newt<V>(s0: S<V>, t: T) -> bool { forall|x: int| #[trigger] inn(t, x) ==> !s0.Node.dom().contains(x) }
// the nodes of u are nodes of t or new
pub open spec fn from<V>(s0: S<V>, t: T, u: T) -> bool { forall|x: int| #[trigger] inn(u, x) ==> inn(t, x) || !s0.Node.dom().contains(x) }
pub open spec fn catv<V>(s: S<V>, q: Seq<int>) -> Seq<V> decreases q.len() { if q.len() == 0 { Seq::empty() } else { catv(s, q.drop_last()) + val(s, q.last()) } }

pub proof fn lemma_tree<V>(s: S<V>, t: T)
  requires okt(s, t)
  ensures tl(t) >= 0, ct(s.arr_V, t).len() == tl(t), size(t) >= 1, mu(t) >= tl(t), root(t) != 0, inn(t, root(t)), !inn(t, 0), s.Node.dom().contains(root(t)), s.Node[root(t)].length == tl(t), (s.Node[root(t)].kind == 0) == leaf(t),
    forall|x: int| #[trigger] inn(t, x) ==> s.Node.dom().contains(x) && x != 0,
    forall|x: int| #[trigger] uses(t, x) ==> x == 0 || s.arr_V.dom().contains(x),
  decreases t
{ match t { T::L { .. } => {}, T::N { a, l, r } => { lemma_tree(s, *l); lemma_tree(s, *r);
    assert forall|x: int| #[trigger] inn(t, x) implies s.Node.dom().contains(x) && x != 0 by { if inn(*l, x) {} else if inn(*r, x) {} else { assert(x == a); } }
    assert forall|x: int| #[trigger] uses(t, x) implies x == 0 || s.arr_V.dom().contains(x) by { if uses(*l, x) {} else { assert(uses(*r, x)); } } } } }
pub proof fn lemma_unique<V>(s: S<V>, t: T, u: T)
  requires okt(s, t), okt(s, u), root(t) == root(u)
  ensures t == u
  decreases t
{ match t { T::L { .. } => { match u { T::L { .. } => {}, T::N { .. } => {} } },
    T::N { l, r, .. } => { match u { T::L { .. } => {}, T::N { l: l2, r: r2, .. } => { lemma_unique(s, *l, *l2); lemma_unique(s, *r, *r2); assert(l == l2 && r == r2); } } } } }
pub proof fn lemma_is<V>(s: S<V>, p: int, t: T)
  requires is(s, p, t)
  ensures ok(s, p), tree(s, p) == t
{ assert(is(s, p, tree(s, p))); lemma_unique(s, t, tree(s, p)); }
// a node below t has a smaller tree
pub proof fn lemma_below<V>(s: S<V>, t: T, x: int) -> (u: T)
  requires okt(s, t), inn(t, x)
  ensures is(s, x, u), size(u) <= size(t), x != root(t) ==> size(u) < size(t)
  decreases t
{ match t { T::L { .. } => { t }, T::N { a, l, r } => { if x == a { t } else { lemma_tree(s, *l); lemma_tree(s, *r); if inn(*l, x) { lemma_below(s, *l, x) } else { lemma_below(s, *r, x) } } } } }
// the children of a rope
pub proof fn lemma_open<V>(s: S<V>, p: int)
  requires ok(s, p)
  ensures ({ let t = tree(s, p); let l = s.Node[p].left; let r = s.Node[p].right;
      p != 0 && s.Node.dom().contains(p) && inn(t, p) && s.Node[p].length == val(s, p).len() && mu(t) >= tl(t) == val(s, p).len() && mu(t) >= 0 && (s.Node[p].kind == 0 || s.Node[p].kind == 1)
      && (s.Node[p].kind == 0 ==> t == (T::L { a: p, v: s.Node[p].value }) && val(s, p) == sv(s.arr_V, s.Node[p].value) && slwf(s.arr_V, s.Node[p].value) && s.Node[p].length == s.Node[p].value.len)
      && (s.Node[p].kind == 1 ==> t == mk(p, tree(s, l), tree(s, r)) && ok(s, l) && ok(s, r) && l != 0 && r != 0 && val(s, p) == val(s, l) + val(s, r) && s.Node[p].length == s.Node[l].length + s.Node[r].length
           && s.Node[l].length == val(s, l).len() && s.Node[r].length == val(s, r).len() && mu(tree(s, l)) < mu(t) && mu(tree(s, r)) < mu(t) && !inn(tree(s, l), p) && !inn(tree(s, r), p)) })
{
  let t = tree(s, p); lemma_tree(s, t);
  match t { T::L { .. } => {}, T::N { a, l, r } => {
    lemma_is(s, root(*l), *l); lemma_is(s, root(*r), *r); lemma_tree(s, *l); lemma_tree(s, *r);
    if inn(*l, p) { let u = lemma_below(s, *l, p); lemma_unique(s, t, u); }
    if inn(*r, p) { let u = lemma_below(s, *r, p); lemma_unique(s, t, u); }
  } }
}
pub proof fn lemma_keep<V>(s0: S<V>, s: S<V>, t: T)
  requires okt(s0, t), agrown(s0.arr_V, s.arr_V), forall|x: int| #[trigger] inn(t, x) ==> s.Node.dom().contains(x) && s.Node[x] == s0.Node[x]
  ensures okt(s, t), ct(s.arr_V, t) == ct(s0.arr_V, t)
  decreases t
{ match t { T::L { a, v } => { assert(inn(t, a)); assert(s.arr_V[v.arr] == s0.arr_V[v.arr]); }, T::N { a, l, r } => { assert(inn(t, a));
    assert forall|x: int| #[trigger] inn(*l, x) implies s.Node.dom().contains(x) && s.Node[x] == s0.Node[x] by { assert(inn(t, x)); }
    assert forall|x: int| #[trigger] inn(*r, x) implies s.Node.dom().contains(x) && s.Node[x] == s0.Node[x] by { assert(inn(t, x)); }
    lemma_keep(s0, s, *l); lemma_keep(s0, s, *r); } } }
// nothing that existed changed
pub proof fn lemma_grown<V>(s0: S<V>, s: S<V>)
  requires grown(s0, s)
  ensures kept(s0, s), forall|q: int| #[trigger] ok(s0, q) ==> tree(s, q) == tree(s0, q)
{
  assert forall|q: int| #[trigger] ok(s0, q) implies same(s0, s, q) && tree(s, q) == tree(s0, q) by {
    let t = tree(s0, q); lemma_tree(s0, t); lemma_keep(s0, s, t); lemma_is(s, q, t);
  }
}
pub open spec fn subst(t: T, n: int, u: T) -> T decreases t { if root(t) == n { u } else { match t { T::L { .. } => t, T::N { a, l, r } => T::N { a, l: Box::new(subst(*l, n, u)), r: Box::new(subst(*r, n, u)) } } } }
pub proof fn lemma_subst<V>(s0: S<V>, s: S<V>, n: int, u: T, t: T)
  requires okt(s0, t), ok(s0, n), is(s, n, u), grown_but(s0, s, |x: int| x == n), ct(s.arr_V, u) == val(s0, n), tl(u) == tl(tree(s0, n)), mu(u) <= mu(tree(s0, n)), from(s0, tree(s0, n), u)
  ensures from(s0, t, subst(t, n, u)), is(s, root(t), subst(t, n, u)), ct(s.arr_V, subst(t, n, u)) == ct(s0.arr_V, t), tl(subst(t, n, u)) == tl(t), mu(subst(t, n, u)) <= mu(t)
  decreases t
{
  if root(t) == n { lemma_unique(s0, t, tree(s0, n)); } else {
    let a0 = root(t); lemma_tree(s0, t);
    assert(s.Node.dom().contains(a0) && s.Node[a0] == s0.Node[a0]);
    match t { T::L { a, v } => { assert(s.arr_V[v.arr] == s0.arr_V[v.arr]); }, T::N { a, l, r } => { lemma_subst(s0, s, n, u, *l); lemma_subst(s0, s, n, u, *r);
      let w = subst(t, n, u);
      assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) || !s0.Node.dom().contains(x) by { if x != a { if inn(subst(*l, n, u), x) {} else { assert(inn(subst(*r, n, u), x)); } } } } }
  }
}
// the node n was rewritten in place to the tree u of the same contents
pub proof fn lemma_rewrite<V>(s0: S<V>, s: S<V>, n: int, u: T)
  requires ok(s0, n), is(s, n, u), grown_but(s0, s, |x: int| x == n), ct(s.arr_V, u) == val(s0, n), tl(u) == tl(tree(s0, n)), mu(u) <= mu(tree(s0, n)), from(s0, tree(s0, n), u)
  ensures kept(s0, s), ok(s, n), tree(s, n) == u
{
  lemma_is(s, n, u);
  assert forall|q: int| #[trigger] ok(s0, q) implies same(s0, s, q) by { let t = tree(s0, q); lemma_subst(s0, s, n, u, t); lemma_is(s, q, subst(t, n, u)); }
}
// the array d, which no leaf of t uses, was written
pub proof fn lemma_other<V>(s0: S<V>, s: S<V>, t: T, d: int)
  requires okt(s0, t), !uses(t, d), s.Node == s0.Node, forall|x: int| x != d ==> (#[trigger] s.arr_V.dom().contains(x) == s0.arr_V.dom().contains(x)), forall|x: int| x != d ==> #[trigger] s.arr_V[x] == s0.arr_V[x]
  ensures okt(s, t), ct(s.arr_V, t) == ct(s0.arr_V, t)
  decreases t
{ match t { T::L { v, .. } => { assert(s.arr_V[v.arr] == s0.arr_V[v.arr]); assert(s.arr_V.dom().contains(v.arr) == s0.arr_V.dom().contains(v.arr)); }, T::N { l, r, .. } => { lemma_other(s0, s, *l, d); lemma_other(s0, s, *r, d); } } }
pub proof fn lemma_leaf<V>(s: S<V>, p: int)
  requires p != 0, s.Node.dom().contains(p), s.Node[p].kind == 0, s.Node[p].length == s.Node[p].value.len, slwf(s.arr_V, s.Node[p].value)
  ensures ok(s, p), tree(s, p) == (T::L { a: p, v: s.Node[p].value }), val(s, p) == sv(s.arr_V, s.Node[p].value)
{ lemma_is(s, p, T::L { a: p, v: s.Node[p].value }); }
pub proof fn lemma_node<V>(s: S<V>, p: int)
  requires p != 0, s.Node.dom().contains(p), s.Node[p].kind == 1, ok(s, s.Node[p].left), ok(s, s.Node[p].right), s.Node[p].length == val(s, s.Node[p].left).len() + val(s, s.Node[p].right).len()
  ensures ok(s, p), tree(s, p) == mk(p, tree(s, s.Node[p].left), tree(s, s.Node[p].right)), val(s, p) == val(s, s.Node[p].left) + val(s, s.Node[p].right)
{ lemma_tree(s, tree(s, s.Node[p].left)); lemma_tree(s, tree(s, s.Node[p].right)); lemma_is(s, p, mk(p, tree(s, s.Node[p].left), tree(s, s.Node[p].right))); }
pub proof fn lemma_catv<V>(s0: S<V>, s: S<V>, q: Seq<int>)
  requires forall|i: int| 0 <= i < q.len() ==> val(s, #[trigger] q[i]) == val(s0, q[i])
  ensures catv(s, q) == catv(s0, q)
  decreases q.len()
{ if q.len() > 0 { assert forall|i: int| 0 <= i < q.drop_last().len() implies val(s, #[trigger] q.drop_last()[i]) == val(s0, q.drop_last()[i]) by { assert(q[i] == q.drop_last()[i]); } lemma_catv(s0, s, q.drop_last()); assert(q[q.len() - 1] == q.last()); } }
pub open spec fn cut<V>(q: Seq<V>, a: int, b: int) -> Seq<V> { q.take(a) + q.skip(b) }
pub open spec fn ins<V>(q: Seq<V>, k: int, x: Seq<V>) -> Seq<V> { q.take(k) + x + q.skip(k) }
pub open spec fn lo(a: int, b: int, n: int) -> int { let x = if a < 0 { 0 } else if a > n { n } else { a }; let y = if b < 0 { 0 } else if b > n { n } else { b }; if x >= y { 0 } else { x } }
pub open spec fn hi(a: int, b: int, n: int) -> int { let x = if a < 0 { 0 } else if a > n { n } else { a }; let y = if b < 0 { 0 } else if b > n { n } else { b }; if x >= y { 0 } else { y } }
pub proof fn lemma_cut<V>(p: Seq<V>, q: Seq<V>, a: int, b: int)
  requires 0 <= a <= b <= p.len() + q.len()
  ensures cut(p + q, a, b) == cut(p, lo(a, b, p.len() as int), hi(a, b, p.len() as int)) + cut(q, lo(a - p.len(), b - p.len(), q.len() as int), hi(a - p.len(), b - p.len(), q.len() as int))
{ assert(cut(p + q, a, b) =~= cut(p, lo(a, b, p.len() as int), hi(a, b, p.len() as int)) + cut(q, lo(a - p.len(), b - p.len(), q.len() as int), hi(a - p.len(), b - p.len(), q.len() as int))); }
pub proof fn lemma_sub<V>(p: Seq<V>, q: Seq<V>, a: int, b: int)
  requires 0 <= a < b <= p.len() + q.len()
  ensures ({ let la = lo(a, b, p.len() as int); let lb = hi(a, b, p.len() as int); let ra = lo(a - p.len(), b - p.len(), q.len() as int); let rb = hi(a - p.len(), b - p.len(), q.len() as int);
    0 <= la <= lb <= p.len() && 0 <= ra <= rb <= q.len() && lb - la + (rb - ra) == b - a && (p + q).subrange(a, b) == p.subrange(la, lb) + q.subrange(ra, rb) })
{ let la = lo(a, b, p.len() as int); let lb = hi(a, b, p.len() as int); let ra = lo(a - p.len(), b - p.len(), q.len() as int); let rb = hi(a - p.len(), b - p.len(), q.len() as int);
  assert((p + q).subrange(a, b) =~= p.subrange(la, lb) + q.subrange(ra, rb)); }

pub proof fn lemma_two<V>(s: S<V>)
  ensures forall|q: Seq<int>| q.len() == 2 ==> #[trigger] catv(s, q) == val(s, q[0]) + val(s, q[1])
{ assert forall|q: Seq<int>| q.len() == 2 implies #[trigger] catv(s, q) == val(s, q[0]) + val(s, q[1]) by {
    let p = q.drop_last(); let a = q[0]; assert(p.len() == 1 && p.last() == q[0] && q.last() == q[1]); let e = p.drop_last(); assert(catv(s, e) == Seq::<V>::empty()); assert(catv(s, p) =~= val(s, a)); } }
// the root of the new rope in s2 was copied onto n
pub proof fn lemma_rebuilt<V>(s0: S<V>, s2: S<V>, s: S<V>, n: int)
  requires ok(s0, n), grown(s0, s2), s.arr_V == s2.arr_V, s.Node.dom() =~= s2.Node.dom(), forall|x: int| x != n ==> #[trigger] s.Node[x] == s2.Node[x],
    exists|w: int| #[trigger] ok(s2, w) && s.Node[n] == s2.Node[w] && newt(s0, tree(s2, w)) && val(s2, w) == val(s0, n) && tl(tree(s2, w)) == tl(tree(s0, n)) && mu(tree(s2, w)) <= mu(tree(s0, n))
  ensures kept(s0, s), ok(s, n)
{
  let w = choose|w: int| #[trigger] ok(s2, w) && s.Node[n] == s2.Node[w] && newt(s0, tree(s2, w)) && val(s2, w) == val(s0, n) && tl(tree(s2, w)) == tl(tree(s0, n)) && mu(tree(s2, w)) <= mu(tree(s0, n));
  let t = tree(s2, w);
  lemma_tree(s0, tree(s0, n)); lemma_tree(s2, t);
  let u = match t { T::L { v, .. } => T::L { a: n, v }, T::N { l, r, .. } => T::N { a: n, l, r } };
  assert(agrown(s2.arr_V, s.arr_V));
  match t { T::L { .. } => {}, T::N { l, r, .. } => {
    assert forall|x: int| #[trigger] inn(*l, x) implies s.Node.dom().contains(x) && s.Node[x] == s2.Node[x] by { assert(inn(t, x)); }
    assert forall|x: int| #[trigger] inn(*r, x) implies s.Node.dom().contains(x) && s.Node[x] == s2.Node[x] by { assert(inn(t, x)); }
    lemma_keep(s2, s, *l); lemma_keep(s2, s, *r); } }
  assert(is(s, n, u));
  assert forall|x: int| #[trigger] inn(u, x) implies inn(tree(s0, n), x) || !s0.Node.dom().contains(x) by { if x != n { assert(inn(t, x)); } }
  lemma_rewrite(s0, s, n, u);
}

@func New (b) (r)
@requires prope::g_SplitLength() >= 1
@requires slwf(s0.arr_V, b)
@ensures ok(s, r)
@ensures !s0.Node.dom().contains(r)
@ensures[O01] val(s, r) == sv(s0.arr_V, b)
@ensures grown(s0, s)
@ensures newt(s0, tree(s, r))
@ensures mu(tree(s, r)) <= b.len
@ensures tl(tree(s, r)) == b.len
@ensures[O02] kept(s0, s)
@decreases b.len, 1int
@entry
let mut s1 = s0;
@before Node.adjust
s1 = s;
lemma_leaf(s, v_n);
assert(grown(s0, s1));
@exit
assert(same(s1, s, v_n));
assert(grown(s0, s));
lemma_grown(s0, s);
lemma_tree(s, tree(s, v_n)); lemma_tree(s1, tree(s1, v_n));

@func Node.Len (n) (r)
@requires ok(s0, n)
@ensures[O01] r == val(s0, n).len()
@entry
lemma_open(s, v_n);

@func Node.adjust (n)
@requires prope::g_SplitLength() >= 1
@requires ok(s0, n)
@ensures ok(s, n)
@ensures kept(s0, s)
@ensures grown_but(s0, s, |x: int| x == n)
@ensures from(s0, tree(s0, n), tree(s, n))
@decreases val(s0, n).len(), 0int
@entry
lemma_open(s0, n);
let mut s1 = s0; let mut s2 = s0; let mut sp = s0;
@after New#1
s1 = s;
@before New#2
sp = s;
assert(grown_but(s0, s, |x: int| x == n));
@after New#2
s2 = s;
assert(agrown(s1.arr_V, s2.arr_V));
assert(grown_but(s1, s2, |x: int| x == n)) by { assert forall|x: int| s1.Node.dom().contains(x) implies #[trigger] s2.Node.dom().contains(x) && (x == n || s2.Node[x] == s1.Node[x]) by { assert(sp.Node.dom().contains(x)); } }
assert(grown_but(s0, s, |x: int| x == n));
@before Node.Value
lemma_tree(s0, tree(s0, n));
@after Node.Value
s1 = s;
assert(grown(s0, s));
@exit
assert(grown_but(s0, s, |x: int| x == n));
if s0.Node[n].kind == 0 && s.Node[n].kind == 1 {
  let l = s.Node[n].left; let r = s.Node[n].right;
  lemma_tree(s1, tree(s1, l)); lemma_tree(s2, tree(s2, r));
  lemma_keep(s1, s, tree(s1, l)); lemma_is(s, l, tree(s1, l));
  lemma_keep(s2, s, tree(s2, r)); lemma_is(s, r, tree(s2, r));
  lemma_node(s, n);
  assert(val(s, n) =~= val(s0, n));
  lemma_tree(s, tree(s, n));
  assert(from(s0, tree(s0, n), tree(s, n))) by { assert forall|x: int| #[trigger] inn(tree(s, n), x) implies inn(tree(s0, n), x) || !s0.Node.dom().contains(x) by { if x != n { if inn(tree(s1, l), x) {} else { assert(inn(tree(s2, r), x)); } } } }
  lemma_rewrite(s0, s, n, tree(s, n));
} else if s0.Node[n].kind == 1 && s.Node[n].kind == 0 {
  lemma_leaf(s, n);
  assert(val(s, n) == val(s0, n));
  lemma_tree(s, tree(s, n));
  lemma_rewrite(s0, s, n, tree(s, n));
} else { lemma_grown(s0, s); assert(tree(s, n) == tree(s0, n)); }

@func Node.Value (n) (r)
@requires ok(s0, n)
@ensures sv(s.arr_V, r) == val(s0, n)
@ensures[O02] r.len > 0 ==> !s0.arr_V.dom().contains(r.arr)
@ensures slwf(s.arr_V, r)
@ensures r.len == val(s0, n).len()
@ensures grown(s0, s)
@ensures[O02] kept(s0, s)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
lemma_grown(s0, s0);
@before Node.copy
assert(grown(s0, s));
lemma_grown(s0, s);
@exit
assert(sv(s.arr_V, r) =~= val(s0, n));
assert(grown(s0, s));
lemma_grown(s0, s);

@func Node.Insert (n, pos, value) (r)
@requires prope::g_SplitLength() >= 1
@requires ok(s0, n)
@requires 0 <= pos <= val(s0, n).len()
@requires slwf(s0.arr_V, value)
@ensures ok(s, r)
@ensures[O01] val(s, r) == ins(val(s0, n), pos, sv(s0.arr_V, value))
@ensures val(s, r).len() == val(s0, n).len() + value.len
@ensures grown(s0, s)
@ensures from(s0, tree(s0, n), tree(s, r))
@ensures[O02] kept(s0, s)
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
let l = s0.Node[n].left; let r0 = s0.Node[n].right;
let mut s2 = s0;
@before New
assert(grown(s0, s));
@before Node.Insert
assert(grown(s0, s));
lemma_grown(s0, s);
lemma_tree(s0, tree(s0, l)); lemma_tree(s0, tree(s0, r0));
assert(val(s, l) == val(s0, l) && val(s, r0) == val(s0, r0));
@after Node.Insert
s2 = s;
@exit
assert(grown(s0, s));
lemma_grown(s0, s);
if s0.Node[n].kind == 1 {
  lemma_grown(s0, s2);
  let a = s.Node[r].left; let b = s.Node[r].right;
  assert(grown(s0, s2));
  assert(agrown(s2.arr_V, s.arr_V));
  lemma_tree(s2, tree(s2, a)); lemma_tree(s2, tree(s2, b));
  lemma_keep(s2, s, tree(s2, a)); lemma_is(s, a, tree(s2, a));
  lemma_keep(s2, s, tree(s2, b)); lemma_is(s, b, tree(s2, b));
  lemma_node(s, r);
  assert(val(s, r) =~= ins(val(s0, n), pos, sv(s0.arr_V, value)));
  assert forall|x: int| #[trigger] inn(tree(s, r), x) implies inn(tree(s0, n), x) || !s0.Node.dom().contains(x) by { if x != r { if inn(tree(s2, a), x) {} else { assert(inn(tree(s2, b), x)); } } }
}
lemma_tree(s, tree(s, r));

@func Node.Remove (n, start, end) (r)
@requires prope::g_SplitLength() >= 1
@requires ok(s0, n)
@requires 0 <= start <= end <= val(s0, n).len()
@ensures ok(s, r)
@ensures[O01] val(s, r) == cut(val(s0, n), start, end)
@ensures grown(s0, s)
@ensures from(s0, tree(s0, n), tree(s, r))
@ensures[O02] kept(s0, s)
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
let l = s0.Node[n].left; let r0 = s0.Node[n].right;
let mut s2 = s0; let mut s4 = s0; let mut s6 = s0; let mut sp = s0;
@before New
assert(grown(s0, s));
@before Node.Remove
sp = s;
assert(grown(s0, s));
lemma_grown(s0, s);
lemma_tree(s0, tree(s0, l)); lemma_tree(s0, tree(s0, r0));
assert(val(s, l) == val(s0, l) && val(s, r0) == val(s0, r0));
@after Node.Remove#1
s2 = s;
@after Node.Remove#2
s4 = s;
assert(grown_but(s2, s4, |x: int| x == v_changedNode)) by { assert forall|x: int| s2.Node.dom().contains(x) implies #[trigger] s4.Node.dom().contains(x) && (x == v_changedNode || s4.Node[x] == s2.Node[x]) by { assert(sp.Node.dom().contains(x)); } }
@before Node.adjust
s6 = s;
let c = v_changedNode;
assert(grown(s0, s));
let a = s.Node[c].left; let b = s.Node[c].right;
assert(agrown(s2.arr_V, s.arr_V));
lemma_tree(s2, tree(s2, a)); lemma_tree(s4, tree(s4, b));
lemma_keep(s2, s, tree(s2, a)); lemma_is(s, a, tree(s2, a));
lemma_keep(s4, s, tree(s4, b)); lemma_is(s, b, tree(s4, b));
lemma_node(s, c);
lemma_cut(val(s0, l), val(s0, r0), start, end);
assert(val(s, c) == cut(val(s0, n), start, end));
lemma_tree(s, tree(s, c));
assert forall|x: int| #[trigger] inn(tree(s, c), x) implies inn(tree(s0, n), x) || !s0.Node.dom().contains(x) by { if x != c { if inn(tree(s2, a), x) {} else { assert(inn(tree(s4, b), x)); } } }
@exit
if s0.Node[n].kind == 1 { assert(same(s6, s, r)); }
assert(grown(s0, s));
lemma_grown(s0, s);
lemma_tree(s, tree(s, r));

@func Node.Slice (n, start, end) (r)
@requires ok(s0, n)
@requires 0 <= start <= end <= val(s0, n).len()
@ensures[O01] sv(s.arr_V, r) == val(s0, n).subrange(start, end)
@ensures[O02] r.len > 0 ==> !s0.arr_V.dom().contains(r.arr)
@ensures slwf(s.arr_V, r)
@ensures grown(s0, s)
@ensures[O02] kept(s0, s)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
lemma_grown(s0, s0);
@before Node.copySlice
assert(grown(s0, s));
lemma_grown(s0, s);
@exit
assert(sv(s.arr_V, r) =~= val(s0, n).subrange(start, end));
assert(grown(s0, s));
lemma_grown(s0, s);

@func Node.At (n, pos) (r)
@requires ok(s0, n)
@requires 0 <= pos < val(s0, n).len() && is_count(val(s0, n).len() as int)
@ensures[O01] r == val(s0, n)[pos]
@ensures grown(s0, s)
@ensures[O02] kept(s0, s)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
lemma_grown(s0, s0);
@before Node.copySlice
assert(grown(s0, s));
lemma_grown(s0, s);
@exit
assert(grown(s0, s));
lemma_grown(s0, s);

@func Node.SplitAt (n, i) (l, r)
@requires prope::g_SplitLength() >= 1
@requires ok(s0, n)
@requires 0 <= i <= val(s0, n).len()
@ensures ok(s, l)
@ensures ok(s, r)
@ensures[O01] val(s, l) == val(s0, n).take(i)
@ensures[O01] val(s, r) == val(s0, n).skip(i)
@ensures grown(s0, s)
@ensures[O02] kept(s0, s)
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
let nl = s0.Node[n].left; let nr = s0.Node[n].right;
let mut s1 = s0;
lemma_grown(s0, s0);
@after Node.SplitAt
s1 = s;
@after New#1
s1 = s;
assert(grown(s0, s));
@after New#2
assert(grown(s0, s));
@before Join
assert(grown(s0, s));
lemma_grown(s0, s);
assert(grown(s1, s));
lemma_grown(s1, s);
lemma_two(s);
@exit
assert(grown(s1, s));
lemma_grown(s1, s);
assert(grown(s0, s));
lemma_grown(s0, s);
assert(val(s, l) =~= val(s0, n).take(i));
assert(val(s, r) =~= val(s0, n).skip(i));

@func Node.Rebuild (n)
@requires prope::g_SplitLength() >= 1
@requires ok(s0, n)
@ensures ok(s, n)
@ensures[O01] val(s, n) == val(s0, n)
@ensures kept(s0, s)
@ensures grown_but(s0, s, |x: int| x == n)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
let mut s2 = s0; let mut w = 0int;
lemma_grown(s0, s0);
@after New
s2 = s;
@exit
assert(grown_but(s0, s, |x: int| x == n));
if s0.Node[n].kind == 1 {
  lemma_rebuilt(s0, s2, s, n);
}
assert(same(s0, s, n));

@func Node.Rebalance (n)
@requires prope::g_SplitLength() >= 1
@requires ok(s0, n)
@ensures ok(s, n)
@ensures[O01] val(s, n) == val(s0, n)
@ensures kept(s0, s)
@ensures grown_but(s0, s, |x: int| inn(tree(s0, n), x))
@decreases mu(tree(s0, n))
@entry
lemma_open(s0, n);
lemma_grown(s0, s0);
let nl = s0.Node[n].left; let nr = s0.Node[n].right;
let mut s1 = s0;
assert(s0.Node[n].kind == 1 ==> (forall|x: int| #[trigger] inn(tree(s0, nl), x) ==> inn(tree(s0, n), x)) && (forall|x: int| #[trigger] inn(tree(s0, nr), x) ==> inn(tree(s0, n), x)));
@after Node.Rebalance#1
s1 = s;
assert(same(s0, s1, n) && same(s0, s1, nr));
assert(s1.Node[n] == s0.Node[n]);
lemma_open(s1, n);
@exit
assert(same(s0, s, n));

@func Join (nodes) (r)
@requires prope::g_SplitLength() >= 1
@requires slwf(s0.arr_int, nodes)
@requires forall|i: int| 0 <= i < nodes.len ==> ok(s0, #[trigger] sv(s0.arr_int, nodes)[i])
@ensures ok(s, r)
@ensures[O01] val(s, r) == catv(s0, sv(s0.arr_int, nodes))
@ensures grown(s0, s)
@ensures[O02] kept(s0, s)
@entry
let q = sv(s0.arr_int, nodes);
lemma_grown(s0, s0);
assert(nodes.len > 0 ==> ok(s0, q[0]));
assert(nodes.len > 0 ==> catv(s0, q.take(1)) == val(s0, q[0])) by { if nodes.len > 0 { assert(q.take(1).drop_last() =~= Seq::empty()); assert(q.take(1).last() == q[0]); assert(catv(s0, q.take(1).drop_last()) =~= Seq::<V>::empty()); assert(catv(s0, q.take(1)) =~= val(s0, q[0])); } }
let mut s1 = s0;
@before New
assert(grown(s0, s));
@loop 1
@invariant ok(s, v_accum) && grown(s0, s) && val(s, v_accum) == catv(s0, q.take(it1 + 1)) && kept(s0, s)
@loopentry
let x = q[it1 + 1];
assert(ok(s0, x));
let sa = s; let acc = v_accum;
lemma_open(s, x); lemma_open(s, acc);
@before Node.adjust
assert(grown(sa, s));
lemma_grown(sa, s);
lemma_node(s, v_accum);
s1 = s;
@loopbody
assert(same(s1, s, v_accum));
assert(grown(s0, s));
lemma_grown(s0, s);
assert(q.take(it1 + 2).drop_last() =~= q.take(it1 + 1));
assert(q.take(it1 + 2).last() == q[it1 + 1]);
@exit
assert(grown(s0, s));
lemma_grown(s0, s);
assert(q.take(q.len() as int) =~= q);

@func Node.copy (n, dst)
@requires ok(s0, n)
@requires slwf(s0.arr_V, dst)
@requires dst.arr != 0
@requires dst.len >= val(s0, n).len()
@requires !uses(tree(s0, n), dst.arr)
@ensures s.arr_V == s0.arr_V.insert(dst.arr, splice(s0.arr_V[dst.arr], dst.off, val(s0, n)))
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
let nl = s0.Node[n].left; let nr = s0.Node[n].right;
@after Node.copy#1
lemma_other(s0, s, tree(s0, n), dst.arr);
lemma_is(s, n, tree(s0, n));
lemma_open(s, n);
lemma_other(s0, s, tree(s0, nr), dst.arr);
@exit
assert(s.arr_V[dst.arr] =~= splice(s0.arr_V[dst.arr], dst.off, val(s0, n)));
assert(s.arr_V =~= s0.arr_V.insert(dst.arr, splice(s0.arr_V[dst.arr], dst.off, val(s0, n))));

@func Node.copySlice (n, dst, start, end)
@requires ok(s0, n)
@requires slwf(s0.arr_V, dst)
@requires dst.arr != 0
@requires !uses(tree(s0, n), dst.arr)
@requires start < end ==> 0 <= start && end <= val(s0, n).len() && dst.len >= end - start
@ensures start < end ==> s.arr_V == s0.arr_V.insert(dst.arr, splice(s0.arr_V[dst.arr], dst.off, val(s0, n).subrange(start, end)))
@ensures start >= end ==> s.arr_V == s0.arr_V
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
let nl = s0.Node[n].left; let nr = s0.Node[n].right;
if s0.Node[n].kind == 1 && start < end { lemma_sub(val(s0, nl), val(s0, nr), start, end); }
@after Node.copySlice#1
lemma_other(s0, s, tree(s0, n), dst.arr);
lemma_is(s, n, tree(s0, n));
lemma_open(s, n);
lemma_other(s0, s, tree(s0, nr), dst.arr);
@exit
if start < end {
  assert(s.arr_V[dst.arr] =~= splice(s0.arr_V[dst.arr], dst.off, val(s0, n).subrange(start, end)));
  assert(s.arr_V =~= s0.arr_V.insert(dst.arr, splice(s0.arr_V[dst.arr], dst.off, val(s0, n).subrange(start, end))));
}

@func bound (start, end, length) (a, b)
@requires length >= 0
@ensures a == lo(start, end, length)
@ensures b == hi(start, end, length)

@func insert (q, k, insertion) (r)
@requires slwf(s0.arr_V, q)
@requires slwf(s0.arr_V, insertion)
@requires 0 <= k <= q.len
@ensures slwf(s.arr_V, r)
@ensures sv(s.arr_V, r) == ins(sv(s0.arr_V, q), k, sv(s0.arr_V, insertion))
@ensures agrown(s0.arr_V, s.arr_V)
@exit
assert(sv(s.arr_V, r) =~= ins(sv(s0.arr_V, q), k, sv(s0.arr_V, insertion)));

@func remove (q, start, end) (r)
@requires slwf(s0.arr_V, q)
@requires 0 <= start <= end <= q.len
@ensures slwf(s.arr_V, r)
@ensures sv(s.arr_V, r) == cut(sv(s0.arr_V, q), start, end)
@ensures agrown(s0.arr_V, s.arr_V)
@exit
assert(sv(s.arr_V, r) =~= cut(sv(s0.arr_V, q), start, end));

