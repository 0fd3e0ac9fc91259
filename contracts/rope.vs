@state V
@counter length
@prelude
// ---- a rope as a value: the tree of nodes reachable from a pointer. A rope owns its nodes and, for every leaf, the
// cells of the leaf's slice up to its capacity.
pub enum T { L { a: int, v: Slice }, N { a: int, l: Box<T>, r: Box<T> } }
pub open spec fn root(t: T) -> int { match t { T::L { a, .. } => a, T::N { a, .. } => a } }
pub open spec fn mk(a: int, l: T, r: T) -> T { T::N { a, l: Box::new(l), r: Box::new(r) } }
pub open spec fn leaf(t: T) -> bool { match t { T::L { .. } => true, T::N { .. } => false } }
pub open spec fn inn(t: T, x: int) -> bool decreases t { match t { T::L { a, .. } => x == a, T::N { a, l, r } => x == a || inn(*l, x) || inn(*r, x) } }
pub open spec fn cell(v: Slice, x: int, i: int) -> bool { x == v.arr && v.off <= i < v.off + v.cap }
// the cell i of the array x belongs to a leaf of t
pub open spec fn owns(t: T, x: int, i: int) -> bool decreases t { match t { T::L { v, .. } => cell(v, x, i), T::N { l, r, .. } => owns(*l, x, i) || owns(*r, x, i) } }
pub open spec fn sep(t: T, u: T) -> bool { (forall|x: int| !(#[trigger] inn(t, x) && #[trigger] inn(u, x))) && (forall|x: int, i: int| !(#[trigger] owns(t, x, i) && #[trigger] owns(u, x, i))) }
pub open spec fn tl(t: T) -> int decreases t { match t { T::L { v, .. } => v.len, T::N { l, r, .. } => tl(*l) + tl(*r) } }
pub open spec fn ct<V>(m: Map<int, Seq<V>>, t: T) -> Seq<V> decreases t { match t { T::L { v, .. } => sv(m, v), T::N { l, r, .. } => ct(m, *l) + ct(m, *r) } }
pub open spec fn okt<V>(s: S<V>, t: T) -> bool decreases t {
  match t {
    T::L { a, v } => a != 0 && s.Node.dom().contains(a) && s.Node[a].kind == 0 && s.Node[a].value == v && s.Node[a].length == v.len && slwf(s.arr_V, v),
    T::N { a, l, r } => a != 0 && s.Node.dom().contains(a) && s.Node[a].kind == 1 && s.Node[a].left == root(*l) && s.Node[a].right == root(*r) && s.Node[a].length == tl(t)
      && okt(s, *l) && okt(s, *r) && sep(*l, *r) && !inn(*l, a) && !inn(*r, a),
  }
}
pub open spec fn is<V>(s: S<V>, p: int, t: T) -> bool { p == root(t) && okt(s, t) }
pub open spec fn tree<V>(s: S<V>, p: int) -> T { choose|t: T| #[trigger] is(s, p, t) }
pub open spec fn ok<V>(s: S<V>, p: int) -> bool { is(s, p, tree(s, p)) }
// the sequence a rope represents
pub open spec fn val<V>(s: S<V>, p: int) -> Seq<V> { ct(s.arr_V, tree(s, p)) }
pub open spec fn adom<V>(a0: Map<int, Seq<V>>, a: Map<int, Seq<V>>) -> bool { a[0] == a0[0] && forall|x: int| #![trigger a0.dom().contains(x)] #![trigger a[x]] a0.dom().contains(x) ==> a.dom().contains(x) && a[x].len() == a0[x].len() }
pub open spec fn agrown<V>(a0: Map<int, Seq<V>>, a: Map<int, Seq<V>>) -> bool { a[0] == a0[0] && forall|x: int| #![trigger a0.dom().contains(x)] #![trigger a[x]] a0.dom().contains(x) ==> a.dom().contains(x) && a[x] == a0[x] }
// everything that existed is as it was
pub open spec fn grown<V>(s0: S<V>, s: S<V>) -> bool {
  agrown(s0.arr_V, s.arr_V) && forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s.Node[x]] s0.Node.dom().contains(x) ==> s.Node.dom().contains(x) && s.Node[x] == s0.Node[x]
}
// everything that existed and does not belong to t is as it was
pub open spec fn fr<V>(s0: S<V>, s: S<V>, t: T) -> bool {
  adom(s0.arr_V, s.arr_V)
  && (forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s.Node[x]] s0.Node.dom().contains(x) ==> s.Node.dom().contains(x) && (inn(t, x) || s.Node[x] == s0.Node[x]))
  && (forall|x: int, i: int| #![trigger s0.arr_V[x][i]] #![trigger s.arr_V[x][i]] s0.arr_V.dom().contains(x) && 0 <= i < s0.arr_V[x].len() && !owns(t, x, i) ==> s.arr_V[x][i] == s0.arr_V[x][i])
}
// what u owns belonged to t or is new
pub open spec fn from<V>(s0: S<V>, t: T, u: T) -> bool {
  (forall|x: int| #[trigger] inn(u, x) ==> inn(t, x) || !s0.Node.dom().contains(x)) && (forall|x: int, i: int| #[trigger] owns(u, x, i) ==> owns(t, x, i) || !s0.arr_V.dom().contains(x))
}
pub open spec fn sub(u: T, t: T) -> bool { (forall|x: int| #[trigger] inn(u, x) ==> inn(t, x)) && (forall|x: int, i: int| #[trigger] owns(u, x, i) ==> owns(t, x, i)) }
// every rope separate from t keeps its contents, and is separate from u
pub open spec fn other<V>(s0: S<V>, s: S<V>, u: T, q: int) -> bool { ok(s, q) && tree(s, q) == tree(s0, q) && val(s, q) == val(s0, q) && sep(tree(s, q), u) }
pub open spec fn others<V>(s0: S<V>, s: S<V>, t: T, u: T) -> bool { forall|q: int| #[trigger] ok(s0, q) && sep(tree(s0, q), t) ==> other(s0, s, u, q) }

pub proof fn lemma_tree<V>(s: S<V>, t: T)
  requires okt(s, t)
  ensures tl(t) >= 0, ct(s.arr_V, t).len() == tl(t), root(t) != 0, inn(t, root(t)), s.Node.dom().contains(root(t)), s.Node[root(t)].length == tl(t), (s.Node[root(t)].kind == 0) == leaf(t),
    forall|x: int| #[trigger] inn(t, x) ==> s.Node.dom().contains(x) && x != 0,
    forall|x: int, i: int| #[trigger] owns(t, x, i) ==> x != 0 && s.arr_V.dom().contains(x) && 0 <= i < s.arr_V[x].len(),
  decreases t
{ match t { T::L { .. } => {}, T::N { a, l, r } => { lemma_tree(s, *l); lemma_tree(s, *r);
    assert forall|x: int| #[trigger] inn(t, x) implies s.Node.dom().contains(x) && x != 0 by { if inn(*l, x) {} else if inn(*r, x) {} else { assert(x == a); } }
    assert forall|x: int, i: int| #[trigger] owns(t, x, i) implies x != 0 && s.arr_V.dom().contains(x) && 0 <= i < s.arr_V[x].len() by { if owns(*l, x, i) {} else { assert(owns(*r, x, i)); } } } } }
pub proof fn lemma_unique<V>(s: S<V>, t: T, u: T)
  requires okt(s, t), okt(s, u), root(t) == root(u)
  ensures t == u
  decreases t
{ match t { T::L { .. } => { match u { T::L { .. } => {}, T::N { .. } => {} } },
    T::N { l, r, .. } => { match u { T::L { .. } => {}, T::N { l: l2, r: r2, .. } => { lemma_unique(s, *l, *l2); lemma_unique(s, *r, *r2); assert(l == l2 && r == r2); } } } } }
pub proof fn lemma_is<V>(s: S<V>, p: int, t: T)
  requires is(s, p, t)
  ensures ok(s, p), tree(s, p) == t
{ assert(is(s, p, tree(s, p))); lemma_unique(s, t, tree(s, p)); }
// the children of a rope
pub proof fn lemma_open<V>(s: S<V>, p: int)
  requires ok(s, p)
  ensures ({ let t = tree(s, p); let l = s.Node[p].left; let r = s.Node[p].right;
      p != 0 && s.Node.dom().contains(p) && inn(t, p) && s.Node[p].length == val(s, p).len() && (s.Node[p].kind == 0 || s.Node[p].kind == 1)
      && (s.Node[p].kind == 0 ==> t == (T::L { a: p, v: s.Node[p].value }) && val(s, p) == sv(s.arr_V, s.Node[p].value) && slwf(s.arr_V, s.Node[p].value) && s.Node[p].length == s.Node[p].value.len)
      && (s.Node[p].kind == 1 ==> t == mk(p, tree(s, l), tree(s, r)) && ok(s, l) && ok(s, r) && l != 0 && r != 0 && val(s, p) == val(s, l) + val(s, r) && s.Node[p].length == s.Node[l].length + s.Node[r].length
           && s.Node[l].length == val(s, l).len() && s.Node[r].length == val(s, r).len() && !inn(tree(s, l), p) && !inn(tree(s, r), p) && sep(tree(s, l), tree(s, r)) && sub(tree(s, l), t) && sub(tree(s, r), t)) })
{
  let t = tree(s, p); lemma_tree(s, t);
  match t { T::L { .. } => {}, T::N { a, l, r } => { lemma_is(s, root(*l), *l); lemma_is(s, root(*r), *r); lemma_tree(s, *l); lemma_tree(s, *r); } }
}
pub proof fn lemma_keep<V>(s0: S<V>, s: S<V>, t: T)
  requires okt(s0, t), adom(s0.arr_V, s.arr_V), forall|x: int| #[trigger] inn(t, x) ==> s.Node.dom().contains(x) && s.Node[x] == s0.Node[x], forall|x: int, i: int| #[trigger] owns(t, x, i) ==> s.arr_V[x][i] == s0.arr_V[x][i]
  ensures okt(s, t), ct(s.arr_V, t) == ct(s0.arr_V, t)
  decreases t
{ match t { T::L { a, v } => { assert(inn(t, a)); assert(slwf(s.arr_V, v)) by { if v.arr != 0 { assert(s0.arr_V.dom().contains(v.arr)); } }
      assert forall|j: int| v.off <= j < v.off + v.len implies #[trigger] s.arr_V[v.arr][j] == s0.arr_V[v.arr][j] by { assert(owns(t, v.arr, j)); }
      if v.arr != 0 { assert(s0.arr_V.dom().contains(v.arr)); }
      assert(sv(s.arr_V, v) =~= sv(s0.arr_V, v)); },
    T::N { a, l, r } => { assert(inn(t, a));
    assert forall|x: int| #[trigger] inn(*l, x) implies s.Node.dom().contains(x) && s.Node[x] == s0.Node[x] by { assert(inn(t, x)); }
    assert forall|x: int| #[trigger] inn(*r, x) implies s.Node.dom().contains(x) && s.Node[x] == s0.Node[x] by { assert(inn(t, x)); }
    assert forall|x: int, i: int| #[trigger] owns(*l, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by { assert(owns(t, x, i)); }
    assert forall|x: int, i: int| #[trigger] owns(*r, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by { assert(owns(t, x, i)); }
    lemma_keep(s0, s, *l); lemma_keep(s0, s, *r); } } }
// a tree separate from what changed
pub proof fn lemma_apart<V>(s0: S<V>, s: S<V>, t: T, w: T)
  requires fr(s0, s, t), okt(s0, w), sep(w, t)
  ensures okt(s, w), ct(s.arr_V, w) == ct(s0.arr_V, w), ok(s, root(w)), tree(s, root(w)) == w
{
  lemma_tree(s0, w);
  assert forall|x: int| #[trigger] inn(w, x) implies s.Node.dom().contains(x) && s.Node[x] == s0.Node[x] by { assert(!inn(t, x)); }
  assert forall|x: int, i: int| #[trigger] owns(w, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by { assert(!owns(t, x, i)); }
  lemma_keep(s0, s, w); lemma_is(s, root(w), w);
}
pub proof fn lemma_sep<V>(s0: S<V>, t: T, u: T, w: T)
  requires okt(s0, w), sep(w, t), from(s0, t, u)
  ensures sep(w, u), sep(u, w)
{ lemma_tree(s0, w); }
pub proof fn lemma_others<V>(s0: S<V>, s: S<V>, t: T, u: T)
  requires fr(s0, s, t), from(s0, t, u)
  ensures others(s0, s, t, u)
{ assert forall|q: int| #[trigger] ok(s0, q) && sep(tree(s0, q), t) implies other(s0, s, u, q) by { let w = tree(s0, q); lemma_apart(s0, s, t, w); lemma_sep(s0, t, u, w); } }
pub proof fn lemma_slices<V>(a0: Map<int, Seq<V>>, a: Map<int, Seq<V>>)
  requires agrown(a0, a)
  ensures forall|v: Slice| #![trigger sv(a, v)] #![trigger slwf(a0, v)] slwf(a0, v) ==> sv(a, v) == sv(a0, v) && slwf(a, v)
{ assert forall|v: Slice| #![trigger sv(a, v)] #![trigger slwf(a0, v)] slwf(a0, v) implies sv(a, v) == sv(a0, v) && slwf(a, v) by { if v.arr != 0 { assert(a0.dom().contains(v.arr)); } assert(a[v.arr] == a0[v.arr]); } }
pub proof fn lemma_grown<V>(s0: S<V>, s: S<V>, t: T)
  requires grown(s0, s)
  ensures fr(s0, s, t), adom(s0.arr_V, s.arr_V), from(s0, t, t)
{}
pub proof fn lemma_grown_ok<V>(s0: S<V>, s: S<V>)
  requires grown(s0, s)
  ensures forall|q: int| #[trigger] ok(s0, q) ==> ok(s, q) && tree(s, q) == tree(s0, q) && val(s, q) == val(s0, q)
{ assert forall|q: int| #[trigger] ok(s0, q) implies ok(s, q) && tree(s, q) == tree(s0, q) && val(s, q) == val(s0, q) by { let t = tree(s0, q); lemma_tree(s0, t);
    assert forall|x: int, i: int| #[trigger] owns(t, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by { assert(s0.arr_V.dom().contains(x)); }
    lemma_keep(s0, s, t); lemma_is(s, q, t); } }
pub proof fn lemma_wide<V>(s0: S<V>, s: S<V>, u: T, t: T)
  requires fr(s0, s, u), sub(u, t)
  ensures fr(s0, s, t)
{}
// first t became u, then u became w
pub proof fn lemma_then<V>(s0: S<V>, s1: S<V>, s2: S<V>, t: T, u: T, w: T)
  requires fr(s0, s1, t), from(s0, t, u), fr(s1, s2, u), from(s1, u, w)
  ensures fr(s0, s2, t), from(s0, t, w)
{
  assert forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s2.Node[x]] s0.Node.dom().contains(x) implies s2.Node.dom().contains(x) && (inn(t, x) || s2.Node[x] == s0.Node[x]) by { assert(s1.Node.dom().contains(x)); }
  assert forall|x: int| #![trigger s0.arr_V.dom().contains(x)] #![trigger s2.arr_V[x]] s0.arr_V.dom().contains(x) implies s2.arr_V.dom().contains(x) && s2.arr_V[x].len() == s0.arr_V[x].len() by { assert(s1.arr_V.dom().contains(x)); }
  assert forall|x: int, i: int| #![trigger s0.arr_V[x][i]] #![trigger s2.arr_V[x][i]] s0.arr_V.dom().contains(x) && 0 <= i < s0.arr_V[x].len() && !owns(t, x, i) implies s2.arr_V[x][i] == s0.arr_V[x][i] by { assert(s1.arr_V.dom().contains(x) && s1.arr_V[x].len() == s0.arr_V[x].len()); assert(!owns(u, x, i)); assert(s1.arr_V[x][i] == s0.arr_V[x][i]); }
  assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) || !s0.Node.dom().contains(x) by { if s0.Node.dom().contains(x) { assert(s1.Node.dom().contains(x)); } }
  assert forall|x: int, i: int| #[trigger] owns(w, x, i) implies owns(t, x, i) || !s0.arr_V.dom().contains(x) by { if s0.arr_V.dom().contains(x) { assert(s1.arr_V.dom().contains(x)); } }
}
pub proof fn lemma_leaf<V>(s: S<V>, p: int)
  requires p != 0, s.Node.dom().contains(p), s.Node[p].kind == 0, s.Node[p].length == s.Node[p].value.len, slwf(s.arr_V, s.Node[p].value)
  ensures ok(s, p), tree(s, p) == (T::L { a: p, v: s.Node[p].value }), val(s, p) == sv(s.arr_V, s.Node[p].value)
{ lemma_is(s, p, T::L { a: p, v: s.Node[p].value }); }
pub proof fn lemma_node<V>(s: S<V>, p: int, l: T, r: T)
  requires p != 0, s.Node.dom().contains(p), s.Node[p].kind == 1, is(s, s.Node[p].left, l), is(s, s.Node[p].right, r), s.Node[p].length == tl(l) + tl(r), sep(l, r), !inn(l, p), !inn(r, p)
  ensures ok(s, p), tree(s, p) == mk(p, l, r), val(s, p) == ct(s.arr_V, l) + ct(s.arr_V, r)
{ lemma_is(s, p, mk(p, l, r)); }
// the children of n were changed in place, one after the other, and then the node itself
pub proof fn lemma_both<V>(s0: S<V>, s1: S<V>, s2: S<V>, s: S<V>, n: int, l1: T, r2: T)
  requires ok(s0, n), s0.Node[n].kind == 1, is(s1, s0.Node[n].left, l1), fr(s0, s1, tree(s0, s0.Node[n].left)), from(s0, tree(s0, s0.Node[n].left), l1),
    is(s2, s0.Node[n].right, r2), fr(s1, s2, tree(s0, s0.Node[n].right)), from(s1, tree(s0, s0.Node[n].right), r2), s.arr_V == s2.arr_V, s.Node =~= s2.Node.insert(n, s.Node[n]),
    s.Node[n] == (Node { length: tl(l1) + tl(r2), ..s0.Node[n] })
  ensures ok(s, n), tree(s, n) == mk(n, l1, r2), val(s, n) == ct(s1.arr_V, l1) + ct(s2.arr_V, r2), fr(s0, s, tree(s0, n)), from(s0, tree(s0, n), mk(n, l1, r2))
{
  lemma_open(s0, n);
  let t = tree(s0, n); let l = tree(s0, s0.Node[n].left); let r = tree(s0, s0.Node[n].right);
  lemma_tree(s0, l); lemma_tree(s0, r); lemma_tree(s0, t); lemma_tree(s1, l1); lemma_tree(s2, r2);
  lemma_apart(s0, s1, l, r); lemma_sep(s0, l, l1, r);
  lemma_apart(s1, s2, r, l1); lemma_sep(s1, r, r2, l1);
  assert(s1.Node.dom().contains(n) && s2.Node.dom().contains(n));
  assert(!inn(l1, n) && !inn(r2, n));
  assert forall|x: int| #[trigger] inn(l1, x) implies s.Node.dom().contains(x) && s.Node[x] == s2.Node[x] by { lemma_tree(s2, l1); }
  assert forall|x: int| #[trigger] inn(r2, x) implies s.Node.dom().contains(x) && s.Node[x] == s2.Node[x] by { }
  lemma_keep(s2, s, l1); lemma_keep(s2, s, r2);
  lemma_node(s, n, l1, r2);
  let w = mk(n, l1, r2);
  assert forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s.Node[x]] s0.Node.dom().contains(x) implies s.Node.dom().contains(x) && (inn(t, x) || s.Node[x] == s0.Node[x]) by { assert(s1.Node.dom().contains(x)); assert(s2.Node.dom().contains(x)); if !inn(t, x) { assert(!inn(l, x) && !inn(r, x)); } }
  assert forall|x: int| #![trigger s0.arr_V.dom().contains(x)] #![trigger s.arr_V[x]] s0.arr_V.dom().contains(x) implies s.arr_V.dom().contains(x) && s.arr_V[x].len() == s0.arr_V[x].len() by { assert(s1.arr_V.dom().contains(x)); }
  assert forall|x: int, i: int| #![trigger s0.arr_V[x][i]] #![trigger s.arr_V[x][i]] s0.arr_V.dom().contains(x) && 0 <= i < s0.arr_V[x].len() && !owns(t, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by { assert(s1.arr_V.dom().contains(x) && s1.arr_V[x].len() == s0.arr_V[x].len()); assert(!owns(l, x, i) && !owns(r, x, i)); assert(s1.arr_V[x][i] == s0.arr_V[x][i]); }
  assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) || !s0.Node.dom().contains(x) by { if inn(l1, x) { } else if inn(r2, x) { if s0.Node.dom().contains(x) { assert(s1.Node.dom().contains(x)); } } }
  assert forall|x: int, i: int| #[trigger] owns(w, x, i) implies owns(t, x, i) || !s0.arr_V.dom().contains(x) by { if owns(l1, x, i) { } else { assert(owns(r2, x, i)); if s0.arr_V.dom().contains(x) { assert(s1.arr_V.dom().contains(x)); } } }
}
pub open spec fn cut<V>(q: Seq<V>, a: int, b: int) -> Seq<V> { q.take(a) + q.skip(b) }
pub open spec fn ins<V>(q: Seq<V>, k: int, x: Seq<V>) -> Seq<V> { q.take(k) + x + q.skip(k) }
// the cells of v do not belong to t
pub open spec fn free(t: T, v: Slice) -> bool { forall|i: int| v.off <= i < v.off + v.len ==> !#[trigger] owns(t, v.arr, i) }
// the cells of v belong to t or are new
pub open spec fn vfrom<V>(s0: S<V>, t: T, v: Slice) -> bool { forall|i: int| v.off <= i < v.off + v.cap ==> #[trigger] owns(t, v.arr, i) || !s0.arr_V.dom().contains(v.arr) }
// only cells of q were written; r lies in them or is new
pub open spec fn wrote<V>(a0: Map<int, Seq<V>>, a: Map<int, Seq<V>>, q: Slice, r: Slice) -> bool {
  adom(a0, a) && (forall|x: int, i: int| #![trigger a0[x][i]] #![trigger a[x][i]] a0.dom().contains(x) && 0 <= i < a0[x].len() && !cell(q, x, i) ==> a[x][i] == a0[x][i])
  && (forall|i: int| r.off <= i < r.off + r.cap ==> #[trigger] cell(q, r.arr, i) || !a0.dom().contains(r.arr))
}
// the slice of the leaf n was edited in place or replaced
pub proof fn lemma_edited<V>(s0: S<V>, s: S<V>, n: int)
  requires ok(s0, n), s0.Node[n].kind == 0, wrote(s0.arr_V, s.arr_V, s0.Node[n].value, s.Node[n].value), s.Node =~= s0.Node.insert(n, s.Node[n]), s.Node[n].kind == 0, slwf(s.arr_V, s.Node[n].value), s.Node[n].length == s.Node[n].value.len
  ensures ok(s, n), val(s, n) == sv(s.arr_V, s.Node[n].value), fr(s0, s, tree(s0, n)), from(s0, tree(s0, n), tree(s, n))
{
  lemma_open(s0, n); lemma_leaf(s, n);
  let v = s.Node[n].value; let w = tree(s, n); let v0 = s0.Node[n].value; let t = tree(s0, n);
  assert forall|x: int, i: int| #[trigger] owns(w, x, i) implies owns(t, x, i) || !s0.arr_V.dom().contains(x) by { assert(cell(v, x, i)); assert(cell(v0, x, i) || !s0.arr_V.dom().contains(x)); }
  assert forall|x: int, i: int| #![trigger s0.arr_V[x][i]] #![trigger s.arr_V[x][i]] s0.arr_V.dom().contains(x) && 0 <= i < s0.arr_V[x].len() && !owns(t, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by { assert(!cell(v0, x, i)); }
}
// ---- the thresholds: no leaf is longer than a, and fewer than b elements make one leaf
pub open spec fn fits(t: T, a: int, b: int) -> bool decreases t { match t { T::L { v, .. } => v.len <= a, T::N { l, r, .. } => tl(t) >= b && fits(*l, a, b) && fits(*r, a, b) } }
pub open spec fn fit(t: T) -> bool { fits(t, rope::g_SplitLength(), rope::g_JoinLength()) }
pub open spec fn thr() -> bool { rope::g_JoinLength() <= rope::g_SplitLength() + 1 }
// the parts of t fit (t itself has yet to be adjusted)
pub open spec fn kids(t: T) -> bool { match t { T::L { .. } => true, T::N { l, r, .. } => fit(*l) && fit(*r) } }
// every leaf holds at least half of what it may
pub open spec fn half(t: T, a: int) -> bool decreases t { match t { T::L { v, .. } => 2 * v.len >= a, T::N { l, r, .. } => half(*l, a) && half(*r, a) } }
pub open spec fn even(t: T) -> bool { if tl(t) <= rope::g_SplitLength() { leaf(t) } else { half(t, rope::g_SplitLength()) } }
pub proof fn lemma_even(t: T)
  requires even(t), 2 * tl(t) >= rope::g_SplitLength()
  ensures half(t, rope::g_SplitLength())
{}
pub open spec fn all_fit<V>(s: S<V>, q: Seq<int>) -> bool { forall|i: int| 0 <= i < q.len() ==> fit(tree(s, #[trigger] q[i])) }
pub open spec fn short<V>(s: S<V>, x: int) -> bool { s.Node[x].length <= rope::g_SplitLength() }
pub proof fn lemma_fit<V>(s: S<V>, t: T)
  requires okt(s, t), fit(t)
  ensures forall|i: int| 0 <= i < leaves(t).len() ==> short(s, #[trigger] leaves(t)[i])
  decreases t
{ match t { T::L { .. } => {}, T::N { l, r, .. } => { lemma_fit(s, *l); lemma_fit(s, *r); let q = leaves(t); let n = leaves(*l).len();
    assert forall|i: int| 0 <= i < q.len() implies short(s, #[trigger] q[i]) by { if i < n { assert(q[i] == leaves(*l)[i]); } else { assert(q[i] == leaves(*r)[i - n]); } } } } }
pub open spec fn clip(v: Slice) -> Slice { Slice { cap: v.len, ..v } }
pub open spec fn leaves(t: T) -> Seq<int> decreases t { match t { T::L { a, .. } => seq![a], T::N { l, r, .. } => leaves(*l) + leaves(*r) } }
pub open spec fn catv<V>(s: S<V>, q: Seq<int>) -> Seq<V> decreases q.len() { if q.len() == 0 { Seq::empty() } else { catv(s, q.drop_last()) + val(s, q.last()) } }
pub proof fn lemma_catv_add<V>(s: S<V>, p: Seq<int>, q: Seq<int>)
  ensures catv(s, p + q) == catv(s, p) + catv(s, q)
  decreases q.len()
{ if q.len() == 0 { assert(p + q =~= p); assert(catv(s, q) =~= Seq::<V>::empty()); assert(catv(s, p) + catv(s, q) =~= catv(s, p)); } else { lemma_catv_add(s, p, q.drop_last()); assert((p + q).drop_last() =~= p + q.drop_last()); assert((p + q).last() == q.last()); assert(catv(s, p + q) =~= catv(s, p) + catv(s, q)); } }
// the leaves in order are leaf ropes whose contents make up the contents of the rope
pub proof fn lemma_leaves<V>(s: S<V>, t: T)
  requires okt(s, t)
  ensures catv(s, leaves(t)) == ct(s.arr_V, t), forall|i: int| 0 <= i < leaves(t).len() ==> ok(s, #[trigger] leaves(t)[i]) && s.Node[leaves(t)[i]].kind == 0
  decreases t
{ match t { T::L { a, v } => { lemma_is(s, a, t); let q = leaves(t); assert(q.last() == a); assert(q.drop_last().len() == 0); assert(catv(s, q.drop_last()) == Seq::<V>::empty()); assert(catv(s, q) =~= ct(s.arr_V, t)); },
    T::N { l, r, .. } => { lemma_leaves(s, *l); lemma_leaves(s, *r); lemma_catv_add(s, leaves(*l), leaves(*r)); let q = leaves(t);
      assert forall|i: int| 0 <= i < q.len() implies ok(s, #[trigger] q[i]) && s.Node[q[i]].kind == 0 by { let n = leaves(*l).len(); if i < n { assert(q[i] == leaves(*l)[i]); } else { assert(q[i] == leaves(*r)[i - n]); } } } } }
// the trees of several ropes taken together
pub open spec fn bag<V>(s: S<V>, q: Seq<int>) -> T decreases q.len() { if q.len() == 0 { T::L { a: 0, v: nil_slice() } } else { mk(0, bag(s, q.drop_last()), tree(s, q.last())) } }
pub proof fn lemma_vfrom<V>(s0: S<V>, u: T, t: T)
  requires sub(u, t)
  ensures forall|v: Slice| #[trigger] vfrom(s0, u, v) ==> vfrom(s0, t, v)
{ assert forall|v: Slice| #[trigger] vfrom(s0, u, v) implies vfrom(s0, t, v) by { assert forall|i: int| v.off <= i < v.off + v.cap implies #[trigger] owns(t, v.arr, i) || !s0.arr_V.dom().contains(v.arr) by { if owns(u, v.arr, i) {} } } }
pub open spec fn all_ok<V>(s: S<V>, q: Seq<int>) -> bool { forall|i: int| 0 <= i < q.len() ==> ok(s, #[trigger] q[i]) }
pub open spec fn all_sep<V>(s: S<V>, q: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j ==> sep(tree(s, #[trigger] q[i]), tree(s, #[trigger] q[j])) }
pub proof fn lemma_bag<V>(s: S<V>, q: Seq<int>, w: T)
  requires forall|i: int| 0 <= i < q.len() ==> sep(w, tree(s, #[trigger] q[i])), okt(s, w)
  ensures sep(w, bag(s, q)), sep(bag(s, q), w)
  decreases q.len()
{
  lemma_tree(s, w);
  if q.len() > 0 {
    let p = q.drop_last();
    assert forall|i: int| 0 <= i < p.len() implies sep(w, tree(s, #[trigger] p[i])) by { assert(p[i] == q[i]); }
    lemma_bag(s, p, w);
    assert(q[q.len() - 1] == q.last());
    assert forall|x: int| !(#[trigger] inn(w, x) && #[trigger] inn(bag(s, q), x)) by { if inn(w, x) && inn(bag(s, q), x) { if inn(bag(s, p), x) {} else if inn(tree(s, q.last()), x) {} else { assert(x == 0); } } }
    assert forall|x: int, i: int| !(#[trigger] owns(w, x, i) && #[trigger] owns(bag(s, q), x, i)) by { if owns(w, x, i) && owns(bag(s, q), x, i) { if owns(bag(s, p), x, i) {} else { assert(owns(tree(s, q.last()), x, i)); } } }
  }
}

// the leaf n was split in two halves
pub proof fn lemma_halves<V>(s0: S<V>, s1: S<V>, sp: S<V>, s2: S<V>, s: S<V>, n: int, d: int)
  requires ok(s0, n), s0.Node[n].kind == 0, 0 <= d <= s0.Node[n].value.len, ({ let v = s0.Node[n].value; let l = s.Node[n].left; let r = s.Node[n].right;
      let v1 = Slice { len: d, cap: d, ..v }; let v2 = Slice { arr: v.arr, off: v.off + d, len: v.len - d, cap: v.len - d };
      ok(s1, l) && fr(s0, s1, T::L { a: l, v: v1 }) && !s0.Node.dom().contains(l) && from(s0, T::L { a: l, v: v1 }, tree(s1, l)) && val(s1, l) == sv(s0.arr_V, v1)
      && sp.arr_V == s1.arr_V && sp.Node =~= s1.Node.insert(n, sp.Node[n])
      && ok(s2, r) && fr(sp, s2, T::L { a: r, v: v2 }) && !sp.Node.dom().contains(r) && from(sp, T::L { a: r, v: v2 }, tree(s2, r)) && val(s2, r) == sv(sp.arr_V, v2)
      && s.arr_V == s2.arr_V && s.Node =~= s2.Node.insert(n, s.Node[n]) && s.Node[n].kind == 1 && s.Node[n].length == v.len })
  ensures ok(s, n), val(s, n) == val(s0, n), fr(s0, s, tree(s0, n)), from(s0, tree(s0, n), tree(s, n)), tree(s, n) == mk(n, tree(s1, s.Node[n].left), tree(s2, s.Node[n].right))
{
  lemma_open(s0, n);
  let v = s0.Node[n].value; let l = s.Node[n].left; let r = s.Node[n].right; let v1 = Slice { len: d, cap: d, ..v }; let v2 = Slice { arr: v.arr, off: v.off + d, len: v.len - d, cap: v.len - d };
  let g = tree(s0, n); let lt = tree(s1, l); let rtr = tree(s2, r); let g1 = T::L { a: l, v: v1 }; let g2 = T::L { a: r, v: v2 };
  lemma_tree(s1, lt); lemma_tree(s2, rtr); lemma_tree(s0, g);
  assert(s1.Node.dom().contains(n) && !inn(lt, n));
  assert forall|x: int, i: int| #[trigger] owns(lt, x, i) implies s1.arr_V.dom().contains(x) && (cell(v1, x, i) || !s0.arr_V.dom().contains(x)) by { assert(owns(g1, x, i) == cell(v1, x, i)); }
  assert forall|x: int, i: int| #[trigger] owns(rtr, x, i) implies (cell(v2, x, i) || !s1.arr_V.dom().contains(x)) by { assert(owns(g2, x, i) == cell(v2, x, i)); }
  // the left half survives the building of the right half
  assert forall|x: int| #[trigger] inn(lt, x) implies s.Node.dom().contains(x) && s.Node[x] == s1.Node[x] && x != n && !inn(rtr, x) by { assert(s1.Node.dom().contains(x)); assert(sp.Node.dom().contains(x)); assert(x != n); assert(!inn(g2, x)); assert(!inn(rtr, x)); assert(s2.Node[x] == sp.Node[x]); }
  assert forall|x: int, i: int| #[trigger] owns(lt, x, i) implies s.arr_V[x][i] == s1.arr_V[x][i] && !owns(rtr, x, i) by {
    if cell(v2, x, i) { assert(s0.arr_V.dom().contains(v.arr)); assert(false); }
    assert(!owns(g2, x, i)); assert(sp.arr_V.dom().contains(x) && 0 <= i < sp.arr_V[x].len()); assert(s2.arr_V[x][i] == sp.arr_V[x][i]); }
  lemma_keep(s1, s, lt);
  assert(sp.Node.dom().contains(n)); assert(!inn(g2, n)); assert(!inn(rtr, n));
  assert forall|x: int| #[trigger] inn(rtr, x) implies s.Node.dom().contains(x) && s.Node[x] == s2.Node[x] by {}
  lemma_keep(s2, s, rtr);
  lemma_node(s, n, lt, rtr);
  assert(sv(sp.arr_V, v2) =~= sv(s0.arr_V, v2)) by { if v2.len > 0 { assert(v.arr != 0 && s0.arr_V.dom().contains(v.arr)); assert forall|i: int| 0 <= i < v2.len implies #[trigger] s1.arr_V[v.arr][v2.off + i] == s0.arr_V[v.arr][v2.off + i] by { assert(!owns(g1, v.arr, v2.off + i)); } assert(s1.arr_V[v.arr].len() == s0.arr_V[v.arr].len()); } }
  assert(val(s, n) =~= val(s0, n));
  let w = tree(s, n);
  assert forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s.Node[x]] s0.Node.dom().contains(x) implies s.Node.dom().contains(x) && (inn(g, x) || s.Node[x] == s0.Node[x]) by { assert(s1.Node.dom().contains(x)); assert(sp.Node.dom().contains(x)); assert(x != l && x != r); }
  assert forall|x: int| #![trigger s0.arr_V.dom().contains(x)] #![trigger s.arr_V[x]] s0.arr_V.dom().contains(x) implies s.arr_V.dom().contains(x) && s.arr_V[x].len() == s0.arr_V[x].len() by { assert(s1.arr_V.dom().contains(x)); }
  assert forall|x: int, i: int| #![trigger s0.arr_V[x][i]] #![trigger s.arr_V[x][i]] s0.arr_V.dom().contains(x) && 0 <= i < s0.arr_V[x].len() && !owns(g, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by {
    assert(s1.arr_V.dom().contains(x) && s1.arr_V[x].len() == s0.arr_V[x].len()); assert(!cell(v, x, i)); assert(!owns(g1, x, i) && !owns(g2, x, i)); assert(s1.arr_V[x][i] == s0.arr_V[x][i]); }
  assert forall|x: int| #[trigger] inn(w, x) implies inn(g, x) || !s0.Node.dom().contains(x) by { if inn(lt, x) { assert(inn(g1, x) || !s0.Node.dom().contains(x)); } else if inn(rtr, x) { assert(inn(g2, x) || !sp.Node.dom().contains(x)); if s0.Node.dom().contains(x) { assert(s1.Node.dom().contains(x)); } } }
  assert forall|x: int, i: int| #[trigger] owns(w, x, i) implies owns(g, x, i) || !s0.arr_V.dom().contains(x) by { if owns(lt, x, i) { } else { assert(owns(rtr, x, i)); if s0.arr_V.dom().contains(x) { assert(s1.arr_V.dom().contains(x)); } } }
}
// the node n became a leaf with the slice v, made in state s1 from what n owned
pub proof fn lemma_leafed<V>(s0: S<V>, s1: S<V>, s: S<V>, n: int)
  requires ok(s0, n), grown(s0, s1), s.arr_V == s1.arr_V, s.Node =~= s1.Node.insert(n, s.Node[n]), s.Node[n].kind == 0, slwf(s1.arr_V, s.Node[n].value), s.Node[n].length == s.Node[n].value.len,
    sv(s1.arr_V, s.Node[n].value) == val(s0, n), vfrom(s0, tree(s0, n), s.Node[n].value)
  ensures ok(s, n), val(s, n) == val(s0, n), fr(s0, s, tree(s0, n)), from(s0, tree(s0, n), tree(s, n))
{
  lemma_open(s0, n); lemma_leaf(s, n);
  let v = s.Node[n].value; let w = tree(s, n);
  assert forall|x: int, i: int| #[trigger] owns(w, x, i) implies owns(tree(s0, n), x, i) || !s0.arr_V.dom().contains(x) by { assert(cell(v, x, i)); }
}

// every tree from u is separate from w
pub proof fn lemma_sep2<V>(s0: S<V>, s1: S<V>, t: T, w: T)
  requires okt(s0, w), sep(w, t)
  ensures forall|u: T| #[trigger] from(s0, t, u) ==> sep(w, u) && sep(u, w)
{ assert forall|u: T| #[trigger] from(s0, t, u) implies sep(w, u) && sep(u, w) by { lemma_sep(s0, t, u, w); } }
pub proof fn lemma_first<V>(s0: S<V>, s: S<V>, n: int, q: Seq<int>, a: int, b: int)
  requires q.len() >= 2, q[0] == a, q[1] == b, !s0.Node.dom().contains(n), fr(s0, s, mk(n, tree(s0, a), tree(s0, b))), from(s0, mk(n, tree(s0, a), tree(s0, b)), tree(s, n)), val(s, n) == val(s0, a) + val(s0, b)
  ensures fr(s0, s, bag(s0, q.take(2))), from(s0, bag(s0, q.take(2)), tree(s, n)), val(s, n) == catv(s0, q.take(2))
{
  let p = q.take(2); let p1 = p.drop_last(); let p0 = p1.drop_last();
  assert(p.last() == b && p1.last() == a && p0.len() == 0);
  assert(catv(s0, p0) == Seq::<V>::empty()); assert(catv(s0, p1) =~= val(s0, a)); assert(catv(s0, p) =~= val(s, n));
  let e = bag(s0, p0);
  assert(bag(s0, p1) == mk(0, e, tree(s0, a))); assert(bag(s0, p) == mk(0, bag(s0, p1), tree(s0, b)));
  assert(sub(tree(s0, a), bag(s0, p1)));
  assert(sub(tree(s0, a), bag(s0, p))); assert(sub(tree(s0, b), bag(s0, p)));
  let m = mk(n, tree(s0, a), tree(s0, b));
  assert forall|x: int| #[trigger] inn(m, x) implies x == n || inn(bag(s0, p), x) by { if x != n { assert(inn(tree(s0, a), x) || inn(tree(s0, b), x)); } }
  assert forall|x: int, i: int| #[trigger] owns(m, x, i) implies owns(bag(s0, p), x, i) by { assert(owns(tree(s0, a), x, i) || owns(tree(s0, b), x, i)); }
}
// a leaf was split in two ropes
pub proof fn lemma_pair<V>(s0: S<V>, s1: S<V>, s: S<V>, n: int, d: int, l: int, r: int)
  requires ok(s0, n), s0.Node[n].kind == 0, 0 <= d <= s0.Node[n].value.len, ({ let v = s0.Node[n].value;
      let v1 = Slice { len: d, cap: d, ..v }; let v2 = Slice { arr: v.arr, off: v.off + d, len: v.len - d, cap: v.len - d };
      ok(s1, l) && fr(s0, s1, T::L { a: l, v: v1 }) && !s0.Node.dom().contains(l) && from(s0, T::L { a: l, v: v1 }, tree(s1, l)) && val(s1, l) == sv(s0.arr_V, v1)
      && ok(s, r) && fr(s1, s, T::L { a: r, v: v2 }) && !s1.Node.dom().contains(r) && from(s1, T::L { a: r, v: v2 }, tree(s, r)) && val(s, r) == sv(s1.arr_V, v2) })
  ensures ok(s, l), tree(s, l) == tree(s1, l), val(s, l) == val(s0, n).take(d), val(s, r) == val(s0, n).skip(d), sep(tree(s, l), tree(s, r)), fr(s0, s, tree(s0, n)), from(s0, tree(s0, n), tree(s, l)), from(s0, tree(s0, n), tree(s, r))
{
  lemma_open(s0, n);
  let v = s0.Node[n].value; let v1 = Slice { len: d, cap: d, ..v }; let v2 = Slice { arr: v.arr, off: v.off + d, len: v.len - d, cap: v.len - d };
  let g = tree(s0, n); let lt = tree(s1, l); let rtr = tree(s, r); let g1 = T::L { a: l, v: v1 }; let g2 = T::L { a: r, v: v2 };
  lemma_tree(s1, lt); lemma_tree(s, rtr); lemma_tree(s0, g);
  assert forall|x: int, i: int| #[trigger] owns(lt, x, i) implies !owns(g2, x, i) by { assert(owns(g1, x, i) == cell(v1, x, i)); if cell(v2, x, i) { assert(s0.arr_V.dom().contains(v.arr)); } }
  assert(sep(lt, g2));
  lemma_apart(s1, s, g2, lt); lemma_sep(s1, g2, rtr, lt);
  assert(sv(s1.arr_V, v2) =~= sv(s0.arr_V, v2)) by { if v2.len > 0 { assert(v.arr != 0 && s0.arr_V.dom().contains(v.arr)); assert forall|j: int| v2.off <= j < v2.off + v2.len implies #[trigger] s1.arr_V[v.arr][j] == s0.arr_V[v.arr][j] by { assert(!owns(g1, v.arr, j)); } assert(s1.arr_V[v.arr].len() == s0.arr_V[v.arr].len()); } }
  assert(sv(s0.arr_V, v2) =~= val(s0, n).skip(d)); assert(sv(s0.arr_V, v1) =~= val(s0, n).take(d));
  assert forall|x: int| #![trigger s0.Node.dom().contains(x)] #![trigger s.Node[x]] s0.Node.dom().contains(x) implies s.Node.dom().contains(x) && (inn(g, x) || s.Node[x] == s0.Node[x]) by { assert(s1.Node.dom().contains(x)); assert(x != l && x != r); }
  assert forall|x: int| #![trigger s0.arr_V.dom().contains(x)] #![trigger s.arr_V[x]] s0.arr_V.dom().contains(x) implies s.arr_V.dom().contains(x) && s.arr_V[x].len() == s0.arr_V[x].len() by { assert(s1.arr_V.dom().contains(x)); }
  assert forall|x: int, i: int| #![trigger s0.arr_V[x][i]] #![trigger s.arr_V[x][i]] s0.arr_V.dom().contains(x) && 0 <= i < s0.arr_V[x].len() && !owns(g, x, i) implies s.arr_V[x][i] == s0.arr_V[x][i] by {
    assert(s1.arr_V.dom().contains(x) && s1.arr_V[x].len() == s0.arr_V[x].len()); assert(!cell(v, x, i)); assert(!owns(g1, x, i) && !owns(g2, x, i)); assert(s1.arr_V[x][i] == s0.arr_V[x][i]); }
  assert forall|x: int| #[trigger] inn(lt, x) implies inn(g, x) || !s0.Node.dom().contains(x) by { assert(inn(g1, x) || !s0.Node.dom().contains(x)); }
  assert forall|x: int, i: int| #[trigger] owns(lt, x, i) implies owns(g, x, i) || !s0.arr_V.dom().contains(x) by { assert(owns(g1, x, i) == cell(v1, x, i)); }
  assert forall|x: int| #[trigger] inn(rtr, x) implies inn(g, x) || !s0.Node.dom().contains(x) by { assert(inn(g2, x) || !s1.Node.dom().contains(x)); if s0.Node.dom().contains(x) { assert(s1.Node.dom().contains(x)); } }
  assert forall|x: int, i: int| #[trigger] owns(rtr, x, i) implies owns(g, x, i) || !s0.arr_V.dom().contains(x) by { assert(owns(g2, x, i) == cell(v2, x, i)); if s0.arr_V.dom().contains(x) { assert(s1.arr_V.dom().contains(x)); } }
}
// the child a of n was split in k and p, and p joined with the other child o gave j
pub proof fn lemma_rejoin<V>(s0: S<V>, s1: S<V>, s: S<V>, n: int, a: int, o: int, k: int, j: int, to: T)
  requires ok(s0, n), s0.Node[n].kind == 1, (a == s0.Node[n].left && o == s0.Node[n].right) || (a == s0.Node[n].right && o == s0.Node[n].left), to == tree(s0, o),
    ok(s1, k), fr(s0, s1, tree(s0, a)), from(s0, tree(s0, a), tree(s1, k)), !s1.Node.dom().contains(j), ok(s, j),
    exists|p: int| #[trigger] ok(s1, p) && sep(tree(s1, k), tree(s1, p)) && from(s0, tree(s0, a), tree(s1, p)) && (joined(s1, s, j, tree(s1, p), to) || joined(s1, s, j, to, tree(s1, p)))
  ensures ok(s, k), val(s, k) == val(s1, k), tree(s, k) == tree(s1, k), sep(tree(s, k), tree(s, j)), sep(tree(s, j), tree(s, k)), fr(s0, s, tree(s0, n)), from(s0, tree(s0, n), tree(s, k)), from(s0, tree(s0, n), tree(s, j))
{
  let p = choose|p: int| #[trigger] ok(s1, p) && sep(tree(s1, k), tree(s1, p)) && from(s0, tree(s0, a), tree(s1, p)) && (joined(s1, s, j, tree(s1, p), to) || joined(s1, s, j, to, tree(s1, p)));
  lemma_open(s0, n);
  let t = tree(s0, n); let ta = tree(s0, a); let tk = tree(s1, k); let tp = tree(s1, p);
  lemma_apart(s0, s1, ta, to); lemma_sep(s0, ta, tk, to);
  let u = if joined(s1, s, j, tp, to) { mk(j, tp, to) } else { mk(j, to, tp) };
  lemma_tree(s1, tk);
  assert forall|x: int| !(#[trigger] inn(tk, x) && #[trigger] inn(u, x)) by { if inn(tk, x) && inn(u, x) { if x != j { assert(inn(tp, x) || inn(to, x)); } } }
  assert forall|x: int, i: int| !(#[trigger] owns(tk, x, i) && #[trigger] owns(u, x, i)) by { if owns(tk, x, i) && owns(u, x, i) { assert(owns(tp, x, i) || owns(to, x, i)); } }
  assert(sep(tk, u));
  lemma_apart(s1, s, u, tk); lemma_sep(s1, u, tree(s, j), tk);
  assert(from(s0, t, u)) by { assert forall|x: int| #[trigger] inn(u, x) implies inn(t, x) || !s0.Node.dom().contains(x) by { if x == j { if s0.Node.dom().contains(x) { assert(s1.Node.dom().contains(x)); } } else if inn(tp, x) {} else { assert(inn(to, x)); } }
    assert forall|x: int, i: int| #[trigger] owns(u, x, i) implies owns(t, x, i) || !s0.arr_V.dom().contains(x) by { if owns(tp, x, i) {} else { assert(owns(to, x, i)); } } }
  lemma_wide(s0, s1, ta, t);
  lemma_then(s0, s1, s, t, u, tree(s, j));
}
pub open spec fn joined<V>(s1: S<V>, s: S<V>, j: int, x: T, y: T) -> bool { fr(s1, s, mk(j, x, y)) && from(s1, mk(j, x, y), tree(s, j)) }

@func New (b) (r)
@requires rope::g_SplitLength() >= 1
@requires slwf(s0.arr_V, b)
@ensures ok(s, r)
@ensures !s0.Node.dom().contains(r)
@ensures val(s, r) == sv(s0.arr_V, b)
@ensures fr(s0, s, T::L { a: r, v: clip(b) })
@ensures from(s0, T::L { a: r, v: clip(b) }, tree(s, r))
@ensures[R02] thr() ==> fit(tree(s, r))
@ensures[R02] even(tree(s, r))
@decreases b.len, 1int
@entry
let mut s1 = s0;
@before Node.adjust
s1 = s;
lemma_leaf(s, v_n);
@exit
let g = T::L { a: v_n, v: clip(b) };
lemma_then(s0, s1, s, g, g, tree(s, v_n));

@func Node.Len (n) (r)
@requires ok(s0, n)
@ensures r == val(s0, n).len()
@entry
lemma_open(s, v_n);

@func Node.adjust (n)
@requires rope::g_SplitLength() >= 1
@requires ok(s0, n)
@ensures ok(s, n)
@ensures val(s, n) == val(s0, n)
@ensures fr(s0, s, tree(s0, n))
@ensures from(s0, tree(s0, n), tree(s, n))
@ensures[R02] thr() && kids(tree(s0, n)) ==> fit(tree(s, n))
@ensures[R02] leaf(tree(s0, n)) ==> even(tree(s, n))
@decreases val(s0, n).len(), 0int
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
let mut s1 = s0; let mut sp = s0; let mut s2 = s0;
@after New#1
s1 = s;
@before New#2
sp = s;
assert(s1.arr_V[s0.Node[n].value.arr].len() == s0.arr_V[s0.Node[n].value.arr].len());
@after New#2
s2 = s;
@after Node.Value
s1 = s;
assert(s1.Node[n] == s0.Node[n]);
@exit
if s0.Node[n].kind == 0 && s.Node[n].kind == 1 {
  let l = s.Node[n].left; let r = s.Node[n].right; lemma_open(s1, l); let d = s1.Node[l].length; let v = s0.Node[n].value; let v1 = Slice { len: d, cap: d, ..v }; let v2 = Slice { arr: v.arr, off: v.off + d, len: v.len - d, cap: v.len - d };
  assert(ok(s1, l)); assert(fr(s0, s1, T::L { a: l, v: v1 })); assert(val(s1, l) == sv(s0.arr_V, v1)); 
  assert(ok(s2, r)); assert(fr(sp, s2, T::L { a: r, v: v2 })); assert(val(s2, r) == sv(sp.arr_V, v2)); 
  assert(sp.arr_V == s1.arr_V && sp.Node =~= s1.Node.insert(n, sp.Node[n]));
  assert(s.arr_V == s2.arr_V && s.Node =~= s2.Node.insert(n, s.Node[n]));
  lemma_open(s1, l); lemma_open(s2, r); lemma_open(s0, n); assert(sp.Node.dom().contains(l)); assert(s2.Node[l] == s1.Node[l]);
  assert(s.Node[n].length == v.len);
  lemma_halves(s0, s1, sp, s2, s, n, d);
  lemma_tree(s1, tree(s1, l)); lemma_tree(s2, tree(s2, r)); 
  let h = rope::g_SplitLength(); if 2 * tl(tree(s1, l)) >= h && even(tree(s1, l)) { lemma_even(tree(s1, l)); } if 2 * tl(tree(s2, r)) >= h && even(tree(s2, r)) { lemma_even(tree(s2, r)); }
} else if s0.Node[n].kind == 1 && s.Node[n].kind == 0 {
  lemma_leafed(s0, s1, s, n);
} else { lemma_grown(s0, s, tree(s0, n)); lemma_grown_ok(s0, s); assert(tree(s, n) == tree(s0, n)); }

@func Node.Value (n) (r)
@requires ok(s0, n)
@ensures sv(s.arr_V, r) == val(s0, n)
@ensures slwf(s.arr_V, r)
@ensures vfrom(s0, tree(s0, n), r)
@ensures grown(s0, s)
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_grown_ok(s0, s0);
let mut s1 = s0; let mut s2 = s0;
@after Node.Value#1
s1 = s;
lemma_grown_ok(s0, s1);
@after Node.Value#2
s2 = s;
lemma_grown_ok(s1, s2);
lemma_slices(s1.arr_V, s2.arr_V);
@exit
assert(s0.Node[n].kind == 1 ==> grown(s0, s));

@func Node.Insert (n, pos, value)
@requires rope::g_SplitLength() >= 1
@requires ok(s0, n)
@requires 0 <= pos <= val(s0, n).len()
@requires slwf(s0.arr_V, value)
@ensures ok(s, n)
@ensures val(s, n) == ins(val(s0, n), pos, sv(s0.arr_V, value))
@ensures fr(s0, s, tree(s0, n))
@ensures from(s0, tree(s0, n), tree(s, n))
@ensures others(s0, s, tree(s0, n), tree(s, n))
@ensures[R02] thr() && fit(tree(s0, n)) ==> fit(tree(s, n))
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
let l = s0.Node[n].left; let r = s0.Node[n].right;
if s0.Node[n].kind == 1 { lemma_tree(s0, tree(s0, l)); lemma_tree(s0, tree(s0, r)); }
let mut s1 = s0; let mut adj = false; let mut s2 = s0;
@after Node.Insert
s1 = s;
@before Node.adjust
adj = true;
s2 = s;
if s0.Node[n].kind == 1 {
  lemma_grown(s0, s0, tree(s0, l)); lemma_grown(s1, s1, tree(s0, r));
  assert(s1.Node.dom().contains(n));
  if pos < s0.Node[l].length {
    lemma_apart(s0, s1, tree(s0, l), tree(s0, r)); lemma_sep(s0, tree(s0, l), tree(s1, l), tree(s0, r)); lemma_open(s1, r); lemma_open(s1, l); lemma_tree(s1, tree(s1, l)); 
    lemma_both(s0, s1, s1, s, n, tree(s1, l), tree(s0, r));
  } else {
    lemma_apart(s0, s1, tree(s0, r), tree(s0, l)); lemma_sep(s0, tree(s0, r), tree(s1, r), tree(s0, l)); lemma_open(s1, r); lemma_open(s1, l); lemma_tree(s1, tree(s1, r)); 
    lemma_both(s0, s0, s1, s, n, tree(s0, l), tree(s1, r));
  }
  assert(val(s, n) =~= ins(val(s0, n), pos, sv(s0.arr_V, value)));
} else {
  lemma_edited(s0, s, n);
}
@exit
if !adj {
s2 = s;
if s0.Node[n].kind == 1 {
  lemma_grown(s0, s0, tree(s0, l)); lemma_grown(s1, s1, tree(s0, r));
  assert(s1.Node.dom().contains(n));
  if pos < s0.Node[l].length {
    lemma_apart(s0, s1, tree(s0, l), tree(s0, r)); lemma_sep(s0, tree(s0, l), tree(s1, l), tree(s0, r)); lemma_open(s1, r); lemma_open(s1, l); lemma_tree(s1, tree(s1, l)); 
    lemma_both(s0, s1, s1, s, n, tree(s1, l), tree(s0, r));
  } else {
    lemma_apart(s0, s1, tree(s0, r), tree(s0, l)); lemma_sep(s0, tree(s0, r), tree(s1, r), tree(s0, l)); lemma_open(s1, r); lemma_open(s1, l); lemma_tree(s1, tree(s1, r)); 
    lemma_both(s0, s0, s1, s, n, tree(s0, l), tree(s1, r));
  }
  assert(val(s, n) =~= ins(val(s0, n), pos, sv(s0.arr_V, value)));
} else {
  lemma_edited(s0, s, n);
}
lemma_grown(s, s, tree(s, n));
}
lemma_then(s0, s2, s, tree(s0, n), tree(s2, n), tree(s, n));
lemma_others(s0, s, tree(s0, n), tree(s, n));

@func Node.Remove (n, start, end)
@requires rope::g_SplitLength() >= 1
@requires ok(s0, n)
@requires 0 <= start <= end <= val(s0, n).len()
@ensures ok(s, n)
@ensures val(s, n) == cut(val(s0, n), start, end)
@ensures fr(s0, s, tree(s0, n))
@ensures from(s0, tree(s0, n), tree(s, n))
@ensures others(s0, s, tree(s0, n), tree(s, n))
@ensures[R02] thr() && fit(tree(s0, n)) ==> fit(tree(s, n))
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
let l = s0.Node[n].left; let r = s0.Node[n].right;
if s0.Node[n].kind == 1 { lemma_tree(s0, tree(s0, l)); lemma_tree(s0, tree(s0, r)); lemma_grown(s0, s0, tree(s0, l)); lemma_grown(s0, s0, tree(s0, r)); }
let mut s1 = s0; let mut adj = false; let mut s2 = s0; let mut s3 = s0;
@after Node.Remove#1
s1 = s; s2 = s;
assert(s1.Node.dom().contains(n));
lemma_apart(s0, s1, tree(s0, l), tree(s0, r)); lemma_open(s1, r); lemma_open(s1, l); lemma_tree(s1, tree(s1, l)); lemma_grown(s1, s1, tree(s0, r));
@after Node.Remove#2
s2 = s;
assert(s2.Node.dom().contains(n));
lemma_sep(s0, tree(s0, l), tree(s1, l), tree(s0, r));
lemma_apart(s1, s2, tree(s0, r), tree(s1, l)); lemma_open(s2, r); lemma_open(s2, l); lemma_tree(s2, tree(s2, r));
@before Node.adjust
adj = true;
s3 = s;
if s0.Node[n].kind == 1 {
  lemma_both(s0, s1, s2, s, n, tree(s1, l), tree(s2, r));
  assert(val(s, n) =~= cut(val(s0, n), start, end));
} else {
  lemma_edited(s0, s, n);
  assert(val(s, n) =~= cut(val(s0, n), start, end));
}
@exit
if !adj {
s3 = s;
if s0.Node[n].kind == 1 {
  lemma_both(s0, s1, s2, s, n, tree(s1, l), tree(s2, r));
  assert(val(s, n) =~= cut(val(s0, n), start, end));
} else {
  lemma_edited(s0, s, n);
  assert(val(s, n) =~= cut(val(s0, n), start, end));
}
lemma_grown(s, s, tree(s, n));
}
lemma_then(s0, s3, s, tree(s0, n), tree(s3, n), tree(s, n));
lemma_others(s0, s, tree(s0, n), tree(s, n));

@func Node.Slice (n, start, end) (r)
@requires ok(s0, n)
@requires start < end ==> 0 <= start && end <= val(s0, n).len()
@ensures start < end ==> sv(s.arr_V, r) == val(s0, n).subrange(start, end)
@ensures r.len == (if start < end { end - start } else { 0 })
@ensures slwf(s.arr_V, r)
@ensures vfrom(s0, tree(s0, n), r)
@ensures grown(s0, s)
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_grown_ok(s0, s0);
let mut s1 = s0; let mut s2 = s0;
if s0.Node[n].kind == 1 { lemma_vfrom(s0, tree(s0, s0.Node[n].left), tree(s0, n)); lemma_vfrom(s0, tree(s0, s0.Node[n].right), tree(s0, n)); }
@after Node.Slice
s2 = s;
lemma_grown_ok(s0, s);
@exit
if start < end { assert(sv(s.arr_V, r) =~= val(s0, n).subrange(start, end)); }
assert(grown(s0, s));

@func Node.At (n, pos) (r)
@requires ok(s0, n)
@requires 0 <= pos < val(s0, n).len() && is_count(val(s0, n).len() as int)
@ensures r == val(s0, n)[pos]
@ensures grown(s0, s)
@exit
assert(val(s0, n).subrange(pos, pos + 1)[0] == val(s0, n)[pos]);

@func Node.SplitAt (n, i) (l, r)
@requires rope::g_SplitLength() >= 1
@requires ok(s0, n)
@requires 0 <= i <= val(s0, n).len()
@ensures ok(s, l)
@ensures ok(s, r)
@ensures val(s, l) == val(s0, n).take(i)
@ensures val(s, r) == val(s0, n).skip(i)
@ensures sep(tree(s, l), tree(s, r))
@ensures fr(s0, s, tree(s0, n))
@ensures from(s0, tree(s0, n), tree(s, l))
@ensures from(s0, tree(s0, n), tree(s, r))
@ensures[R02] thr() && fit(tree(s0, n)) ==> fit(tree(s, l)) && fit(tree(s, r))
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_tree(s0, tree(s0, n));
lemma_grown(s0, s0, tree(s0, n));
let nl = s0.Node[n].left; let nr = s0.Node[n].right;
let mut s1 = s0; let mut cl = 0int; let mut cr = 0int;
if s0.Node[n].kind == 1 { lemma_tree(s0, tree(s0, nl)); lemma_tree(s0, tree(s0, nr)); }
@after New#1
s1 = s;
assert(s1.Node.dom().contains(n) && s1.Node[n] == s0.Node[n]);
assert(s1.arr_V[s0.Node[n].value.arr].len() == s0.arr_V[s0.Node[n].value.arr].len());
@after Node.SplitAt#1
s1 = s;
assert(s1.Node.dom().contains(n) && s1.Node[n] == s0.Node[n]);
lemma_apart(s0, s1, tree(s0, nl), tree(s0, nr)); lemma_sep2(s0, s1, tree(s0, nl), tree(s0, nr));
@after Node.SplitAt#2
s1 = s;
assert(s1.Node.dom().contains(n) && s1.Node[n] == s0.Node[n]);
lemma_apart(s0, s1, tree(s0, nr), tree(s0, nl)); lemma_sep2(s0, s1, tree(s0, nr), tree(s0, nl));
@exit
if s0.Node[n].kind == 0 { lemma_pair(s0, s1, s, n, i, l, r); }
else if i < s0.Node[nl].length { lemma_rejoin(s0, s1, s, n, nl, nr, l, r, tree(s0, nr)); }
else if i > s0.Node[nl].length { lemma_rejoin(s0, s1, s, n, nr, nl, r, l, tree(s0, nl)); }
assert(val(s, l) =~= val(s0, n).take(i));
assert(val(s, r) =~= val(s0, n).skip(i));

@func join (l, r) (n)
@requires rope::g_SplitLength() >= 1
@requires ok(s0, l)
@requires ok(s0, r)
@requires sep(tree(s0, l), tree(s0, r))
@ensures ok(s, n)
@ensures val(s, n) == val(s0, l) + val(s0, r)
@ensures fr(s0, s, mk(n, tree(s0, l), tree(s0, r)))
@ensures from(s0, mk(n, tree(s0, l), tree(s0, r)), tree(s, n))
@ensures !s0.Node.dom().contains(n)
@ensures[R02] thr() && fit(tree(s0, l)) && fit(tree(s0, r)) ==> fit(tree(s, n))
@entry
let mut s1 = s0; let mut adj = false;
lemma_tree(s0, tree(s0, l)); lemma_tree(s0, tree(s0, r)); lemma_open(s0, l); lemma_open(s0, r);
@before Node.adjust
adj = true;
s1 = s;
assert(grown(s0, s));
lemma_grown_ok(s0, s);
lemma_node(s, v_n, tree(s0, l), tree(s0, r));
lemma_grown(s0, s, tree(s, v_n));
@exit
if !adj {
s1 = s;
assert(grown(s0, s));
lemma_grown_ok(s0, s);
lemma_node(s, n, tree(s0, l), tree(s0, r));
lemma_grown(s0, s, tree(s, n));
lemma_grown(s, s, tree(s, n));
}
lemma_then(s0, s1, s, tree(s1, n), tree(s1, n), tree(s, n));

@func Join (a, b, more) (r)
@requires rope::g_SplitLength() >= 1
@requires slwf(s0.arr_int, more)
@requires all_ok(s0, seq![a, b] + sv(s0.arr_int, more))
@requires all_sep(s0, seq![a, b] + sv(s0.arr_int, more))
@ensures ok(s, r)
@ensures val(s, r) == catv(s0, seq![a, b] + sv(s0.arr_int, more))
@ensures fr(s0, s, bag(s0, seq![a, b] + sv(s0.arr_int, more)))
@ensures from(s0, bag(s0, seq![a, b] + sv(s0.arr_int, more)), tree(s, r))
@ensures[R02] thr() && all_fit(s0, seq![a, b] + sv(s0.arr_int, more)) ==> fit(tree(s, r))
@entry
let q = seq![a, b] + sv(s0.arr_int, more);
let mut s1 = s0;
assert(q[0] == a && q[1] == b);
assert(q.len() >= 2);
assert(ok(s0, a) && ok(s0, b) && sep(tree(s0, a), tree(s0, b)));
@loop 1
@loopbefore
lemma_first(s0, s, v_s, q, a, b);
@invariant ok(s, v_s)
@invariant val(s, v_s) == catv(s0, q.take(it1 + 2))
@invariant fr(s0, s, bag(s0, q.take(it1 + 2)))
@invariant from(s0, bag(s0, q.take(it1 + 2)), tree(s, v_s))
@invariant[R02] thr() && all_fit(s0, q) ==> fit(tree(s, v_s))
@loopentry
let k = it1 + 2; let p = q.take(k); let x = q[k]; let w = tree(s0, x);
s1 = s;
let acc = v_s;
assert(ok(s0, x));
assert forall|j: int| 0 <= j < p.len() implies sep(w, tree(s0, #[trigger] p[j])) by { assert(p[j] == q[j]); }
lemma_bag(s0, p, w);
lemma_apart(s0, s1, bag(s0, p), w); lemma_sep(s0, bag(s0, p), tree(s1, v_s), w);
@loopbody
let p2 = q.take(k + 1);
assert(p2.drop_last() =~= p && p2.last() == x);
let u = mk(v_s, tree(s1, acc), w);
lemma_tree(s1, tree(s1, acc));
assert(bag(s0, p2) == mk(0, bag(s0, p), w));
assert forall|y: int| #[trigger] inn(u, y) implies inn(bag(s0, p2), y) || !s0.Node.dom().contains(y) by { if y == v_s { if s0.Node.dom().contains(y) { assert(s1.Node.dom().contains(y)); } } else { assert(inn(tree(s1, acc), y) || inn(w, y)); } }
assert forall|y: int, i: int| #[trigger] owns(u, y, i) implies owns(bag(s0, p2), y, i) || !s0.arr_V.dom().contains(y) by { assert(owns(tree(s1, acc), y, i) || owns(w, y, i)); }
assert(sub(bag(s0, p), bag(s0, p2)));
lemma_wide(s0, s1, bag(s0, p), bag(s0, p2));
lemma_then(s0, s1, s, bag(s0, p2), u, tree(s, v_s));
@loopexit
assert(q.take(q.len() as int) =~= q);

@func Node.Rebuild (n)
@requires rope::g_SplitLength() >= 1
@requires ok(s0, n)
@ensures ok(s, n)
@ensures val(s, n) == val(s0, n)
@ensures fr(s0, s, tree(s0, n))
@ensures from(s0, tree(s0, n), tree(s, n))
@ensures others(s0, s, tree(s0, n), tree(s, n))
@ensures[R02] thr() && fit(tree(s0, n)) ==> fit(tree(s, n)) && even(tree(s, n))
@entry
lemma_open(s0, n);
lemma_grown_ok(s0, s0);
lemma_grown(s0, s0, tree(s0, n));
let mut s1 = s0; let mut s2 = s0; let mut s3 = s0;
@after Node.Value#1
s1 = s;
lemma_grown_ok(s0, s1);
@after Node.Value#2
s2 = s;
lemma_grown_ok(s1, s2);
lemma_slices(s1.arr_V, s2.arr_V);
@after concat
s2 = s;
assert(grown(s0, s2));
@before Node.adjust
s3 = s;
lemma_leafed(s0, s2, s, n);
@exit
if s0.Node[n].kind == 1 { lemma_then(s0, s3, s, tree(s0, n), tree(s3, n), tree(s, n)); }
lemma_others(s0, s, tree(s0, n), tree(s, n));

@func Node.Rebalance (n)
@requires rope::g_SplitLength() >= 1
@requires ok(s0, n)
@ensures ok(s, n)
@ensures val(s, n) == val(s0, n)
@ensures fr(s0, s, tree(s0, n))
@ensures from(s0, tree(s0, n), tree(s, n))
@ensures others(s0, s, tree(s0, n), tree(s, n))
@ensures[R02] thr() && fit(tree(s0, n)) ==> fit(tree(s, n))
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_grown_ok(s0, s0);
lemma_grown(s0, s0, tree(s0, n));
let l = s0.Node[n].left; let r = s0.Node[n].right;
let mut s1 = s0;
if s0.Node[n].kind == 1 { lemma_tree(s0, tree(s0, l)); lemma_tree(s0, tree(s0, r)); }
@after Node.Rebalance#1
s1 = s;
assert(s1.Node.dom().contains(n));
lemma_apart(s0, s1, tree(s0, l), tree(s0, r));
assert(!inn(tree(s0, l), n));
@after Node.Rebalance#2
assert(s.Node.dom().contains(n));
assert(s.Node[n] == s0.Node[n]);
lemma_tree(s1, tree(s1, l)); lemma_tree(s, tree(s, r));
assert(s.Node =~= s.Node.insert(n, s.Node[n]));
lemma_both(s0, s1, s, s, n, tree(s1, l), tree(s, r));
@exit
lemma_others(s0, s, tree(s0, n), tree(s, n));

@func Node.Each (n, fn_)
@requires ok(s0, n)
@ensures tr =~= tr0 + leaves(tree(s0, n))
@ensures catv(s0, leaves(tree(s0, n))) == val(s0, n)
@ensures[R02] fit(tree(s0, n)) ==> forall|i: int| 0 <= i < leaves(tree(s0, n)).len() ==> short(s0, #[trigger] leaves(tree(s0, n))[i])
@ensures[R02] fit(tree(s0, n)) && val(s0, n).len() < rope::g_JoinLength() ==> leaves(tree(s0, n)).len() == 1
@decreases tree(s0, n)
@entry
lemma_open(s0, n);
lemma_leaves(s0, tree(s0, n));
lemma_tree(s0, tree(s0, n));
if fit(tree(s0, n)) { lemma_fit(s0, tree(s0, n)); }

@func insert (q, k, vs) (r)
@requires slwf(s0.arr_V, q)
@requires slwf(s0.arr_V, vs)
@requires 0 <= k <= q.len
@ensures slwf(s.arr_V, r)
@ensures sv(s.arr_V, r) == ins(sv(s0.arr_V, q), k, sv(s0.arr_V, vs))
@ensures wrote(s0.arr_V, s.arr_V, q, r)
@entry
let x0 = sv(s0.arr_V, q); let y0 = sv(s0.arr_V, vs);
@after copy
assert(sv(s.arr_V, v_vs) =~= y0);
@exit
assert forall|j: int| 0 <= j < r.len implies #[trigger] sv(s.arr_V, r)[j] == ins(x0, k, y0)[j] by { }
assert(sv(s.arr_V, r) =~= ins(x0, k, y0));

@func concat (a, b) (r)
@requires slwf(s0.arr_V, a)
@requires slwf(s0.arr_V, b)
@ensures slwf(s.arr_V, r)
@ensures sv(s.arr_V, r) == sv(s0.arr_V, a) + sv(s0.arr_V, b)
@ensures agrown(s0.arr_V, s.arr_V)
@ensures r.cap > 0 ==> !s0.arr_V.dom().contains(r.arr)
@exit
assert(sv(s.arr_V, r) =~= sv(s0.arr_V, a) + sv(s0.arr_V, b));
