@state V
@counter n
@prelude
// ---- the trie as a value: the nodes reachable from a pointer
#[verifier::reject_recursive_types(V)]
pub enum T<V> { E, N { a: int, c: int, b: bool, v: V, l: Box<T<V>>, m: Box<T<V>>, r: Box<T<V>> } }
pub open spec fn root<V>(t: T<V>) -> int { match t { T::E => 0, T::N { a, .. } => a } }
// the children: 0 is for smaller bytes, 1 for what follows this byte, 2 for greater bytes
pub open spec fn ch<V>(t: T<V>, i: int) -> T<V> { match t { T::E => T::E, T::N { l, m, r, .. } => if i == 0 { *l } else if i == 1 { *m } else { *r } } }
pub open spec fn by<V>(t: T<V>) -> int { t->N_c }
pub open spec fn mk<V>(a: int, c: int, b: bool, v: V, l: T<V>, m: T<V>, r: T<V>) -> T<V> { T::N { a, c, b, v, l: Box::new(l), m: Box::new(m), r: Box::new(r) } }
pub open spec fn wc<V>(t: T<V>, i: int, u: T<V>) -> T<V> { mk(t->N_a, t->N_c, t->N_b, t->N_v, if i == 0 { u } else { ch(t, 0) }, if i == 1 { u } else { ch(t, 1) }, if i == 2 { u } else { ch(t, 2) }) }
pub open spec fn setch_get<V>(n: node<V>, i: int) -> int { if i == 0 { n.left } else if i == 1 { n.mid } else { n.right } }
pub open spec fn setch<V>(n: node<V>, i: int, x: int) -> node<V> { if i == 0 { node { left: x, ..n } } else if i == 1 { node { mid: x, ..n } } else { node { right: x, ..n } } }
// x is the address of a node of t
pub open spec fn inn<V>(t: T<V>, x: int) -> bool decreases t { match t { T::E => false, T::N { a, l, m, r, .. } => x == a || inn(*l, x) || inn(*m, x) || inn(*r, x) } }
pub open spec fn apart<V>(t: T<V>, u: T<V>) -> bool { forall|x: int| !(#[trigger] inn(t, x) && #[trigger] inn(u, x)) }
pub open spec fn okt<V>(h: Map<int, node<V>>, t: T<V>) -> bool decreases t {
  match t {
    T::E => true,
    T::N { a, c, b, v, l, m, r } => a != 0 && h.dom().contains(a) && h[a] == (node { c: c, left: root(*l), mid: root(*m), right: root(*r), val: v, valid: b })
      && okt(h, *l) && okt(h, *m) && okt(h, *r) && !inn(*l, a) && !inn(*m, a) && !inn(*r, a) && apart(*l, *m) && apart(*l, *r) && apart(*m, *r),
  }
}
pub open spec fn is<V>(h: Map<int, node<V>>, p: int, t: T<V>) -> bool { p == root(t) && okt(h, t) }
pub open spec fn tree<V>(h: Map<int, node<V>>, p: int) -> T<V> { choose|t: T<V>| #[trigger] is(h, p, t) }
pub open spec fn ok<V>(h: Map<int, node<V>>, p: int) -> bool { is(h, p, tree(h, p)) }
pub open spec fn num<V>(t: T<V>) -> int decreases t { match t { T::E => 0, T::N { l, m, r, .. } => 1 + num(*l) + num(*m) + num(*r) } }
// the number of keys
pub open spec fn cnt<V>(t: T<V>) -> int decreases t { match t { T::E => 0, T::N { b, l, m, r, .. } => (if b { 1int } else { 0 }) + cnt(*l) + cnt(*m) + cnt(*r) } }
// the bytes are ordered as in a search tree
pub open spec fn bst<V>(t: T<V>, lo: int, hi: int) -> bool decreases t { match t { T::E => true, T::N { c, l, m, r, .. } => lo < c < hi && bst(*l, lo, c) && bst(*m, -1, 256) && bst(*r, c, hi) } }
// the node at the end of the non-empty key k
pub open spec fn sub<V>(t: T<V>, k: Seq<int>) -> T<V> decreases t {
  match t { T::E => T::E, T::N { c, l, m, r, .. } => if k[0] < c { sub(*l, k) } else if k[0] > c { sub(*r, k) } else if k.len() > 1 { sub(*m, k.skip(1)) } else { t } }
}
pub open spec fn val_of<V>(t: T<V>) -> Option<V> { match t { T::E => None, T::N { b, v, .. } => if b { Some(v) } else { None } } }
// the value of the non-empty key k
pub open spec fn look<V>(t: T<V>, k: Seq<int>) -> Option<V> { val_of(sub(t, k)) }
pub open spec fn frame<V>(m0: Map<int, node<V>>, m: Map<int, node<V>>, t: T<V>) -> bool {
  forall|x: int| #[trigger] m0.dom().contains(x) ==> m.dom().contains(x) && (!inn(t, x) ==> m[x] == m0[x])
}
pub open spec fn grown<V>(m0: Map<int, node<V>>, t: T<V>, u: T<V>) -> bool {
  forall|x: int| #[trigger] inn(u, x) ==> inn(t, x) || !m0.dom().contains(x)
}
pub proof fn lemma_dom<V>(h: Map<int, node<V>>, t: T<V>)
  requires okt(h, t)
  ensures (forall|x: int| #[trigger] inn(t, x) ==> x != 0 && h.dom().contains(x)) && !inn(t, 0) && num(t) >= 0
  decreases t
{
  match t { T::E => {}, T::N { a, l, m, r, .. } => {
    lemma_dom(h, *l); lemma_dom(h, *m); lemma_dom(h, *r);
    assert(okt(h, t) && a != 0 && h.dom().contains(a));
    assert forall|x: int| #[trigger] inn(t, x) implies x != 0 && h.dom().contains(x) by { if inn(*l, x) {} else if inn(*m, x) {} else if inn(*r, x) {} else { assert(x == a); } }
    if inn(t, 0) { if inn(*l, 0) {} else if inn(*m, 0) {} else if inn(*r, 0) {} }
    assert(num(t) == 1 + num(*l) + num(*m) + num(*r));
  } }
}
pub proof fn lemma_unique<V>(h: Map<int, node<V>>, t: T<V>, u: T<V>)
  requires okt(h, t), okt(h, u), root(t) == root(u)
  ensures t == u
  decreases t
{
  match t { T::E => { match u { T::E => {}, T::N { .. } => {} } },
    T::N { l, m, r, .. } => { match u { T::E => {}, T::N { l: l2, m: m2, r: r2, .. } => { lemma_unique(h, *l, *l2); lemma_unique(h, *m, *m2); lemma_unique(h, *r, *r2); assert(l == l2 && m == m2 && r == r2); } } } }
}
pub proof fn lemma_is<V>(h: Map<int, node<V>>, p: int, t: T<V>)
  requires is(h, p, t)
  ensures ok(h, p), tree(h, p) == t
{ assert(is(h, p, tree(h, p))); lemma_unique(h, t, tree(h, p)); }
pub proof fn lemma_keep<V>(h0: Map<int, node<V>>, h: Map<int, node<V>>, t: T<V>)
  requires okt(h0, t), forall|x: int| #[trigger] inn(t, x) ==> h.dom().contains(x) && h[x] == h0[x]
  ensures okt(h, t)
  decreases t
{
  match t { T::E => {}, T::N { a, l, m, r, .. } => {
    assert(inn(t, a));
    assert forall|x: int| #[trigger] inn(*l, x) implies h.dom().contains(x) && h[x] == h0[x] by { assert(inn(t, x)); }
    assert forall|x: int| #[trigger] inn(*m, x) implies h.dom().contains(x) && h[x] == h0[x] by { assert(inn(t, x)); }
    assert forall|x: int| #[trigger] inn(*r, x) implies h.dom().contains(x) && h[x] == h0[x] by { assert(inn(t, x)); }
    lemma_keep(h0, h, *l); lemma_keep(h0, h, *m); lemma_keep(h0, h, *r);
  } }
}
// the children of a tree
pub proof fn lemma_kids<V>(h: Map<int, node<V>>, t: T<V>)
  requires okt(h, t)
  ensures okt(h, ch(t, 0)), okt(h, ch(t, 1)), okt(h, ch(t, 2)), !inn(t, 0),
    apart(ch(t, 0), ch(t, 1)), apart(ch(t, 0), ch(t, 2)), apart(ch(t, 1), ch(t, 2)),
    !inn(ch(t, 0), root(t)), !inn(ch(t, 1), root(t)), !inn(ch(t, 2), root(t)),
    root(t) != 0 ==> t is N && inn(t, root(t)) && h.dom().contains(root(t)) && h[root(t)] == (node { c: t->N_c, left: root(ch(t, 0)), mid: root(ch(t, 1)), right: root(ch(t, 2)), val: t->N_v, valid: t->N_b })
      && is(h, h[root(t)].left, ch(t, 0)) && is(h, h[root(t)].mid, ch(t, 1)) && is(h, h[root(t)].right, ch(t, 2))
      && tree(h, h[root(t)].left) == ch(t, 0) && tree(h, h[root(t)].mid) == ch(t, 1) && tree(h, h[root(t)].right) == ch(t, 2)
      && num(t) == 1 + num(ch(t, 0)) + num(ch(t, 1)) + num(ch(t, 2)) && num(ch(t, 0)) >= 0 && num(ch(t, 1)) >= 0 && num(ch(t, 2)) >= 0,
    root(t) == 0 ==> t is E,
    forall|x: int| #[trigger] inn(t, x) ==> h.dom().contains(x) && x != 0 && (x == root(t) || inn(ch(t, 0), x) || inn(ch(t, 1), x) || inn(ch(t, 2), x)),
    forall|x: int| #[trigger] inn(ch(t, 0), x) ==> inn(t, x) && h.dom().contains(x) && !inn(ch(t, 1), x) && !inn(ch(t, 2), x),
    forall|x: int| #[trigger] inn(ch(t, 1), x) ==> inn(t, x) && h.dom().contains(x) && !inn(ch(t, 0), x) && !inn(ch(t, 2), x),
    forall|x: int| #[trigger] inn(ch(t, 2), x) ==> inn(t, x) && h.dom().contains(x) && !inn(ch(t, 0), x) && !inn(ch(t, 1), x),
{
  lemma_dom(h, t);
  match t { T::E => {}, T::N { a, l, m, r, .. } => { lemma_dom(h, *l); lemma_dom(h, *m); lemma_dom(h, *r); lemma_is(h, h[a].left, *l); lemma_is(h, h[a].mid, *m); lemma_is(h, h[a].right, *r); } }
}
pub proof fn lemma_open<V>(h: Map<int, node<V>>, p: int)
  requires ok(h, p), p != 0
  ensures ({ let t = tree(h, p); root(t) == p && t is N && okt(h, t) && ok(h, h[p].left) && ok(h, h[p].mid) && ok(h, h[p].right) && h[p].c == by(t) && h[p].valid == t->N_b && h[p].val == t->N_v && h.dom().contains(p)
    && tree(h, h[p].left) == ch(t, 0) && tree(h, h[p].mid) == ch(t, 1) && tree(h, h[p].right) == ch(t, 2) && num(ch(t, 0)) < num(t) && num(ch(t, 1)) < num(t) && num(ch(t, 2)) < num(t) && num(ch(t, 0)) >= 0 && num(ch(t, 1)) >= 0 && num(ch(t, 2)) >= 0 })
{ lemma_kids(h, tree(h, p)); }
pub proof fn lemma_trans<V>(m0: Map<int, node<V>>, m1: Map<int, node<V>>, m2: Map<int, node<V>>, t: T<V>, u: T<V>, w: T<V>)
  requires frame(m0, m1, t), grown(m0, t, u), frame(m1, m2, u), grown(m1, u, w)
  ensures frame(m0, m2, t), grown(m0, t, w)
{}
// child i was replaced by the tree u
pub proof fn lemma_child<V>(m0: Map<int, node<V>>, mc: Map<int, node<V>>, ma: Map<int, node<V>>, n: int, t0: T<V>, tc: T<V>, i: int, u: T<V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), okt(ma, u), 0 <= i < 3, frame(mc, ma, ch(tc, i)), grown(mc, ch(tc, i), u)
  ensures ma[n] == mc[n], ({ let m = ma.insert(n, setch(ma[n], i, root(u))); let w = wc(tc, i, u); is(m, n, w) && tree(m, n) == w && ok(m, n) && frame(m0, m, t0) && grown(m0, t0, w) })
{
  let m = ma.insert(n, setch(ma[n], i, root(u))); let w = wc(tc, i, u);
  lemma_kids(mc, tc); lemma_dom(ma, u);
  assert(!inn(ch(tc, i), n));
  assert(!inn(u, n)) by { assert(mc.dom().contains(n)); }
  assert forall|x: int| #[trigger] inn(u, x) implies m.dom().contains(x) && m[x] == ma[x] by { }
  lemma_keep(ma, m, u);
  if i != 0 { assert forall|x: int| #[trigger] inn(ch(tc, 0), x) implies m.dom().contains(x) && m[x] == mc[x] by { assert(!inn(ch(tc, i), x)); } lemma_keep(mc, m, ch(tc, 0)); assert forall|x: int| !(#[trigger] inn(u, x) && #[trigger] inn(ch(tc, 0), x)) by { } }
  if i != 1 { assert forall|x: int| #[trigger] inn(ch(tc, 1), x) implies m.dom().contains(x) && m[x] == mc[x] by { assert(!inn(ch(tc, i), x)); } lemma_keep(mc, m, ch(tc, 1)); assert forall|x: int| !(#[trigger] inn(u, x) && #[trigger] inn(ch(tc, 1), x)) by { } }
  if i != 2 { assert forall|x: int| #[trigger] inn(ch(tc, 2), x) implies m.dom().contains(x) && m[x] == mc[x] by { assert(!inn(ch(tc, i), x)); } lemma_keep(mc, m, ch(tc, 2)); assert forall|x: int| !(#[trigger] inn(u, x) && #[trigger] inn(ch(tc, 2), x)) by { } }
  assert(m[n] == setch(mc[n], i, root(u)));
  assert(okt(m, *w->N_l) && okt(m, *w->N_m) && okt(m, *w->N_r));
  assert(okt(m, w));
  assert forall|x: int| #[trigger] inn(w, x) implies inn(tc, x) || !mc.dom().contains(x) by { if x == n {} else if inn(u, x) {} else if i != 0 && inn(ch(tc, 0), x) {} else if i != 1 && inn(ch(tc, 1), x) {} else { assert(i != 2 && inn(ch(tc, 2), x)); } }
  assert(grown(mc, tc, w)); assert(frame(mc, m, tc));
  lemma_trans(m0, mc, m, t0, tc, w); lemma_is(m, n, w);
}
// the byte's own entry was rewritten
pub proof fn lemma_here<V>(m0: Map<int, node<V>>, mc: Map<int, node<V>>, m: Map<int, node<V>>, n: int, t0: T<V>, tc: T<V>)
  requires is(mc, n, tc), n != 0, frame(m0, mc, t0), grown(m0, t0, tc), m =~= mc.insert(n, node { val: m[n].val, valid: m[n].valid, ..mc[n] })
  ensures ({ let w = mk(n, by(tc), m[n].valid, m[n].val, ch(tc, 0), ch(tc, 1), ch(tc, 2)); is(m, n, w) && tree(m, n) == w && ok(m, n) && frame(m0, m, t0) && grown(m0, t0, w) })
{
  lemma_kids(mc, tc); let w = mk(n, by(tc), m[n].valid, m[n].val, ch(tc, 0), ch(tc, 1), ch(tc, 2));
  assert forall|x: int| #[trigger] inn(ch(tc, 0), x) implies m.dom().contains(x) && m[x] == mc[x] by { assert(x != n); }
  assert forall|x: int| #[trigger] inn(ch(tc, 1), x) implies m.dom().contains(x) && m[x] == mc[x] by { assert(x != n); }
  assert forall|x: int| #[trigger] inn(ch(tc, 2), x) implies m.dom().contains(x) && m[x] == mc[x] by { assert(x != n); }
  lemma_keep(mc, m, ch(tc, 0)); lemma_keep(mc, m, ch(tc, 1)); lemma_keep(mc, m, ch(tc, 2));
  assert(okt(m, *w->N_l) && okt(m, *w->N_m) && okt(m, *w->N_r)); assert(okt(m, w));
  assert forall|x: int| #[trigger] inn(w, x) implies inn(tc, x) by { if x == n {} else if inn(ch(tc, 0), x) {} else if inn(ch(tc, 1), x) {} else { assert(inn(ch(tc, 2), x)); } }
  lemma_trans(m0, mc, m, t0, tc, w); lemma_is(m, n, w);
}
pub proof fn lemma_single<V>(m0: Map<int, node<V>>, m: Map<int, node<V>>, n: int)
  requires n != 0, !m0.dom().contains(n), m =~= m0.insert(n, node { c: m[n].c, left: 0, mid: 0, right: 0, val: m[n].val, valid: m[n].valid })
  ensures ({ let w = mk(n, m[n].c, m[n].valid, m[n].val, T::E, T::E, T::E); is(m, n, w) && tree(m, n) == w && ok(m, n) && frame(m0, m, T::E) && grown(m0, T::E, w) && ok(m, 0) && tree(m, 0) == T::<V>::E && w is N && num(w) == 1 && num(T::<V>::E) == 0 })
{
  let w = mk(n, m[n].c, m[n].valid, m[n].val, T::E, T::E, T::E); let e = T::<V>::E;
  assert(okt(m, e) && apart(e, e) && !inn(e, n)); assert(okt(m, w)); lemma_is(m, n, w); lemma_is(m, 0, e);
  assert forall|x: int| #[trigger] inn(w, x) implies !m0.dom().contains(x) by { assert(x == n || inn(e, x)); }
  assert(num(e) == 0); assert(num(w) == 1 + num(*w->N_l) + num(*w->N_m) + num(*w->N_r));
}

// ---- what the operations do to the keys
pub open spec fn some<V>(o: Option<V>) -> int { if o is Some { 1 } else { 0 } }
// u has the keys of t, except that the key k now has the value o (or none)
pub open spec fn upd<V>(t: T<V>, u: T<V>, key: Seq<int>, o: Option<V>) -> bool {
  (forall|k: Seq<int>| k.len() > 0 ==> #[trigger] look(u, k) == if k == key { o } else { look(t, k) })
  && cnt(u) + some(look(t, key)) == cnt(t) + some(o)
  && (forall|lo: int, hi: int| #[trigger] bst(t, lo, hi) && (o is Some ==> lo < key[0] < hi) ==> bst(u, lo, hi))
}
pub open spec fn bytes(k: Seq<int>) -> bool { forall|i: int| 0 <= i < k.len() ==> 0 <= #[trigger] k[i] <= 255 }
pub open spec fn step<V>(t: T<V>, k: Seq<int>) -> int { if k[0] < by(t) { 0 } else if k[0] > by(t) { 2 } else { 1 } }
pub open spec fn rest<V>(t: T<V>, k: Seq<int>) -> Seq<int> { if step(t, k) == 1 { k.skip(1) } else { k } }
pub proof fn lemma_upd_child<V>(t: T<V>, u: T<V>, key: Seq<int>, o: Option<V>)
  requires t is N, key.len() > 0, key[0] == by(t) ==> key.len() > 1, upd(ch(t, step(t, key)), u, rest(t, key), o), bytes(key)
  ensures upd(t, wc(t, step(t, key), u), key, o)
{
  let i = step(t, key); let w = wc(t, i, u); let c = ch(t, i);
  assert(look(t, key) == look(c, rest(t, key)));
  assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(w, k) == if k == key { o } else { look(t, k) } by {
    if step(t, k) == i {
      if i == 1 { if k.len() > 1 { assert(look(w, k) == look(u, k.skip(1))); assert(look(t, k) == look(c, k.skip(1))); if k.skip(1) == key.skip(1) { assert(k =~= seq![k[0]] + k.skip(1)); assert(key =~= seq![key[0]] + key.skip(1)); } } }
      else { assert(look(w, k) == look(u, k)); assert(look(t, k) == look(c, k)); }
    } else { }
  }
  assert(cnt(w) == (if w->N_b { 1int } else { 0 }) + cnt(*w->N_l) + cnt(*w->N_m) + cnt(*w->N_r));
  assert(cnt(t) == (if t->N_b { 1int } else { 0 }) + cnt(ch(t, 0)) + cnt(ch(t, 1)) + cnt(ch(t, 2)));
  assert forall|lo: int, hi: int| #[trigger] bst(t, lo, hi) && (o is Some ==> lo < key[0] < hi) implies bst(w, lo, hi) by {
    if i == 0 { assert(bst(c, lo, by(t))); assert(bst(u, lo, by(t))); } else if i == 1 { assert(bst(c, -1, 256)); assert(0 <= key[1] <= 255); assert(bst(u, -1, 256)); } else { assert(bst(c, by(t), hi)); assert(bst(u, by(t), hi)); }
  }
}
pub proof fn lemma_upd_here<V>(t: T<V>, a: int, key: Seq<int>, b: bool, v: V)
  requires t is N, key.len() == 1, key[0] == by(t)
  ensures upd(t, mk(a, by(t), b, v, ch(t, 0), ch(t, 1), ch(t, 2)), key, if b { Some(v) } else { None })
{
  let w = mk(a, by(t), b, v, ch(t, 0), ch(t, 1), ch(t, 2));
  assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(w, k) == if k == key { if b { Some(v) } else { None } } else { look(t, k) } by {
    if k[0] == by(t) && k.len() == 1 { assert(k =~= key); }
  }
  assert(sub(t, key) == t);
  assert(cnt(w) == (if w->N_b { 1int } else { 0 }) + cnt(*w->N_l) + cnt(*w->N_m) + cnt(*w->N_r));
}
pub proof fn lemma_upd_new<V>(n: int, u: T<V>, key: Seq<int>, o: Option<V>, z: V)
  requires key.len() > 0, bytes(key), o is Some, upd(mk(n, key[0], false, z, T::E, T::E, T::E), u, key, o)
  ensures upd(T::E, u, key, o)
{
  let w = mk(n, key[0], false, z, T::E, T::E, T::E); let e = T::<V>::E;
  assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(w, k) == None::<V> by { assert(sub(e, k) == e); assert(sub(e, k.skip(1)) == e); assert(sub(w, k) == if k[0] < key[0] { sub(e, k) } else if k[0] > key[0] { sub(e, k) } else if k.len() > 1 { sub(e, k.skip(1)) } else { w }); }
  assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(u, k) == if k == key { o } else { look(e, k) } by { assert(look(w, k) == None::<V>); }
  assert(cnt(e) == 0); assert(cnt(w) == 0 + cnt(*w->N_l) + cnt(*w->N_m) + cnt(*w->N_r));
  assert(look(w, key) == None::<V> && look(e, key) == None::<V>);
  assert forall|lo: int, hi: int| #[trigger] bst(e, lo, hi) && lo < key[0] < hi implies bst(u, lo, hi) by { assert(bst(e, lo, key[0]) && bst(e, -1, 256) && bst(e, key[0], hi)); assert(bst(w, lo, hi)); }
}
pub proof fn lemma_bst_wide<V>(t: T<V>, lo: int, hi: int, lo2: int, hi2: int)
  requires bst(t, lo, hi), lo2 <= lo, hi <= hi2
  ensures bst(t, lo2, hi2)
  decreases t
{ match t { T::E => {}, T::N { c, l, r, .. } => { lemma_bst_wide(*l, lo, c, lo2, c); lemma_bst_wide(*r, c, hi, c, hi2); } } }
// a key that starts outside the bounds is not there
pub proof fn lemma_out<V>(t: T<V>, lo: int, hi: int, k: Seq<int>)
  requires bst(t, lo, hi), k.len() > 0, k[0] <= lo || k[0] >= hi
  ensures sub(t, k) is E, look(t, k) == None::<V>
  decreases t
{ match t { T::E => {}, T::N { c, l, r, .. } => { if k[0] < c { lemma_out(*l, lo, c, k); } else { lemma_out(*r, c, hi, k); } } } }

// ---- removing a node
pub open spec fn mn<V>(t: T<V>) -> T<V> decreases t { match t { T::E => T::E, T::N { l, .. } => if *l is E { t } else { mn(*l) } } }
pub open spec fn dmin<V>(t: T<V>) -> T<V> decreases t { match t { T::E => T::E, T::N { a, c, b, v, l, m, r } => if *l is E { *r } else { mk(a, c, b, v, dmin(*l), *m, *r) } } }
pub open spec fn cut<V>(t: T<V>) -> T<V> {
  match t { T::E => T::E, T::N { l, r, .. } => if *r is E { *l } else if *l is E { *r } else { let q = mn(*r); mk(q->N_a, q->N_c, q->N_b, q->N_v, *l, ch(q, 1), dmin(*r)) } }
}
pub proof fn lemma_mn<V>(h: Map<int, node<V>>, t: T<V>)
  requires okt(h, t), t is N
  ensures mn(t) is N, okt(h, mn(t)), ch(mn(t), 0) is E, inn(t, root(mn(t))),
    forall|x: int| #[trigger] inn(dmin(t), x) ==> inn(t, x) && x != root(mn(t)) && !inn(ch(mn(t), 1), x),
    forall|x: int| #[trigger] inn(ch(mn(t), 1), x) ==> inn(t, x), !inn(ch(mn(t), 1), root(mn(t))), okt(h, ch(mn(t), 1)), root(mn(t)) != 0,
  decreases t
{
  lemma_kids(h, t);
  match t { T::E => {}, T::N { a, l, m, r, .. } => {
    if !(*l is E) {
      lemma_mn(h, *l); let d = dmin(t); let q = mn(*l);
      assert(okt(h, ch(t, 0)));
      assert forall|x: int| #[trigger] inn(d, x) implies inn(t, x) && x != root(mn(t)) && !inn(ch(mn(t), 1), x) by {
        assert(inn(ch(t, 0), root(q)));
        if x == a {} else if inn(dmin(*l), x) { assert(inn(ch(t, 0), x)); } else if inn(*m, x) { assert(inn(ch(t, 1), x)); } else { assert(inn(*r, x)); assert(inn(ch(t, 2), x)); }
        if inn(ch(q, 1), x) && !inn(dmin(*l), x) { assert(inn(ch(t, 0), x)); }
      }
      assert forall|x: int| #[trigger] inn(ch(mn(t), 1), x) implies inn(t, x) by { assert(inn(ch(t, 0), x)); }
      assert(inn(ch(t, 0), root(q)));
    } else {
      assert(inn(t, a));
      assert forall|x: int| #[trigger] inn(dmin(t), x) implies inn(t, x) && x != root(mn(t)) && !inn(ch(mn(t), 1), x) by { assert(inn(ch(t, 2), x)); }
    }
  } }
}
pub proof fn lemma_mn_keys<V>(t: T<V>, lo: int, hi: int)
  requires t is N, bst(t, lo, hi)
  ensures mn(t) is N, lo < by(mn(t)) < hi, bst(dmin(t), by(mn(t)), hi), bst(ch(mn(t), 1), -1, 256),
    cnt(t) == cnt(dmin(t)) + (if mn(t)->N_b { 1int } else { 0 }) + cnt(ch(mn(t), 1)),
    forall|k: Seq<int>| k.len() > 0 ==> #[trigger] look(t, k) == if k[0] == by(mn(t)) { if k.len() > 1 { look(ch(mn(t), 1), k.skip(1)) } else { val_of(mn(t)) } } else { look(dmin(t), k) }
  decreases t
{
  match t { T::E => {}, T::N { c, l, m, r, .. } => {
    assert(cnt(T::<V>::E) == 0);
    if *l is E {
      assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(t, k) == if k[0] == by(mn(t)) { if k.len() > 1 { look(ch(mn(t), 1), k.skip(1)) } else { val_of(mn(t)) } } else { look(dmin(t), k) } by {
        if k[0] < c { assert(sub(*l, k) is E); lemma_out(*r, c, hi, k); }
      }
    } else {
      lemma_mn_keys(*l, lo, c); let d = dmin(t);
      assert(cnt(d) == (if d->N_b { 1int } else { 0 }) + cnt(*d->N_l) + cnt(*d->N_m) + cnt(*d->N_r));
      assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(t, k) == if k[0] == by(mn(t)) { if k.len() > 1 { look(ch(mn(t), 1), k.skip(1)) } else { val_of(mn(t)) } } else { look(dmin(t), k) } by {
        if k[0] < c { assert(look(t, k) == look(*l, k)); assert(look(d, k) == look(dmin(*l), k)); }
      }
    }
  } }
}
// dropping a node that carries no key
pub proof fn lemma_cut<V>(t: T<V>, key: Seq<int>)
  requires t is N, !t->N_b, ch(t, 1) is E, bst(t, -1, 256), look(t, key) == None::<V>
  ensures upd(t, cut(t), key, None)
{
  let c = by(t); let l = ch(t, 0); let r = ch(t, 2); let w = cut(t); let e = T::<V>::E;
  assert(bst(l, -1, c) && bst(r, c, 256));
  assert(cnt(e) == 0);
  assert(cnt(t) == cnt(l) + cnt(e) + cnt(r));
  if !(r is E) { lemma_mn_keys(r, c, 256); }
  let q = mn(r);
  assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(w, k) == if k == key { None } else { look(t, k) } by {
    assert(sub(e, k) is E); assert(sub(e, k.skip(1)) is E);
    if k[0] == c { lemma_out(l, -1, c, k); lemma_out(r, c, 256, k); }
    if k[0] > c { lemma_out(l, -1, c, k); } else { lemma_out(r, c, 256, k); }
    if !(r is E) && !(l is E) {
      assert(look(r, k) == if k[0] == by(q) { if k.len() > 1 { look(ch(q, 1), k.skip(1)) } else { val_of(q) } } else { look(dmin(r), k) });
      assert(look(w, k) == if k[0] < by(q) { look(l, k) } else if k[0] > by(q) { look(dmin(r), k) } else if k.len() > 1 { look(ch(q, 1), k.skip(1)) } else { val_of(q) });
      if k[0] < by(q) && k[0] > c { lemma_out(dmin(r), by(q), 256, k); }
    }
  }
  if !(r is E) && !(l is E) { assert(cnt(w) == (if w->N_b { 1int } else { 0 }) + cnt(*w->N_l) + cnt(*w->N_m) + cnt(*w->N_r)); }
  assert forall|lo: int, hi: int| #[trigger] bst(t, lo, hi) implies bst(w, lo, hi) by {
    if r is E { lemma_bst_wide(l, lo, c, lo, hi); } else if l is E { lemma_bst_wide(r, c, hi, lo, hi); }
    else { lemma_mn_keys(r, c, hi); lemma_bst_wide(l, lo, c, lo, by(q)); }
  }
}
pub proof fn lemma_upd_trans<V>(t: T<V>, u: T<V>, w: T<V>, key: Seq<int>)
  requires upd(t, u, key, None), upd(u, w, key, None), key.len() > 0
  ensures upd(t, w, key, None)
{
  assert forall|k: Seq<int>| k.len() > 0 implies #[trigger] look(w, k) == if k == key { None } else { look(t, k) } by { assert(look(u, k) == if k == key { None } else { look(t, k) }); }
  assert(look(u, key) == None::<V>);
  assert forall|lo: int, hi: int| #[trigger] bst(t, lo, hi) implies bst(w, lo, hi) by { assert(bst(u, lo, hi)); }
}

// ---- the map
pub open spec fn tr_of<V>(s: S<V>, p: int) -> T<V> { tree(s.node, s.Trie[p].root) }
pub open spec fn wf<V>(s: S<V>, p: int) -> bool { p != 0 && s.Trie.dom().contains(p) && ok(s.node, s.Trie[p].root) && bst(tr_of(s, p), -1, 256) && s.Trie[p].n == cnt(tr_of(s, p)) }
// the value of the non-empty key k
pub open spec fn get<V>(s: S<V>, p: int, k: Seq<int>) -> Option<V> { look(tr_of(s, p), k) }
pub open spec fn separate<V>(s: S<V>, p: int, q: int) -> bool { p != q && apart(tr_of(s, p), tr_of(s, q)) }
pub open spec fn others_kept<V>(s0: S<V>, s: S<V>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && tr_of(s, q) == tr_of(s0, q)
}
pub proof fn lemma_kept<V>(s0: S<V>, s: S<V>, p: int)
  requires wf(s0, p), frame(s0.node, s.node, tr_of(s0, p)), grown(s0.node, tr_of(s0, p), tr_of(s, p)), s.Trie =~= s0.Trie.insert(p, s.Trie[p]), ok(s.node, s.Trie[p].root)
  ensures others_kept(s0, s, p)
{
  assert forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) implies wf(s, q) && separate(s, p, q) && tr_of(s, q) == tr_of(s0, q) by {
    let t = tr_of(s0, q);
    lemma_dom(s0.node, t); lemma_dom(s0.node, tr_of(s0, p));
    assert(s.Trie[q] == s0.Trie[q]);
    assert forall|x: int| #[trigger] inn(t, x) implies s.node.dom().contains(x) && s.node[x] == s0.node[x] by { assert(!inn(tr_of(s0, p), x)); }
    lemma_keep(s0.node, s.node, t); lemma_is(s.node, s0.Trie[q].root, t);
    assert forall|x: int| !(#[trigger] inn(tr_of(s, p), x) && #[trigger] inn(t, x)) by { if inn(tr_of(s, p), x) && inn(t, x) { assert(!inn(tr_of(s0, p), x)); } }
  }
}

// ---- listing the keys
pub open spec fn slt(a: Seq<int>, b: Seq<int>) -> bool decreases b.len() {
  b.len() > 0 && (a.len() == 0 || a[0] < b[0] || (a[0] == b[0] && slt(a.skip(1), b.skip(1))))
}
pub open spec fn pre(p: Seq<int>, q: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(q.len(), |i: int| p + q[i]) }
// the keys, in order
pub open spec fn keys<V>(t: T<V>) -> Seq<Seq<int>> decreases t {
  match t { T::E => Seq::empty(), T::N { c, b, l, m, r, .. } => keys(*l) + (if b { seq![seq![c]] } else { Seq::empty() }) + pre(seq![c], keys(*m)) + keys(*r) }
}
pub open spec fn sorted(q: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> slt(#[trigger] q[i], #[trigger] q[j]) }
// q lists exactly the live keys, each once, in increasing byte order
pub open spec fn listing<V>(s: S<V>, p: int, q: Seq<Seq<int>>) -> bool {
  sorted(q) && (forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() > 0 && get(s, p, q[i]) is Some) && (forall|k: Seq<int>| k.len() > 0 && #[trigger] get(s, p, k) is Some ==> q.contains(k))
}
pub proof fn lemma_slt_pre(p: Seq<int>, a: Seq<int>, b: Seq<int>)
  requires slt(a, b)
  ensures slt(p + a, p + b)
  decreases p.len()
{
  if p.len() == 0 { assert(p + a =~= a); assert(p + b =~= b); }
  else { lemma_slt_pre(p.skip(1), a, b); assert((p + a).skip(1) =~= p.skip(1) + a); assert((p + b).skip(1) =~= p.skip(1) + b); assert((p + a)[0] == p[0] && (p + b)[0] == p[0]); }
}
// q consists of the keys of one node: smaller bytes, the byte alone, what follows it, greater bytes
pub open spec fn one(b: bool, c: int) -> Seq<Seq<int>> { if b { seq![seq![c]] } else { Seq::empty() } }
pub open spec fn mix(ql: Seq<Seq<int>>, b: bool, c: int, qm: Seq<Seq<int>>, qr: Seq<Seq<int>>) -> Seq<Seq<int>> { ql + one(b, c) + pre(seq![c], qm) + qr }
pub open spec fn firsts(q: Seq<Seq<int>>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() > 0 && lo < q[i][0] < hi }
pub proof fn lemma_mix(ql: Seq<Seq<int>>, b: bool, c: int, qm: Seq<Seq<int>>, qr: Seq<Seq<int>>, i: int)
  requires 0 <= i < mix(ql, b, c, qm, qr).len()
  ensures ({ let q = mix(ql, b, c, qm, qr); let n1 = ql.len(); let n2 = n1 + one(b, c).len(); let n3 = n2 + qm.len(); q.len() == n3 + qr.len() && (if i < n1 { q[i] == ql[i] } else if i < n2 { b && q[i] == seq![c] } else if i < n3 { q[i] == seq![c] + qm[i - n2] } else { q[i] == qr[i - n3] }) })
{ }
pub proof fn lemma_mix_sorted(ql: Seq<Seq<int>>, b: bool, c: int, qm: Seq<Seq<int>>, qr: Seq<Seq<int>>, lo: int, hi: int)
  requires sorted(ql), sorted(qm), sorted(qr), firsts(ql, lo, c), firsts(qm, -1, 256), firsts(qr, c, hi), lo < c < hi
  ensures sorted(mix(ql, b, c, qm, qr)), firsts(mix(ql, b, c, qm, qr), lo, hi)
{
  let q = mix(ql, b, c, qm, qr); let n1 = ql.len(); let n2 = n1 + one(b, c).len(); let n3 = n2 + qm.len();
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() > 0 && lo < q[i][0] < hi by { lemma_mix(ql, b, c, qm, qr, i); }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies slt(#[trigger] q[i], #[trigger] q[j]) by {
    lemma_mix(ql, b, c, qm, qr, i); lemma_mix(ql, b, c, qm, qr, j);
    if j < n1 { assert(slt(ql[i], ql[j])); }
    else if i >= n3 { assert(slt(qr[i - n3], qr[j - n3])); }
    else if n2 <= i && j < n3 { assert(slt(qm[i - n2], qm[j - n2])); lemma_slt_pre(seq![c], qm[i - n2], qm[j - n2]); }
    else if n1 <= i && j < n3 { let e = Seq::<int>::empty(); assert(qm[j - n2].len() > 0); assert(slt(e, qm[j - n2])); lemma_slt_pre(seq![c], e, qm[j - n2]); assert(seq![c] + e =~= seq![c]); }
    else { assert(q[i][0] < q[j][0]); }
  }
}
pub proof fn lemma_look<V>(t: T<V>, k: Seq<int>)
  requires t is N, k.len() > 0
  ensures look(t, k) == (if k[0] < by(t) { look(ch(t, 0), k) } else if k[0] > by(t) { look(ch(t, 2), k) } else if k.len() > 1 { look(ch(t, 1), k.skip(1)) } else { val_of(t) })
{ }
pub proof fn lemma_keys<V>(t: T<V>, lo: int, hi: int)
  requires bst(t, lo, hi)
  ensures sorted(keys(t)), firsts(keys(t), lo, hi), keys(t).len() == cnt(t), forall|i: int| 0 <= i < keys(t).len() ==> (#[trigger] keys(t)[i]).len() > 0 && look(t, keys(t)[i]) is Some,
    forall|k: Seq<int>| k.len() > 0 && #[trigger] look(t, k) is Some ==> keys(t).contains(k)
  decreases t
{
  match t { T::E => {}, T::N { c, b, l, m, r, .. } => {
    lemma_keys(*l, lo, c); lemma_keys(*m, -1, 256); lemma_keys(*r, c, hi);
    let ql = keys(*l); let qm = keys(*m); let qr = keys(*r);
    let q = keys(t); let n1 = ql.len() as int; let n2 = n1 + one(b, c).len(); let n3 = n2 + qm.len();
    assert(q == mix(ql, b, c, qm, qr));
    lemma_mix_sorted(ql, b, c, qm, qr, lo, hi);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() > 0 && look(t, q[i]) is Some by {
      lemma_mix(ql, b, c, qm, qr, i); lemma_look(t, q[i]);
      if i < n1 { assert(look(*l, ql[i]) is Some); } else if i < n2 { } else if i < n3 { assert(look(*m, qm[i - n2]) is Some); assert(q[i].skip(1) =~= qm[i - n2]); assert(q[i][0] == c); } else { assert(look(*r, qr[i - n3]) is Some); }
    }
    assert forall|k: Seq<int>| k.len() > 0 && #[trigger] look(t, k) is Some implies q.contains(k) by {
      lemma_look(t, k);
      if k[0] < c { let i = ql.index_of(k); lemma_mix(ql, b, c, qm, qr, i); assert(q[i] == k); }
      else if k[0] > c { let i = qr.index_of(k); lemma_mix(ql, b, c, qm, qr, n3 + i); assert(q[n3 + i] == k); }
      else if k.len() > 1 { let i = qm.index_of(k.skip(1)); lemma_mix(ql, b, c, qm, qr, n2 + i); assert(k =~= seq![c] + k.skip(1)); assert(q[n2 + i] == k); }
      else { assert(k =~= seq![c]); lemma_mix(ql, b, c, qm, qr, n1); assert(q[n1] == k); }
    }
    assert(cnt(t) == (if b { 1int } else { 0 }) + cnt(*l) + cnt(*m) + cnt(*r));
  } }
}
pub proof fn lemma_pre_pre(p: Seq<int>, c: int, q: Seq<Seq<int>>)
  ensures pre(p, pre(seq![c], q)) =~= pre(p.push(c), q)
{ assert forall|i: int| 0 <= i < q.len() implies pre(p, pre(seq![c], q))[i] == #[trigger] pre(p.push(c), q)[i] by { assert(p + (seq![c] + q[i]) =~= p.push(c) + q[i]); } }
// what collecting the keys of a node yields
pub proof fn lemma_collect<V>(t: T<V>, p: Seq<int>)
  requires t is N
  ensures pre(p, keys(t)) =~= pre(p, keys(ch(t, 0))) + (if t->N_b { seq![p.push(by(t))] } else { Seq::empty() }) + pre(p.push(by(t)), keys(ch(t, 1))) + pre(p, keys(ch(t, 2)))
{
  let c = by(t); let ql = keys(ch(t, 0)); let qh = if t->N_b { seq![seq![c]] } else { Seq::<Seq<int>>::empty() }; let qm = pre(seq![c], keys(ch(t, 1))); let qr = keys(ch(t, 2));
  assert(keys(t) == ql + qh + qm + qr);
  lemma_pre_pre(p, c, keys(ch(t, 1)));
  assert(p + seq![c] =~= p.push(c));
  assert(pre(p, keys(t)) =~= pre(p, ql) + pre(p, qh) + pre(p, qm) + pre(p, qr));
  assert(pre(p, qh) =~= if t->N_b { seq![p.push(c)] } else { Seq::empty() });
}
pub proof fn lemma_sub<V>(t: T<V>, p: Seq<int>, k: Seq<int>)
  requires p.len() > 0, k.len() > 0
  ensures sub(t, p + k) == sub(ch(sub(t, p), 1), k)
  decreases t
{
  match t { T::E => { }, T::N { c, l, m, r, .. } => {
    assert((p + k)[0] == p[0]);
    if p[0] < c { lemma_sub(*l, p, k); } else if p[0] > c { lemma_sub(*r, p, k); }
    else if p.len() > 1 { lemma_sub(*m, p.skip(1), k); assert((p + k).skip(1) =~= p.skip(1) + k); } else { assert((p + k).skip(1) =~= k); }
  } }
}
pub proof fn lemma_sub_bst<V>(t: T<V>, lo: int, hi: int, k: Seq<int>)
  requires bst(t, lo, hi), k.len() > 0
  ensures bst(ch(sub(t, k), 1), -1, 256)
  decreases t
{ match t { T::E => {}, T::N { c, l, m, r, .. } => { if k[0] < c { lemma_sub_bst(*l, lo, c, k); } else if k[0] > c { lemma_sub_bst(*r, c, hi, k); } else if k.len() > 1 { lemma_sub_bst(*m, -1, 256, k.skip(1)); } } } }
pub proof fn lemma_sub_ok<V>(h: Map<int, node<V>>, t: T<V>, k: Seq<int>)
  requires okt(h, t), k.len() > 0
  ensures okt(h, sub(t, k))
  decreases t
{ match t { T::E => {}, T::N { c, l, m, r, .. } => { if k[0] < c { lemma_sub_ok(h, *l, k); } else if k[0] > c { lemma_sub_ok(h, *r, k); } else if k.len() > 1 { lemma_sub_ok(h, *m, k.skip(1)); } } } }
pub open spec fn starts(k: Seq<int>, p: Seq<int>) -> bool { k.len() >= p.len() && k.take(p.len() as int) == p }
// the keys that start with p
pub open spec fn with_prefix<V>(t: T<V>, p: Seq<int>) -> Seq<Seq<int>> { (if val_of(sub(t, p)) is Some { seq![p] } else { Seq::empty() }) + pre(p, keys(ch(sub(t, p), 1))) }
pub proof fn lemma_with_prefix<V>(t: T<V>, p: Seq<int>)
  requires bst(t, -1, 256), p.len() > 0
  ensures ({ let q = with_prefix(t, p); sorted(q) && (forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() > 0 && look(t, q[i]) is Some && starts(q[i], p)) && (forall|k: Seq<int>| k.len() > 0 && #[trigger] look(t, k) is Some && starts(k, p) ==> q.contains(k)) })
{
  let q = with_prefix(t, p); let m = ch(sub(t, p), 1); let qm = keys(m); let n1 = if look(t, p) is Some { 1int } else { 0 };
  lemma_sub_bst(t, -1, 256, p); lemma_keys(m, -1, 256);
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() > 0 && look(t, q[i]) is Some && starts(q[i], p) && (i < n1 ==> q[i] == p) && (i >= n1 ==> q[i] == p + qm[i - n1]) by {
    if i >= n1 { assert(q[i] == p + qm[i - n1]); lemma_sub(t, p, qm[i - n1]); assert(q[i].take(p.len() as int) =~= p); } else { assert(p.take(p.len() as int) =~= p); }
  }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies slt(#[trigger] q[i], #[trigger] q[j]) by {
    if i >= n1 { lemma_slt_pre(p, qm[i - n1], qm[j - n1]); } else { let e = Seq::<int>::empty(); assert(slt(e, qm[j - n1])); lemma_slt_pre(p, e, qm[j - n1]); assert(p + e =~= p); }
  }
  assert forall|k: Seq<int>| k.len() > 0 && #[trigger] look(t, k) is Some && starts(k, p) implies q.contains(k) by {
    if k.len() == p.len() { assert(k =~= k.take(p.len() as int)); assert(q[0] == k); }
    else { let z = k.skip(p.len() as int); assert(k =~= p + z); lemma_sub(t, p, z); assert(look(m, z) is Some); let i = qm.index_of(z); assert(q[n1 + i] == k); }
  }
}
// one step down, while matching q from position i
pub proof fn lemma_step<V>(t: T<V>, x: T<V>, q: Seq<int>, i: int)
  requires 0 <= i < q.len(), x is N, forall|j: int| i < j <= q.len() ==> #[trigger] look(t, q.take(j)) == look(x, q.take(j).skip(i))
  ensures ({ let y = ch(x, step(x, q.skip(i))); if step(x, q.skip(i)) == 1 { look(t, q.take(i + 1)) == val_of(x) && (forall|j: int| i + 1 < j <= q.len() ==> #[trigger] look(t, q.take(j)) == look(y, q.take(j).skip(i + 1))) } else { forall|j: int| i < j <= q.len() ==> #[trigger] look(t, q.take(j)) == look(y, q.take(j).skip(i)) } })
{
  let y = ch(x, step(x, q.skip(i)));
  assert forall|j: int| i < j <= q.len() implies #[trigger] look(t, q.take(j)) == (if step(x, q.skip(i)) == 1 { if j == i + 1 { val_of(x) } else { look(y, q.take(j).skip(i + 1)) } } else { look(y, q.take(j).skip(i)) }) by {
    let k = q.take(j).skip(i); assert(k[0] == q[i] && q.skip(i)[0] == q[i]); assert(k.skip(1) =~= q.take(j).skip(i + 1));
    assert(look(t, q.take(j)) == look(x, k));
  }
}
pub open spec fn arr_grown<A>(m0: Map<int, Seq<A>>, m: Map<int, Seq<A>>, a: int, r: int) -> bool {
  (r == a || (r != 0 && !m0.dom().contains(r))) && m[0] == m0[0] && (forall|x: int| #[trigger] m0.dom().contains(x) ==> m.dom().contains(x) && (x != a ==> m[x] == m0[x]))
}
pub proof fn lemma_arr_grown<A>(m0: Map<int, Seq<A>>, m1: Map<int, Seq<A>>, m: Map<int, Seq<A>>, a: int, b: int, r: int)
  requires arr_grown(m0, m1, a, b), arr_grown(m1, m, b, r)
  ensures arr_grown(m0, m, a, r)
{ assert forall|x: int| #[trigger] m0.dom().contains(x) implies m.dom().contains(x) && (x != a ==> m[x] == m0[x]) by { assert(m1.dom().contains(x)); } }
// the array a may have changed from position e on
pub open spec fn arr_tail(m0: Map<int, Seq<int>>, m: Map<int, Seq<int>>, a: int, e: int) -> bool {
  m[0] == m0[0] && (forall|x: int| #[trigger] m0.dom().contains(x) ==> m.dom().contains(x) && (x != a ==> m[x] == m0[x])) && m[a].len() == m0[a].len() && (forall|i: int| 0 <= i < e && i < m0[a].len() ==> #[trigger] m[a][i] == m0[a][i])
}
pub proof fn lemma_arr_tail(m0: Map<int, Seq<int>>, m: Map<int, Seq<int>>, p: Slice)
  requires slwf(m0, p), arr_tail(m0, m, p.arr, p.off + p.len)
  ensures slwf(m, p), sv(m, p) =~= sv(m0, p)
{ }

@func node.isUnused (n) (r)
@requires n != 0
@ensures r == (!s.node[n].valid && s.node[n].mid == 0)

@func node.minChild (n) (r)
@requires ok(s.node, n)
@ensures n == 0 ==> r == 0
@ensures n != 0 ==> r != 0 && is(s.node, r, mn(tree(s.node, n)))
@entry let t = tree(s.node, n); let mut x = t;
@loop 1
@invariant v_n != 0 && is(s.node, v_n, x) && mn(x) == mn(t)
@loopentry lemma_kids(s.node, x);
@loopbody x = ch(x, 0);
@loopexit lemma_kids(s.node, x);
@decreases num(x)

@func node.deleteMinChild (n) (r)
@decreases num(tree(s.node, n))
@requires ok(s.node, n)
@ensures ok(s.node, r) && tree(s.node, r) == dmin(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@ensures n != 0 ==> ({ let q = mn(tree(s0.node, n)); s.node[root(q)] == s0.node[root(q)] && forall|x: int| #[trigger] inn(ch(q, 1), x) ==> s.node[x] == s0.node[x] })
@entry let m0 = s.node; let t = tree(m0, n); lemma_kids(m0, t); let mut ma = m0; if n == 0 { lemma_is(m0, 0, T::E); } else { lemma_open(m0, n); lemma_mn(m0, t); if !(ch(t, 0) is E) { lemma_mn(m0, ch(t, 0)); } }
@after node.deleteMinChild#1 ma = s.node;
@exit if n != 0 && !(ch(t, 0) is E) { let u = dmin(ch(t, 0)); lemma_child(m0, m0, ma, n, t, t, 0, u); assert(s.node =~= ma.insert(n, setch(ma[n], 0, root(u)))); assert(dmin(t) == wc(t, 0, u)); }

@func node.delete (n) (r)
@requires ok(s.node, n)
@ensures ok(s.node, r) && tree(s.node, r) == cut(tree(s0.node, n))
@ensures frame(s0.node, s.node, tree(s0.node, n)) && grown(s0.node, tree(s0.node, n), tree(s.node, r))
@entry let m0 = s.node; let t = tree(m0, n); lemma_kids(m0, t); let mut ma = m0; if n == 0 { lemma_is(m0, 0, T::E); } else { lemma_open(m0, n); if !(ch(t, 2) is E) { lemma_mn(m0, ch(t, 2)); } }
@after node.deleteMinChild#1 ma = s.node;
@exit if n != 0 && !(ch(t, 0) is E) && !(ch(t, 2) is E) { let q = mn(ch(t, 2)); let a = root(q); let d = dmin(ch(t, 2)); let w = cut(t); let l = ch(t, 0); let qm = ch(q, 1); lemma_kids(m0, q); assert(okt(ma, d)); lemma_dom(ma, d); assert(inn(ch(t, 2), a)); assert(s.node =~= ma.insert(a, node { left: root(l), right: root(d), ..m0[a] })); assert forall|x: int| #[trigger] inn(d, x) implies s.node.dom().contains(x) && s.node[x] == ma[x] by { } lemma_keep(ma, s.node, d); assert forall|x: int| #[trigger] inn(l, x) implies s.node.dom().contains(x) && s.node[x] == m0[x] by { assert(!inn(ch(t, 2), x)); assert(inn(ch(t, 0), x)); } lemma_keep(m0, s.node, l); assert forall|x: int| #[trigger] inn(qm, x) implies s.node.dom().contains(x) && s.node[x] == m0[x] by { assert(inn(ch(t, 2), x)); } lemma_keep(m0, s.node, qm); assert forall|x: int| !(#[trigger] inn(l, x) && #[trigger] inn(qm, x)) by { if inn(qm, x) { assert(inn(ch(t, 2), x)); } } assert forall|x: int| !(#[trigger] inn(l, x) && #[trigger] inn(d, x)) by { if inn(d, x) { assert(inn(ch(t, 2), x)); } } assert(okt(s.node, *w->N_l) && okt(s.node, *w->N_m) && okt(s.node, *w->N_r)); assert(okt(s.node, w)); lemma_is(s.node, r, w); assert forall|x: int| #[trigger] inn(w, x) implies inn(t, x) by { if x == a { } else if inn(l, x) { assert(inn(ch(t, 0), x)); } else if inn(qm, x) { assert(inn(ch(t, 2), x)); } else { assert(inn(d, x)); assert(inn(ch(t, 2), x)); } } assert(inn(t, a)); }

@func New () (r)
@ensures wf(s, r) && s.Trie[r].n == 0 && !s0.Trie.dom().contains(r)
@ensures forall|k: Seq<int>| k.len() > 0 ==> #[trigger] get(s, r, k) == None::<V>
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && separate(s, r, q) && tr_of(s, q) == tr_of(s0, q)
@exit lemma_is(s.node, 0, T::E);

@func Trie.Size (p) (n)
@flag prop D01
@requires wf(s, p)
@ensures exists|q: Seq<Seq<int>>| #[trigger] listing(s, p, q) && n == q.len()
@entry lemma_keys(tr_of(s, p), -1, 256); assert(listing(s, p, keys(tr_of(s, p))));

@func Trie.Contains (p, key) (r)
@flag prop D01
@requires wf(s, p)
@ensures r == (key.len() > 0 && get(s, p, key) is Some)

@func Trie.Get (p, key) (v, found)
@flag prop D01
@requires wf(s, p)
@ensures found == (key.len() > 0 && get(s, p, key) is Some)
@ensures v == if found { get(s, p, key)->0 } else { zero::<V>() }
@entry assert(key.skip(0) =~= key); if key.len() > 0 { lemma_sub_ok(s.node, tr_of(s, p), key); lemma_kids(s.node, sub(tr_of(s, p), key)); }

@func Trie.get (p, x, key, d) (r)
@decreases num(tree(s.node, x))
@requires ok(s.node, x) && 0 <= d && (d < key.len() || (d == 0 && key.len() == 0))
@ensures key.len() > 0 ==> is(s.node, r, sub(tree(s.node, x), key.skip(d)))
@ensures key.len() == 0 ==> r == 0
@entry let t = tree(s.node, x); lemma_kids(s.node, t); if x != 0 { lemma_open(s.node, x); } if d + 1 < key.len() { assert(key.skip(d).skip(1) =~= key.skip(d + 1)); }

@func Trie.put (p, x, key, val, d) (r)
@flag prop D01
@decreases key.len() - d, num(tree(s.node, x))
@requires ok(s.node, x) && 0 <= d < key.len() && bytes(key)
@ensures ok(s.node, r) && r != 0 && upd(tree(s0.node, x), tree(s.node, r), key.skip(d), Some(val))
@ensures frame(s0.node, s.node, tree(s0.node, x)) && grown(s0.node, tree(s0.node, x), tree(s.node, r))
@entry let m0 = s.node; let t0 = tree(m0, x); let mut mc = m0; let mut ma = m0; let mut tc = t0; let mut i = 1int; let key2 = key.skip(d); assert(bytes(key2)); if d + 1 < key.len() { assert(key2.skip(1) =~= key.skip(d + 1)); } if x != 0 { lemma_open(m0, x); lemma_kids(m0, t0); } else { lemma_is(m0, 0, T::E); }
@before Trie.put#1 mc = s.node; i = 0;
@after Trie.put#1 ma = s.node;
@before Trie.put#2 mc = s.node; i = 2;
@after Trie.put#2 ma = s.node;
@before Trie.put#3 mc = s.node; if x == 0 { lemma_single(m0, mc, v_x); tc = tree(mc, v_x); }
@after Trie.put#3 ma = s.node;
@exit if r == x && x != 0 && key2[0] == by(t0) && key2.len() == 1 { lemma_here(m0, m0, s.node, r, t0, t0); lemma_upd_here(t0, r, key2, true, val); } else if key2.len() == 1 && x == 0 { let n0 = node { c: key2[0], left: 0, mid: 0, right: 0, val: zero::<V>(), valid: false }; let mb = m0.insert(r, n0); lemma_single(m0, mb, r); let tb = tree(mb, r); lemma_here(m0, mb, s.node, r, t0, tb); lemma_upd_here(tb, r, key2, true, val); lemma_upd_new(r, tree(s.node, r), key2, Some(val), zero::<V>()); } else { let u = tree(ma, setch_get(s.node[r], i)); lemma_child(m0, mc, ma, r, t0, tc, i, u); assert(s.node =~= ma.insert(r, setch(ma[r], i, root(u)))); lemma_upd_child(tc, u, key2, Some(val)); if x == 0 { lemma_upd_new(r, tree(s.node, r), key2, Some(val), zero::<V>()); } }

@func Trie.Put (p, key, val)
@flag prop D01
@requires wf(s, p) && bytes(key)
@ensures key.len() == 0 ==> s == s0
@ensures wf(s, p) && others_kept(s0, s, p)
@ensures forall|k: Seq<int>| k.len() > 0 ==> #[trigger] get(s, p, k) == if k == key { Some(val) } else { get(s0, p, k) }
@entry assert(key.skip(0) =~= key);
@exit if key.len() > 0 { lemma_kept(s0, s, p); assert(bst(tr_of(s0, p), -1, 256)); assert(0 <= key[0] <= 255); }

@func Trie.remove (p, x, key, d) (r)
@flag prop D01
@decreases num(tree(s.node, x))
@requires ok(s.node, x) && 0 <= d < key.len() && bytes(key) && bst(tree(s.node, x), -1, 256)
@ensures ok(s.node, r) && upd(tree(s0.node, x), tree(s.node, r), key.skip(d), None)
@ensures frame(s0.node, s.node, tree(s0.node, x)) && grown(s0.node, tree(s0.node, x), tree(s.node, r))
@entry let m0 = s.node; let t0 = tree(m0, x); let mut ma = m0; let mut mb = m0; let mut tb = t0; let mut i = 1int; let key2 = key.skip(d); assert(bytes(key2)); if d + 1 < key.len() { assert(key2.skip(1) =~= key.skip(d + 1)); } if x != 0 { lemma_open(m0, x); lemma_kids(m0, t0); lemma_bst_wide(ch(t0, 0), -1, by(t0), -1, 256); lemma_bst_wide(ch(t0, 2), by(t0), 256, -1, 256); } else { lemma_is(m0, 0, T::E); }
@before Trie.remove#1 i = 0;
@after Trie.remove#1 ma = s.node;
@before Trie.remove#2 i = 2;
@after Trie.remove#2 ma = s.node;
@after Trie.remove#3 ma = s.node;
@before node.isUnused#1 mb = s.node; if key2[0] == by(t0) && key2.len() == 1 { lemma_here(m0, m0, mb, x, t0, t0); lemma_upd_here(t0, x, key2, false, mb[x].val); } else { let u = tree(ma, setch_get(mb[x], i)); lemma_child(m0, m0, ma, x, t0, t0, i, u); assert(mb =~= ma.insert(x, setch(ma[x], i, root(u)))); lemma_upd_child(t0, u, key2, None); } tb = tree(mb, x); lemma_open(mb, x); lemma_kids(mb, tb); assert(bst(t0, -1, 256)); assert(bst(tb, -1, 256)); if !tb->N_b && ch(tb, 1) is E { lemma_cut(tb, key2); lemma_upd_trans(t0, tb, cut(tb), key2); }
@exit if x != 0 { lemma_trans(m0, mb, s.node, t0, tb, tree(s.node, r)); }

@func Trie.Remove (p, key)
@flag prop D01
@requires wf(s, p) && bytes(key)
@ensures wf(s, p) && others_kept(s0, s, p)
@ensures forall|k: Seq<int>| k.len() > 0 ==> #[trigger] get(s, p, k) == if k == key { None } else { get(s0, p, k) }
@entry assert(key.skip(0) =~= key); lemma_kids(s.node, tr_of(s, p));
@exit if key.len() > 0 { lemma_trans(s0.node, s0.node, s0.node, tr_of(s0, p), tr_of(s0, p), tr_of(s0, p)); assert(bst(tr_of(s0, p), -1, 256)); lemma_kept(s0, s, p); }

@func Trie.LongestPrefix (p, query) (r)
@flag prop D02
@requires wf(s, p)
@ensures r.len() <= query.len() && r == query.take(r.len() as int)
@ensures r.len() > 0 ==> get(s, p, r) is Some
@ensures forall|j: int| r.len() < j <= query.len() ==> #[trigger] get(s, p, query.take(j)) == None::<V>
@entry let t = tr_of(s, p); let mut x = t; assert forall|j: int| 0 < j <= query.len() implies #[trigger] look(t, query.take(j)) == look(x, query.take(j).skip(0)) by { assert(query.take(j).skip(0) =~= query.take(j)); }
@loop 1
@invariant 0 <= v_length <= v_i <= query.len() && v_query == query && is(s.node, v_x, x)
@invariant v_length > 0 ==> look(t, query.take(v_length)) is Some
@invariant forall|j: int| v_length < j <= v_i ==> #[trigger] look(t, query.take(j)) == None::<V>
@invariant forall|j: int| v_i < j <= query.len() ==> #[trigger] look(t, query.take(j)) == look(x, query.take(j).skip(v_i))
@loopentry lemma_kids(s.node, x); let x1 = x; let i1 = v_i; lemma_step(t, x, query, v_i);
@loopbody x = ch(x1, step(x1, query.skip(i1)));
@loopexit assert forall|j: int| v_i < j <= query.len() implies #[trigger] look(t, query.take(j)) == None::<V> by { assert(x is E); }
@decreases num(x)

@func Trie.collect (p, x, prefix, queue) (r)
@flag prop D02
@decreases num(tree(s.node, x))
@requires ok(s.node, x) && slwf(s.arr_int, prefix) && slwf(s.arr_Seq_int, queue)
@ensures slwf(s.arr_Seq_int, r) && sv(s.arr_Seq_int, r) == sv(s0.arr_Seq_int, queue) + pre(sv(s0.arr_int, prefix), keys(tree(s.node, x)))
@ensures s.node == s0.node && s.Trie == s0.Trie
@ensures arr_grown(s0.arr_Seq_int, s.arr_Seq_int, queue.arr, r.arr)
@ensures arr_tail(s0.arr_int, s.arr_int, prefix.arr, prefix.off + prefix.len)
@entry let t = tree(s.node, x); lemma_kids(s.node, t); if x != 0 { lemma_open(s.node, x); lemma_collect(t, sv(s.arr_int, prefix)); } let pp = sv(s.arr_int, prefix); assert(pp.push(by(t)) =~= pp + seq![by(t)]); let w0 = sv(s.arr_Seq_int, queue);
@after Trie.collect#1 lemma_arr_tail(s0.arr_int, s.arr_int, prefix);
@before append let b1 = s;
@after append assert(arr_tail(s0.arr_int, s.arr_int, prefix.arr, prefix.off + prefix.len)); lemma_arr_tail(s0.arr_int, s.arr_int, prefix);
@before Trie.collect#2 assert(arr_grown(s0.arr_Seq_int, s.arr_Seq_int, queue.arr, v_queue.arr)); let w2 = sv(s.arr_Seq_int, v_queue); assert(w2 =~= w0 + pre(pp, keys(ch(t, 0))) + (if t->N_b { seq![pp.push(by(t))] } else { Seq::empty() }));
@after Trie.collect#2 assert(arr_tail(s0.arr_int, s.arr_int, prefix.arr, prefix.off + prefix.len)); lemma_arr_tail(s0.arr_int, s.arr_int, prefix);
@before Trie.collect#3 assert(arr_grown(s0.arr_Seq_int, s.arr_Seq_int, queue.arr, v_queue.arr)); let w3 = sv(s.arr_Seq_int, v_queue); assert(w3 =~= w2 + pre(pp.push(by(t)), keys(ch(t, 1))));
@exit assert(sv(s.arr_Seq_int, r) =~= sv(s0.arr_Seq_int, queue) + pre(sv(s0.arr_int, prefix), keys(t)));

@func Trie.Keys (p) (r)
@flag prop D02
@requires wf(s, p)
@ensures slwf(s.arr_Seq_int, r) && listing(s, p, sv(s.arr_Seq_int, r))
@ensures s.node == s0.node && s.Trie == s0.Trie && arr_grown(s0.arr_Seq_int, s.arr_Seq_int, 0, r.arr)
@exit lemma_keys(tr_of(s, p), -1, 256); assert(sv(s.arr_Seq_int, r) =~= keys(tr_of(s, p))) by { let e = Seq::<int>::empty(); let q = keys(tr_of(s, p)); assert forall|i: int| 0 <= i < q.len() implies #[trigger] pre(e, q)[i] == q[i] by { assert(e + q[i] =~= q[i]); } assert(sv(s0.arr_int, nil_slice()) =~= e); assert(pre(e, q) =~= q); }

@func Trie.KeysWithPrefix (p, prefix) (r)
@flag prop D02
@requires wf(s, p)
@ensures slwf(s.arr_Seq_int, r) && ({ let q = sv(s.arr_Seq_int, r); sorted(q) && (forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() > 0 && get(s, p, q[i]) is Some && starts(q[i], prefix)) && (forall|k: Seq<int>| k.len() > 0 && #[trigger] get(s, p, k) is Some && starts(k, prefix) ==> q.contains(k)) })
@ensures s.node == s0.node && s.Trie == s0.Trie && arr_grown(s0.arr_Seq_int, s.arr_Seq_int, 0, r.arr)
@entry let mut g1 = s; let mut gq = 0int; let t = tr_of(s, p); assert(prefix.skip(0) =~= prefix); if prefix.len() > 0 { lemma_with_prefix(t, prefix); lemma_sub_ok(s.node, t, prefix); lemma_kids(s.node, sub(t, prefix)); }
@before Trie.collect g1 = s; gq = v_queue.arr; assert(arr_grown(s0.arr_Seq_int, g1.arr_Seq_int, 0, v_queue.arr));
@exit lemma_arr_grown(s0.arr_Seq_int, g1.arr_Seq_int, s.arr_Seq_int, 0, gq, r.arr); if prefix.len() > 0 { assert(sv(s.arr_Seq_int, r) =~= with_prefix(t, prefix)); } else { let q = sv(s.arr_Seq_int, r); assert forall|i: int| 0 <= i < q.len() implies starts(#[trigger] q[i], prefix) by { assert(q[i].take(0) =~= prefix); } }
