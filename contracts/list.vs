@state V
@prelude
// q lists the nodes of l from front to back and every link agrees with it
pub open spec fn isseq<V>(s: S<V>, l: int, q: Seq<int>) -> bool {
  &&& q.no_duplicates()
  &&& forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != 0 && s.Node.dom().contains(q[i])
  &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] s.Node[q[i]]).Next == (if i + 1 < q.len() { q[i + 1] } else { 0 })
  &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] s.Node[q[i]]).Prev == (if i > 0 { q[i - 1] } else { 0 })
  &&& s.List[l].Front == (if q.len() > 0 { q[0] } else { 0 })
  &&& s.List[l].Back == (if q.len() > 0 { q[q.len() - 1] } else { 0 })
}
pub open spec fn wf<V>(s: S<V>, l: int) -> bool {
  l != 0 && s.List.dom().contains(l) && exists|q: Seq<int>| #[trigger] isseq(s, l, q)
}
pub open spec fn nodes<V>(s: S<V>, l: int) -> Seq<int> { choose|q: Seq<int>| #[trigger] isseq(s, l, q) }
pub open spec fn vals<V>(s: S<V>, q: Seq<int>) -> Seq<V> { Seq::new(q.len(), |i: int| s.Node[q[i]].Value) }
pub open spec fn view<V>(s: S<V>, l: int) -> Seq<V> { vals(s, nodes(s, l)) }

pub proof fn lemma_unique<V>(s: S<V>, l: int, q: Seq<int>)
  requires isseq(s, l, q)
  ensures nodes(s, l) == q
{
  let p = nodes(s, l);
  assert(isseq(s, l, p));
  lemma_prefix(s, l, p, q, if p.len() < q.len() { p.len() as int } else { q.len() as int });
  if p.len() < q.len() { if p.len() > 0 { assert(s.Node[p[p.len() - 1]].Next == 0); assert(s.Node[q[p.len() - 1]].Next == q[p.len() as int]); assert(tk(s.Node[q[p.len() as int]])); } else { assert(tk(s.Node[q[0]])); } }
  if q.len() < p.len() { if q.len() > 0 { assert(s.Node[q[q.len() - 1]].Next == 0); assert(s.Node[p[q.len() - 1]].Next == p[q.len() as int]); assert(tk(s.Node[p[q.len() as int]])); } else { assert(tk(s.Node[p[0]])); } }
  assert(p =~= q);
}

pub proof fn lemma_prefix<V>(s: S<V>, l: int, p: Seq<int>, q: Seq<int>, k: int)
  requires isseq(s, l, p), isseq(s, l, q), 0 <= k <= p.len(), k <= q.len()
  ensures forall|i: int| 0 <= i < k ==> p[i] == q[i]
  decreases k
{
  if k > 0 {
    lemma_prefix(s, l, p, q, k - 1);
    if k > 1 {
      assert(s.Node[p[k - 2]].Next == p[k - 1]);
      assert(s.Node[q[k - 2]].Next == q[k - 1]);
    }
  }
}

// frame: what an operation on the nodes of l (and the extra node x) leaves alone
pub open spec fn kept<V>(s0: S<V>, s: S<V>, l: int, x: int) -> bool {
  &&& s.List =~= s0.List.insert(l, s.List[l])
  &&& forall|n: int| s0.Node.dom().contains(n) ==> #[trigger] s.Node.dom().contains(n)
  &&& forall|n: int| s0.Node.dom().contains(n) && n != x && !nodes(s0, l).contains(n) ==> #[trigger] s.Node[n] == s0.Node[n]
  &&& forall|n: int| s0.Node.dom().contains(n) ==> (#[trigger] s.Node[n]).Value == s0.Node[n].Value
}

// another list that shares no node with l and does not hold x is undisturbed
pub proof fn lemma_frame<V>(s0: S<V>, s: S<V>, l: int, x: int, o: int)
  requires kept(s0, s, l, x), wf(s0, o), o != l, !nodes(s0, o).contains(x),
    forall|n: int| #[trigger] nodes(s0, o).contains(n) ==> !nodes(s0, l).contains(n)
  ensures wf(s, o), nodes(s, o) == nodes(s0, o), view(s, o) == view(s0, o)
{
  let q = nodes(s0, o);
  assert(isseq(s0, o, q));
  assert forall|i: int| 0 <= i < q.len() implies s.Node[q[i]] == s0.Node[q[i]] && s.Node.dom().contains(q[i]) by {
    assert(q.contains(q[i]));
    assert(tk(s0.Node[q[i]]));
  }
  assert(isseq(s, o, q));
  lemma_unique(s, o, q);
  assert(view(s, o) =~= view(s0, o));
}

// forward and backward chains from a node
pub open spec fn isfwd<V>(s: S<V>, n: int, q: Seq<int>) -> bool {
  &&& n == (if q.len() > 0 { q[0] } else { 0 })
  &&& forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != 0
  &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] s.Node[q[i]]).Next == (if i + 1 < q.len() { q[i + 1] } else { 0 })
}
pub open spec fn isbwd<V>(s: S<V>, n: int, q: Seq<int>) -> bool {
  &&& n == (if q.len() > 0 { q[0] } else { 0 })
  &&& forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != 0
  &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] s.Node[q[i]]).Prev == (if i + 1 < q.len() { q[i + 1] } else { 0 })
}
pub open spec fn fwd_ok<V>(s: S<V>, n: int) -> bool { exists|q: Seq<int>| #[trigger] isfwd(s, n, q) }
pub open spec fn bwd_ok<V>(s: S<V>, n: int) -> bool { exists|q: Seq<int>| #[trigger] isbwd(s, n, q) }
pub open spec fn fwd<V>(s: S<V>, n: int) -> Seq<int> { choose|q: Seq<int>| #[trigger] isfwd(s, n, q) }
pub open spec fn bwd<V>(s: S<V>, n: int) -> Seq<int> { choose|q: Seq<int>| #[trigger] isbwd(s, n, q) }

pub proof fn lemma_fwd_unique<V>(s: S<V>, n: int, p: Seq<int>, q: Seq<int>)
  requires isfwd(s, n, p), isfwd(s, n, q)
  ensures p == q
  decreases p.len()
{
  if p.len() > 0 {
    assert(s.Node[p[0]].Next == s.Node[q[0]].Next);
    let p1 = p.skip(1); let q1 = q.skip(1);
    assert forall|i: int| 0 <= i < p1.len() implies (#[trigger] s.Node[p1[i]]).Next == (if i + 1 < p1.len() { p1[i + 1] } else { 0 }) by { assert(s.Node[p[i + 1]] == s.Node[p1[i]]); }
    assert forall|i: int| 0 <= i < q1.len() implies (#[trigger] s.Node[q1[i]]).Next == (if i + 1 < q1.len() { q1[i + 1] } else { 0 }) by { assert(s.Node[q[i + 1]] == s.Node[q1[i]]); }
    if p.len() > 1 { assert(tk(s.Node[p[1]])); }
    if q.len() > 1 { assert(tk(s.Node[q[1]])); }
    assert(q.len() > 0);
    assert(s.Node[p[0]].Next == (if p1.len() > 0 { p1[0] } else { 0 }));
    assert(s.Node[q[0]].Next == (if q1.len() > 0 { q1[0] } else { 0 }));
    assert(isfwd(s, s.Node[p[0]].Next, p1));
    assert(isfwd(s, s.Node[p[0]].Next, q1));
    lemma_fwd_unique(s, s.Node[p[0]].Next, p1, q1);
    assert(p =~= seq![p[0]] + p1);
    assert(q =~= seq![q[0]] + q1);
  } else {
    if q.len() > 0 { assert(tk(s.Node[q[0]])); }
    assert(p =~= q);
  }
}
pub proof fn lemma_bwd_unique<V>(s: S<V>, n: int, p: Seq<int>, q: Seq<int>)
  requires isbwd(s, n, p), isbwd(s, n, q)
  ensures p == q
  decreases p.len()
{
  if p.len() > 0 {
    assert(s.Node[p[0]].Prev == s.Node[q[0]].Prev);
    let p1 = p.skip(1); let q1 = q.skip(1);
    assert forall|i: int| 0 <= i < p1.len() implies (#[trigger] s.Node[p1[i]]).Prev == (if i + 1 < p1.len() { p1[i + 1] } else { 0 }) by { assert(s.Node[p[i + 1]] == s.Node[p1[i]]); }
    assert forall|i: int| 0 <= i < q1.len() implies (#[trigger] s.Node[q1[i]]).Prev == (if i + 1 < q1.len() { q1[i + 1] } else { 0 }) by { assert(s.Node[q[i + 1]] == s.Node[q1[i]]); }
    if p.len() > 1 { assert(tk(s.Node[p[1]])); }
    if q.len() > 1 { assert(tk(s.Node[q[1]])); }
    assert(q.len() > 0);
    assert(s.Node[p[0]].Prev == (if p1.len() > 0 { p1[0] } else { 0 }));
    assert(s.Node[q[0]].Prev == (if q1.len() > 0 { q1[0] } else { 0 }));
    assert(isbwd(s, s.Node[p[0]].Prev, p1));
    assert(isbwd(s, s.Node[p[0]].Prev, q1));
    lemma_bwd_unique(s, s.Node[p[0]].Prev, p1, q1);
    assert(p =~= seq![p[0]] + p1);
    assert(q =~= seq![q[0]] + q1);
  } else {
    if q.len() > 0 { assert(tk(s.Node[q[0]])); }
    assert(p =~= q);
  }
}

// walking from a member of a list visits the rest of the list
pub proof fn lemma_walk<V>(s: S<V>, l: int, i: int)
  requires wf(s, l), 0 <= i <= nodes(s, l).len()
  ensures
    ({ let q = nodes(s, l); let n = if i < q.len() { q[i] } else { 0 }; isfwd(s, n, q.skip(i)) && fwd_ok(s, n) && fwd(s, n) == q.skip(i) }),
    ({ let q = nodes(s, l); let n = if i > 0 { q[i - 1] } else { 0 }; isbwd(s, n, q.take(i).reverse()) && bwd_ok(s, n) && bwd(s, n) == q.take(i).reverse() }),
{
  let q = nodes(s, l);
  assert(isseq(s, l, q));
  let a = q.skip(i);
  let n = if i < q.len() { q[i] } else { 0 };
  assert forall|j: int| 0 <= j < a.len() implies (#[trigger] s.Node[a[j]]).Next == (if j + 1 < a.len() { a[j + 1] } else { 0 }) by { assert(s.Node[q[i + j]] == s.Node[a[j]]); }
  assert(isfwd(s, n, a));
  lemma_fwd_unique(s, n, fwd(s, n), a);
  let b = q.take(i).reverse();
  let m = if i > 0 { q[i - 1] } else { 0 };
  assert forall|j: int| 0 <= j < b.len() implies (#[trigger] s.Node[b[j]]).Prev == (if j + 1 < b.len() { b[j + 1] } else { 0 }) by { assert(b[j] == q[i - 1 - j]); assert(s.Node[q[i - 1 - j]] == s.Node[b[j]]); if j + 1 < b.len() { assert(b[j + 1] == q[i - 2 - j]); } }
  assert(isbwd(s, m, b));
  lemma_bwd_unique(s, m, bwd(s, m), b);
}

@func New () (l)
@ensures wf(s, l) && nodes(s, l) == Seq::<int>::empty() && view(s, l) == Seq::<V>::empty()
@ensures !s0.List.dom().contains(l) && s.List =~= s0.List.insert(l, s.List[l])
@exit assert(isseq(s, l, Seq::empty())); lemma_unique(s, l, Seq::empty()); assert(view(s, l) =~= Seq::<V>::empty());

@func List.PushBack (l, v)
@requires wf(s, l)
@ensures wf(s, l) && view(s, l) == view(s0, l).push(v)
@ensures nodes(s, l).drop_last() == nodes(s0, l) && nodes(s, l).len() == nodes(s0, l).len() + 1
@ensures !s0.Node.dom().contains(nodes(s, l).last())
@ensures kept(s0, s, l, 0)
@before List.PushBackNode
let q = nodes(s0, l); assert(isseq(s0, l, q));
assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.Node[q[i]]) == s0.Node[q[i]] by { assert(s0.Node.dom().contains(q[i])); }
assert(isseq(s, l, q)); lemma_unique(s, l, q);
assert(view(s, l) =~= view(s0, l));
@exit
assert(nodes(s, l).drop_last() =~= nodes(s0, l));

@func List.PushFront (l, v)
@requires wf(s, l)
@ensures wf(s, l) && view(s, l) == seq![v] + view(s0, l)
@ensures nodes(s, l).skip(1) == nodes(s0, l) && nodes(s, l).len() == nodes(s0, l).len() + 1
@ensures !s0.Node.dom().contains(nodes(s, l)[0])
@ensures kept(s0, s, l, 0) && kept(s0, s, l, nodes(s, l)[0])
@before List.PushFrontNode
let q = nodes(s0, l); assert(isseq(s0, l, q));
assert forall|i: int| 0 <= i < q.len() implies (#[trigger] s.Node[q[i]]) == s0.Node[q[i]] by { assert(s0.Node.dom().contains(q[i])); }
assert(isseq(s, l, q)); lemma_unique(s, l, q);
assert(view(s, l) =~= view(s0, l));
@exit
assert(nodes(s, l).skip(1) =~= nodes(s0, l));

@func List.PushBackNode (l, n)
@requires wf(s, l) && n != 0 && s.Node.dom().contains(n) && !nodes(s, l).contains(n)
@ensures wf(s, l) && nodes(s, l) == nodes(s0, l).push(n)
@ensures view(s, l) == view(s0, l).push(s0.Node[n].Value)
@ensures kept(s0, s, l, n)
@exit
let q0 = nodes(s0, l); let q = q0.push(n); assert(isseq(s0, l, q0));
assert(forall|i: int| 0 <= i < q0.len() ==> s0.Node[#[trigger] q0[i]] == s0.Node[q[i]]);
assert(forall|i: int| 0 <= i < q0.len() ==> q0.contains(#[trigger] q[i]));
assert(isseq(s, l, q)); lemma_unique(s, l, q);
assert(view(s, l) =~= view(s0, l).push(s0.Node[n].Value));

@func List.PushFrontNode (l, n)
@requires wf(s, l) && n != 0 && s.Node.dom().contains(n) && !nodes(s, l).contains(n)
@ensures wf(s, l) && nodes(s, l) == seq![n] + nodes(s0, l)
@ensures view(s, l) == seq![s0.Node[n].Value] + view(s0, l)
@ensures kept(s0, s, l, n)
@exit
let q0 = nodes(s0, l); let q = seq![n] + q0; assert(isseq(s0, l, q0));
assert(forall|i: int| 0 < i < q.len() ==> q0.contains(#[trigger] q[i]) && q[i] == q0[i - 1]);
assert(forall|i: int| 0 < i < q.len() ==> s0.Node[q0[i - 1]] == s0.Node[#[trigger] q[i]]);
assert(isseq(s, l, q)); lemma_unique(s, l, q);
assert(view(s, l) =~= seq![s0.Node[n].Value] + view(s0, l));

@func List.InsertAfter (l, n, x) (r)
@requires wf(s, l) && nodes(s, l).contains(n) && x != 0 && s.Node.dom().contains(x) && !nodes(s, l).contains(x)
@ensures r == x && wf(s, l)
@ensures nodes(s, l) == nodes(s0, l).insert(nodes(s0, l).index_of(n) + 1, x)
@ensures view(s, l) == view(s0, l).insert(nodes(s0, l).index_of(n) + 1, s0.Node[x].Value)
@ensures kept(s0, s, l, x)
@entry
let q0 = nodes(s0, l); let k = q0.index_of(n); assert(isseq(s0, l, q0)); assert(q0[k] == n);
assert(s0.Node[q0[k]] == s0.Node[n]);
if k + 1 < q0.len() { assert(tk(s0.Node[q0[k + 1]])); assert(q0.contains(q0[k + 1])); }
@exit
let q = q0.insert(k + 1, x);
assert(forall|i: int| 0 <= i < q.len() && i != k + 1 ==> q0.contains(#[trigger] q[i]) && q[i] == q0[if i <= k { i } else { i - 1 }]);
assert(forall|i: int| 0 <= i < q.len() && i != k + 1 ==> s0.Node[q0[if i <= k { i } else { i - 1 }]] == s0.Node[#[trigger] q[i]]);
assert(isseq(s, l, q)); lemma_unique(s, l, q);
assert(view(s, l) =~= view(s0, l).insert(k + 1, s0.Node[x].Value));

@func List.InsertBefore (l, n, x) (r)
@requires wf(s, l) && nodes(s, l).contains(n) && x != 0 && s.Node.dom().contains(x) && !nodes(s, l).contains(x)
@ensures r == x && wf(s, l)
@ensures nodes(s, l) == nodes(s0, l).insert(nodes(s0, l).index_of(n), x)
@ensures view(s, l) == view(s0, l).insert(nodes(s0, l).index_of(n), s0.Node[x].Value)
@ensures kept(s0, s, l, x)
@entry
let q0 = nodes(s0, l); let k = q0.index_of(n); assert(isseq(s0, l, q0)); assert(q0[k] == n);
assert(s0.Node[q0[k]] == s0.Node[n]);
if k > 0 { assert(tk(s0.Node[q0[k - 1]])); assert(q0.contains(q0[k - 1])); }
@exit
let q = q0.insert(k, x);
assert(forall|i: int| 0 <= i < q.len() && i != k ==> q0.contains(#[trigger] q[i]) && q[i] == q0[if i < k { i } else { i - 1 }]);
assert(forall|i: int| 0 <= i < q.len() && i != k ==> s0.Node[q0[if i < k { i } else { i - 1 }]] == s0.Node[#[trigger] q[i]]);
assert(isseq(s, l, q)); lemma_unique(s, l, q);
assert(view(s, l) =~= view(s0, l).insert(k, s0.Node[x].Value));

@func List.Remove (l, n)
@requires wf(s, l) && nodes(s, l).contains(n)
@ensures wf(s, l)
@ensures nodes(s, l) == nodes(s0, l).remove(nodes(s0, l).index_of(n))
@ensures view(s, l) == view(s0, l).remove(nodes(s0, l).index_of(n))
@ensures !nodes(s, l).contains(n)
@ensures kept(s0, s, l, n)
@ensures s.Node[n] == s0.Node[n]
@ensures s.Node.dom() == s0.Node.dom()
@entry
let q0 = nodes(s0, l); let k = q0.index_of(n); assert(isseq(s0, l, q0)); assert(q0[k] == n);
assert(s0.Node[q0[k]] == s0.Node[n]);
if k > 0 { assert(tk(s0.Node[q0[k - 1]])); assert(q0.contains(q0[k - 1])); }
if k + 1 < q0.len() { assert(tk(s0.Node[q0[k + 1]])); assert(q0.contains(q0[k + 1])); }
@exit
let q = q0.remove(k);
assert(forall|i: int| 0 <= i < q.len() ==> q0.contains(#[trigger] q[i]) && q[i] == q0[if i < k { i } else { i + 1 }] && q[i] != n);
assert(forall|i: int| 0 <= i < q.len() ==> s0.Node[q0[if i < k { i } else { i + 1 }]] == s0.Node[#[trigger] q[i]]);
assert(isseq(s, l, q)); lemma_unique(s, l, q);
assert(view(s, l) =~= view(s0, l).remove(k));
assert(s.Node.dom() =~= s0.Node.dom());

@func Node.Each (n, fn)
@requires fwd_ok(s, n)
@ensures tr == tr0 + vals(s, fwd(s, n))
@loop 1
@loopbefore
let q = fwd(s, n); let mut k: int = 0; assert(q.skip(0) =~= q); assert(tr =~= tr0 + vals(s, q).take(0));
@invariant 0 <= tr.len() - tr0.len() <= q.len() && isfwd(s, n, q)
@invariant v_node == (if tr.len() - tr0.len() < q.len() { q[tr.len() - tr0.len()] } else { 0 })
@invariant tr == tr0 + vals(s, q).take(tr.len() - tr0.len())
@decreases q.len() - (tr.len() - tr0.len())
@loopentry let trb = tr;
@loopend
assert(tk(s.Node[q[trb.len() - tr0.len()]]));
assert(tr =~= tr0 + vals(s, q).take(tr.len() - tr0.len()));
@loopexit
if v_node == 0 && tr.len() - tr0.len() < q.len() { assert(s.Node[q[tr.len() - tr0.len()]] == s.Node[0]); }
assert(tr =~= tr0 + vals(s, q));

@func Node.EachReverse (n, fn)
@requires bwd_ok(s, n)
@ensures tr == tr0 + vals(s, bwd(s, n))
@loop 1
@loopbefore
let q = bwd(s, n); assert(tr =~= tr0 + vals(s, q).take(0));
@invariant 0 <= tr.len() - tr0.len() <= q.len() && isbwd(s, n, q)
@invariant v_node == (if tr.len() - tr0.len() < q.len() { q[tr.len() - tr0.len()] } else { 0 })
@invariant tr == tr0 + vals(s, q).take(tr.len() - tr0.len())
@decreases q.len() - (tr.len() - tr0.len())
@loopentry let trb = tr;
@loopend
assert(tk(s.Node[q[trb.len() - tr0.len()]]));
assert(tr =~= tr0 + vals(s, q).take(tr.len() - tr0.len()));
@loopexit
if v_node == 0 && tr.len() - tr0.len() < q.len() { assert(s.Node[q[tr.len() - tr0.len()]] == s.Node[0]); }
assert(tr =~= tr0 + vals(s, q));

@func Node.EachNode (n, fn)
@requires fwd_ok(s, n)
@ensures tr == tr0 + fwd(s, n)
@loop 1
@loopbefore
let q = fwd(s, n); assert(tr =~= tr0 + q.take(0));
@invariant 0 <= tr.len() - tr0.len() <= q.len() && isfwd(s, n, q)
@invariant v_node == (if tr.len() - tr0.len() < q.len() { q[tr.len() - tr0.len()] } else { 0 })
@invariant tr == tr0 + q.take(tr.len() - tr0.len())
@decreases q.len() - (tr.len() - tr0.len())
@loopentry let trb = tr;
@loopend
assert(tk(s.Node[q[trb.len() - tr0.len()]]));
assert(tr =~= tr0 + q.take(tr.len() - tr0.len()));
@loopexit
if v_node == 0 && tr.len() - tr0.len() < q.len() { assert(s.Node[q[tr.len() - tr0.len()]] == s.Node[0]); }
assert(tr =~= tr0 + q);

@func Node.EachReverseNode (n, fn)
@requires bwd_ok(s, n)
@ensures tr == tr0 + bwd(s, n)
@loop 1
@loopbefore
let q = bwd(s, n); assert(tr =~= tr0 + q.take(0));
@invariant 0 <= tr.len() - tr0.len() <= q.len() && isbwd(s, n, q)
@invariant v_node == (if tr.len() - tr0.len() < q.len() { q[tr.len() - tr0.len()] } else { 0 })
@invariant tr == tr0 + q.take(tr.len() - tr0.len())
@decreases q.len() - (tr.len() - tr0.len())
@loopentry let trb = tr;
@loopend
assert(tk(s.Node[q[trb.len() - tr0.len()]]));
assert(tr =~= tr0 + q.take(tr.len() - tr0.len()));
@loopexit
if v_node == 0 && tr.len() - tr0.len() < q.len() { assert(s.Node[q[tr.len() - tr0.len()]] == s.Node[0]); }
assert(tr =~= tr0 + q);
