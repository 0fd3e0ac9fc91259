@state V
@counter size, index
@prelude
pub open spec fn ll<V>(s: S<V>, p: int) -> int { s.UList[p].ll }
pub open spec fn nds<V>(s: S<V>, p: int) -> Seq<int> { list::nodes(s.list, s.UList[p].ll) }
pub open spec fn blk<V>(s: S<V>, n: int) -> Seq<V> { sv(s.arr_V, s.list.Node[n].Value) }
pub open spec fn ar<V>(s: S<V>, n: int) -> int { s.list.Node[n].Value.arr }
// the blocks of a list, and their concatenation
pub open spec fn bls<V>(s: S<V>, p: int) -> Seq<Seq<V>> { Seq::new(nds(s, p).len(), |i: int| blk(s, nds(s, p)[i])) }
pub open spec fn flat<V>(b: Seq<Seq<V>>) -> Seq<V> decreases b.len() { if b.len() == 0 { Seq::empty() } else { flat(b.drop_last()) + b.last() } }
pub open spec fn view<V>(s: S<V>, p: int) -> Seq<V> { flat(bls(s, p)) }
pub open spec fn okb<V>(s: S<V>, n: int) -> bool { slwf(s.arr_V, s.list.Node[n].Value) && s.list.Node[n].Value.arr != 0 }
pub open spec fn apart<V>(s: S<V>, q: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] ar(s, q[i]) != #[trigger] ar(s, q[j]) }
pub open spec fn inner<V>(s: S<V>, p: int) -> bool {
  &&& p != 0 && s.UList.dom().contains(p) && list::wf(s.list, ll(s, p)) && 0 <= s.UList[p].entriesPerBlock
  &&& forall|i: int| 0 <= i < nds(s, p).len() ==> #[trigger] okb(s, nds(s, p)[i])
  &&& apart(s, nds(s, p))
}
pub open spec fn filled<V>(b: Seq<Seq<V>>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() > 0 }
pub open spec fn wf<V>(s: S<V>, p: int) -> bool { inner(s, p) && filled(bls(s, p)) && s.UList[p].size == view(s, p).len() }
pub open spec fn owns<V>(s: S<V>, p: int, a: int) -> bool { exists|i: int| 0 <= i < nds(s, p).len() && #[trigger] ar(s, nds(s, p)[i]) == a }
pub open spec fn separate<V>(s: S<V>, p: int, o: int) -> bool {
  &&& p != o && ll(s, p) != ll(s, o)
  &&& forall|n: int| !(#[trigger] nds(s, p).contains(n) && #[trigger] nds(s, o).contains(n))
  &&& forall|a: int| !(#[trigger] owns(s, p, a) && #[trigger] owns(s, o, a))
}
pub open spec fn others_kept<V>(s0: S<V>, s: S<V>, p: int) -> bool {
  forall|o: int| #[trigger] wf(s0, o) && separate(s0, p, o) ==> wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o) && nds(s, o) == nds(s0, o) && bls(s, o) == bls(s0, o) && s.UList[o] == s0.UList[o]
}
// all that a change to p may do to the rest
pub open spec fn moved<V>(s0: S<V>, s: S<V>, p: int) -> bool {
  &&& s.UList.dom() =~= s0.UList.dom() && s.UList[p].ll == s0.UList[p].ll && s.UList[p].entriesPerBlock == s0.UList[p].entriesPerBlock
  &&& forall|o: int| o != p ==> #[trigger] s.UList[o] == s0.UList[o]
  &&& s.list.List =~= s0.list.List.insert(ll(s0, p), s.list.List[ll(s0, p)])
  &&& forall|n: int| #[trigger] s0.list.Node.dom().contains(n) ==> s.list.Node.dom().contains(n) && (n != 0 && !nds(s0, p).contains(n) ==> s.list.Node[n] == s0.list.Node[n])
  &&& forall|n: int| #[trigger] nds(s, p).contains(n) ==> nds(s0, p).contains(n) || !s0.list.Node.dom().contains(n)
  &&& forall|a: int| #[trigger] s0.arr_V.dom().contains(a) ==> s.arr_V.dom().contains(a) && (!owns(s0, p, a) ==> s.arr_V[a] == s0.arr_V[a])
  &&& forall|a: int| #[trigger] owns(s, p, a) ==> owns(s0, p, a) || !s0.arr_V.dom().contains(a)
}
// in the headers, only the size of p changed
pub open spec fn sized<V>(s0: S<V>, s: S<V>, p: int) -> bool { s.UList =~= s0.UList.insert(p, UList { size: s.UList[p].size, ..s0.UList[p] }) }
pub proof fn lemma_moved<V>(s0: S<V>, s1: S<V>, s: S<V>, p: int)
  requires moved(s0, s1, p), moved(s1, s, p)
  ensures moved(s0, s, p)
{
  assert forall|n: int| #[trigger] s0.list.Node.dom().contains(n) implies s.list.Node.dom().contains(n) && (n != 0 && !nds(s0, p).contains(n) ==> s.list.Node[n] == s0.list.Node[n]) by { assert(s1.list.Node.dom().contains(n)); if !nds(s0, p).contains(n) { assert(!nds(s1, p).contains(n)); } }
  assert forall|n: int| #[trigger] nds(s, p).contains(n) implies nds(s0, p).contains(n) || !s0.list.Node.dom().contains(n) by { if s0.list.Node.dom().contains(n) { assert(s1.list.Node.dom().contains(n)); assert(nds(s1, p).contains(n)); } }
  assert forall|a: int| #[trigger] s0.arr_V.dom().contains(a) implies s.arr_V.dom().contains(a) && (!owns(s0, p, a) ==> s.arr_V[a] == s0.arr_V[a]) by { assert(s1.arr_V.dom().contains(a)); if !owns(s0, p, a) { assert(!owns(s1, p, a)); } }
  assert forall|a: int| #[trigger] owns(s, p, a) implies owns(s0, p, a) || !s0.arr_V.dom().contains(a) by { if s0.arr_V.dom().contains(a) { assert(s1.arr_V.dom().contains(a)); assert(owns(s1, p, a)); } }
  assert forall|o: int| o != p implies #[trigger] s.UList[o] == s0.UList[o] by { assert(s1.UList[o] == s0.UList[o]); }
}
pub proof fn lemma_members<V>(s: S<V>, p: int)
  requires inner(s, p)
  ensures list::isseq(s.list, ll(s, p), nds(s, p)), bls(s, p).len() == nds(s, p).len(), s.list.List.dom().contains(ll(s, p)),
    forall|n: int| #[trigger] nds(s, p).contains(n) ==> n != 0 && s.list.Node.dom().contains(n) && okb(s, n) && s.arr_V.dom().contains(ar(s, n)) && owns(s, p, ar(s, n)),
    forall|a: int| #[trigger] owns(s, p, a) ==> s.arr_V.dom().contains(a) && a != 0,
{
  let q = nds(s, p);
  assert forall|n: int| #[trigger] q.contains(n) implies n != 0 && s.list.Node.dom().contains(n) && okb(s, n) && s.arr_V.dom().contains(ar(s, n)) && owns(s, p, ar(s, n)) by { let i = q.index_of(n); assert(q[i] == n); assert(okb(s, q[i])); }
  assert forall|a: int| #[trigger] owns(s, p, a) implies s.arr_V.dom().contains(a) && a != 0 by { let i = choose|i: int| 0 <= i < q.len() && #[trigger] ar(s, q[i]) == a; assert(okb(s, q[i])); }
}
pub proof fn lemma_at<V>(s: S<V>, p: int, i: int)
  requires inner(s, p), 0 <= i < nds(s, p).len()
  ensures ({ let q = nds(s, p); let n = q[i]; q.contains(n) && q.index_of(n) == i && n != 0 && s.list.Node.dom().contains(n) && okb(s, n) && s.arr_V.dom().contains(ar(s, n)) && owns(s, p, ar(s, n)) && bls(s, p)[i] == blk(s, n) && blk(s, n).len() == s.list.Node[n].Value.len
    && s.list.Node[n].Next == (if i + 1 < q.len() { q[i + 1] } else { 0 }) && s.list.Node[n].Prev == (if i > 0 { q[i - 1] } else { 0 }) })
{
  let q = nds(s, p); lemma_members(s, p); assert(q.contains(q[i])); assert(okb(s, q[i])); assert(tk(s.list.Node[q[i]]));
}
// the links of the nodes q are as before
pub proof fn lemma_links<V>(s0: S<V>, s: S<V>, l: int, q: Seq<int>)
  requires list::wf(s0.list, l), list::nodes(s0.list, l) == q, s.list.List[l] == s0.list.List[l], s0.list.List.dom().contains(l) ==> s.list.List.dom().contains(l),
    forall|i: int| 0 <= i < q.len() ==> s.list.Node.dom().contains(#[trigger] q[i]) && s.list.Node[q[i]].Next == s0.list.Node[q[i]].Next && s.list.Node[q[i]].Prev == s0.list.Node[q[i]].Prev,
  ensures list::wf(s.list, l), list::nodes(s.list, l) == q
{
  assert(list::isseq(s0.list, l, q));
  assert forall|j: int| 0 <= j < q.len() implies (#[trigger] s.list.Node[q[j]]).Next == (if j + 1 < q.len() { q[j + 1] } else { 0 }) by { assert(q[j] == q[j]); assert(tk(s0.list.Node[q[j]])); }
  assert forall|j: int| 0 <= j < q.len() implies (#[trigger] s.list.Node[q[j]]).Prev == (if j > 0 { q[j - 1] } else { 0 }) by { assert(q[j] == q[j]); assert(tk(s0.list.Node[q[j]])); }
  assert(list::isseq(s.list, l, q)); list::lemma_unique(s.list, l, q);
}
pub proof fn lemma_ends<V>(s: S<V>, p: int)
  requires inner(s, p)
  ensures ({ let q = nds(s, p); let l = s.list.List[ll(s, p)]; l.Front == (if q.len() > 0 { q[0] } else { 0 }) && l.Back == (if q.len() > 0 { q[q.len() - 1] } else { 0 })
    && (q.len() > 0 ==> l.Front != 0 && l.Back != 0 && okb(s, l.Front) && okb(s, l.Back)) })
{
  lemma_members(s, p); if nds(s, p).len() > 0 { lemma_at(s, p, 0); lemma_at(s, p, nds(s, p).len() - 1); }
}
pub proof fn lemma_others<V>(s0: S<V>, s: S<V>, p: int)
  requires inner(s0, p), inner(s, p), moved(s0, s, p)
  ensures others_kept(s0, s, p)
{ hide(list::isseq); hide(list::wf);
  assert forall|o: int| #[trigger] wf(s0, o) && separate(s0, p, o) implies wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o) && nds(s, o) == nds(s0, o) && bls(s, o) == bls(s0, o) && s.UList[o] == s0.UList[o] by {
    let l = ll(s0, o); let q = nds(s0, o);
    assert(s.UList[o] == s0.UList[o]);
    lemma_members(s0, o); lemma_members(s0, p);
    assert forall|i: int| #![trigger okb(s, q[i])] #![trigger blk(s, q[i])] #![trigger ar(s, q[i])] 0 <= i < q.len() implies s.list.Node[q[i]] == s0.list.Node[q[i]] && s.list.Node.dom().contains(q[i]) && okb(s, q[i]) && blk(s, q[i]) == blk(s0, q[i]) by {
      assert(q.contains(q[i])); assert(!nds(s0, p).contains(q[i])); assert(s0.list.Node.dom().contains(q[i]));
      let a = ar(s0, q[i]); assert(okb(s0, q[i])); assert(owns(s0, o, a)); assert(!owns(s0, p, a)); assert(s0.arr_V.dom().contains(a)); assert(s.arr_V[a] == s0.arr_V[a]);
    }
    assert forall|i: int| 0 <= i < q.len() implies s.list.Node.dom().contains(#[trigger] q[i]) && s.list.Node[q[i]].Next == s0.list.Node[q[i]].Next && s.list.Node[q[i]].Prev == s0.list.Node[q[i]].Prev by { assert(okb(s, q[i])); }
    lemma_links(s0, s, l, q);
    assert(bls(s, o) =~= bls(s0, o));
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] ar(s, q[i]) != #[trigger] ar(s, q[j]) by { assert(ar(s0, q[i]) != ar(s0, q[j])); }
    assert(inner(s, o));
    assert forall|n: int| !(#[trigger] nds(s, p).contains(n) && #[trigger] nds(s, o).contains(n)) by { if nds(s, o).contains(n) { assert(nds(s0, o).contains(n)); assert(s0.list.Node.dom().contains(n)); } }
    assert forall|a: int| #[trigger] owns(s, o, a) implies owns(s0, o, a) by { let i = choose|i: int| 0 <= i < q.len() && #[trigger] ar(s, q[i]) == a; assert(ar(s0, q[i]) == a); }
    assert forall|a: int| !(#[trigger] owns(s, p, a) && #[trigger] owns(s, o, a)) by { if owns(s, o, a) { assert(owns(s0, o, a)); assert(s0.arr_V.dom().contains(a)); } }
  }
}
// ---- concatenation of blocks
pub proof fn lemma_cat<V>(a: Seq<Seq<V>>, b: Seq<Seq<V>>)
  ensures flat(a + b) == flat(a) + flat(b)
  decreases b.len()
{
  if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); } else {
    lemma_cat(a, b.drop_last());
    assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
    assert(flat(a) + flat(b) =~= flat(a) + flat(b.drop_last()) + b.last());
  }
}
pub open spec fn start<V>(b: Seq<Seq<V>>, i: int) -> int { flat(b.take(i)).len() as int }
// the blocks before i, x, and the blocks from j on
pub open spec fn around<V>(b: Seq<Seq<V>>, i: int, x: Seq<V>, j: int) -> Seq<V> { flat(b.take(i)) + x + flat(b.skip(j)) }
pub proof fn lemma_one<V>(x: Seq<V>) ensures flat(seq![x]) == x { assert(seq![x].drop_last() =~= Seq::<Seq<V>>::empty()); assert(flat(seq![x].drop_last()) =~= Seq::empty()); assert(flat(seq![x]) =~= x); }
pub proof fn lemma_upd<V>(b: Seq<Seq<V>>, i: int, x: Seq<V>)
  requires 0 <= i < b.len()
  ensures flat(b.update(i, x)) == around(b, i, x, i + 1), flat(b) == around(b, i, b[i], i + 1),
    flat(b.remove(i)) == around(b, i, Seq::<V>::empty(), i + 1),
    start(b, i) + b[i].len() == start(b, i + 1), start(b, i + 1) <= flat(b).len(), start(b, b.len() as int) == flat(b).len(), start(b, 0) == 0,
    b.update(i, x).take(i) == b.take(i), b.remove(i).take(i) == b.take(i),
    forall|j: int| 0 <= j < b[i].len() ==> flat(b)[start(b, i) + j] == #[trigger] b[i][j],
{
  let h = b.take(i); let t = b.skip(i + 1);
  lemma_one(x); lemma_one(b[i]);
  lemma_cat(h, seq![x]); lemma_cat(h + seq![x], t); assert(b.update(i, x) =~= h + seq![x] + t);
  lemma_cat(h, seq![b[i]]); lemma_cat(h + seq![b[i]], t); assert(b =~= h + seq![b[i]] + t);
  lemma_cat(h, t); assert(b.remove(i) =~= h + t); assert(flat(h) + Seq::<V>::empty() + flat(t) =~= flat(h) + flat(t));
  assert(b.take(i + 1) =~= h + seq![b[i]]); assert(b.take(b.len() as int) =~= b); assert(b.take(0) =~= Seq::<Seq<V>>::empty());
  assert(b.update(i, x).take(i) =~= h); assert(b.remove(i).take(i) =~= h);
}
pub proof fn lemma_ins<V>(b: Seq<Seq<V>>, i: int, x: Seq<V>)
  requires 0 <= i <= b.len()
  ensures flat(b.insert(i, x)) == around(b, i, x, i), b.insert(i, x).take(i) == b.take(i), flat(b) == around(b, i, Seq::<V>::empty(), i)
{
  let h = b.take(i); let t = b.skip(i); lemma_one(x);
  lemma_cat(h, seq![x]); lemma_cat(h + seq![x], t); assert(b.insert(i, x) =~= h + seq![x] + t);
  lemma_cat(h, t); assert(b =~= h + t); assert(flat(h) + Seq::<V>::empty() + flat(t) =~= flat(h) + flat(t));
  assert(b.insert(i, x).take(i) =~= h);
}
pub proof fn lemma_starts<V>(b: Seq<Seq<V>>, i: int, j: int)
  requires 0 <= i <= j <= b.len()
  ensures start(b, i) <= start(b, j) <= flat(b).len(), filled(b) && i < j ==> start(b, i) < start(b, j), filled(b) && b.len() > 0 ==> flat(b).len() > 0
{
  let m = b.take(j).skip(i);
  lemma_cat(b.take(i), m); assert(b.take(j) =~= b.take(i) + m);
  lemma_cat(b.take(j), b.skip(j)); assert(b =~= b.take(j) + b.skip(j));
  if filled(b) && i < j { assert(m.last() == b[j - 1]); assert(flat(m) == flat(m.drop_last()) + m.last()); }
  if filled(b) && b.len() > 0 { assert(b.last() == b[b.len() - 1]); }
}
// ---- changes to the blocks
// the block at i of p has a new content x
pub proof fn lemma_block<V>(s0: S<V>, s: S<V>, p: int, i: int)
  requires inner(s0, p), 0 <= i < nds(s0, p).len(), sized(s0, s, p),
    s.list.List =~= s0.list.List, s.list.Node =~= s0.list.Node.insert(nds(s0, p)[i], list::Node { Value: s.list.Node[nds(s0, p)[i]].Value, ..s0.list.Node[nds(s0, p)[i]] }),
    okb(s, nds(s0, p)[i]),
    ar(s, nds(s0, p)[i]) == ar(s0, nds(s0, p)[i]) || !s0.arr_V.dom().contains(ar(s, nds(s0, p)[i])),
    forall|a: int| #[trigger] s0.arr_V.dom().contains(a) ==> s.arr_V.dom().contains(a) && (a != ar(s0, nds(s0, p)[i]) ==> s.arr_V[a] == s0.arr_V[a]),
  ensures inner(s, p), nds(s, p) == nds(s0, p), bls(s, p) == bls(s0, p).update(i, blk(s, nds(s0, p)[i])), moved(s0, s, p)
{ hide(list::isseq); hide(list::wf);
  let q = nds(s0, p); let l = ll(s0, p); let n = q[i]; lemma_members(s0, p);
  lemma_at(s0, p, i);
  assert forall|j: int| 0 <= j < q.len() implies s.list.Node.dom().contains(#[trigger] q[j]) && s.list.Node[q[j]].Next == s0.list.Node[q[j]].Next && s.list.Node[q[j]].Prev == s0.list.Node[q[j]].Prev by { lemma_at(s0, p, j); }
  lemma_links(s0, s, l, q);
  assert forall|j: int| #![trigger okb(s, q[j])] #![trigger blk(s, q[j])] #![trigger ar(s, q[j])] 0 <= j < q.len() && j != i implies okb(s, q[j]) && blk(s, q[j]) == blk(s0, q[j]) && ar(s, q[j]) == ar(s0, q[j]) && ar(s, q[j]) != ar(s, n) by {
    lemma_at(s0, p, j); assert(q[j] != n); assert(s0.arr_V.dom().contains(ar(s0, q[j])));
    if j < i { assert(ar(s0, q[j]) != ar(s0, q[i])); } else { assert(ar(s0, q[i]) != ar(s0, q[j])); }
  }
  assert forall|j: int, k: int| 0 <= j < k < q.len() implies #[trigger] ar(s, q[j]) != #[trigger] ar(s, q[k]) by { assert(ar(s0, q[j]) != ar(s0, q[k])); assert(okb(s, q[j])); assert(okb(s, q[k])); }
  assert(bls(s, p) =~= bls(s0, p).update(i, blk(s, n)));
  assert(owns(s0, p, ar(s0, q[i])));
  assert forall|a: int| #[trigger] owns(s, p, a) implies owns(s0, p, a) || !s0.arr_V.dom().contains(a) by { let j = choose|j: int| 0 <= j < q.len() && #[trigger] ar(s, q[j]) == a; if j != i { assert(ar(s0, q[j]) == a); } }
}
// the new node n with its own new block was linked in at i
pub proof fn lemma_linked<V>(s0: S<V>, s: S<V>, p: int, i: int, n: int)
  requires inner(s0, p), 0 <= i <= nds(s0, p).len(), sized(s0, s, p), list::wf(s.list, ll(s, p)), nds(s, p) == nds(s0, p).insert(i, n), !s0.list.Node.dom().contains(n),
    s.list.List =~= s0.list.List.insert(ll(s0, p), s.list.List[ll(s0, p)]),
    forall|x: int| #[trigger] s0.list.Node.dom().contains(x) ==> s.list.Node.dom().contains(x) && s.list.Node[x].Value == s0.list.Node[x].Value && (x != 0 && !nds(s0, p).contains(x) ==> s.list.Node[x] == s0.list.Node[x]),
    okb(s, n), !s0.arr_V.dom().contains(ar(s, n)),
    forall|a: int| #[trigger] s0.arr_V.dom().contains(a) ==> s.arr_V.dom().contains(a) && s.arr_V[a] == s0.arr_V[a],
  ensures inner(s, p), bls(s, p) == bls(s0, p).insert(i, blk(s, n)), moved(s0, s, p), nds(s, p)[i] == n
{ hide(list::isseq); hide(list::wf);
  let q0 = nds(s0, p); let q = nds(s, p); lemma_members(s0, p);
  assert forall|j: int| #![trigger okb(s, q[j])] #![trigger blk(s, q[j])] #![trigger ar(s, q[j])] 0 <= j < q.len() && j != i implies okb(s, q[j]) && ar(s, q[j]) != ar(s, n) && ({ let z = if j < i { j } else { j - 1 }; q[j] == q0[z] && blk(s, q[j]) == blk(s0, q0[z]) && ar(s, q[j]) == ar(s0, q0[z]) }) by { let z = if j < i { j } else { j - 1 }; assert(q[j] == q0[z]); lemma_at(s0, p, z); assert(s0.arr_V.dom().contains(ar(s0, q0[z]))); }
  assert forall|j: int, k: int| 0 <= j < k < q.len() implies #[trigger] ar(s, q[j]) != #[trigger] ar(s, q[k]) by { if j != i && k != i { let y = if j < i { j } else { j - 1 }; let z = if k < i { k } else { k - 1 }; assert(ar(s0, q0[y]) != ar(s0, q0[z])); } }
  assert(bls(s, p) =~= bls(s0, p).insert(i, blk(s, n)));
  assert forall|x: int| #[trigger] q.contains(x) implies q0.contains(x) || !s0.list.Node.dom().contains(x) by { let j = q.index_of(x); assert(q[j] == x); if j != i { let z = if j < i { j } else { j - 1 }; assert(q[j] == q0[z]); } }
  assert forall|a: int| #[trigger] owns(s, p, a) implies owns(s0, p, a) || !s0.arr_V.dom().contains(a) by { let j = choose|j: int| 0 <= j < q.len() && #[trigger] ar(s, q[j]) == a; if j != i { let z = if j < i { j } else { j - 1 }; assert(ar(s0, q0[z]) == a); } }
}
// the node at i was unlinked
pub proof fn lemma_unlinked<V>(s0: S<V>, s: S<V>, p: int, i: int)
  requires inner(s0, p), 0 <= i < nds(s0, p).len(), sized(s0, s, p), list::wf(s.list, ll(s, p)), nds(s, p) == nds(s0, p).remove(i), s.arr_V == s0.arr_V,
    s.list.List =~= s0.list.List.insert(ll(s0, p), s.list.List[ll(s0, p)]),
    forall|x: int| #[trigger] s0.list.Node.dom().contains(x) ==> s.list.Node.dom().contains(x) && s.list.Node[x].Value == s0.list.Node[x].Value && (x != 0 && !nds(s0, p).contains(x) ==> s.list.Node[x] == s0.list.Node[x]),
  ensures inner(s, p), bls(s, p) == bls(s0, p).remove(i), moved(s0, s, p)
{ hide(list::isseq); hide(list::wf);
  let q0 = nds(s0, p); let q = nds(s, p); lemma_members(s0, p);
  assert forall|j: int| #![trigger okb(s, q[j])] #![trigger blk(s, q[j])] #![trigger ar(s, q[j])] 0 <= j < q.len() implies okb(s, q[j]) && ({ let z = if j < i { j } else { j + 1 }; q[j] == q0[z] && blk(s, q[j]) == blk(s0, q0[z]) && ar(s, q[j]) == ar(s0, q0[z]) }) by { let z = if j < i { j } else { j + 1 }; assert(q[j] == q0[z]); lemma_at(s0, p, z); }
  assert forall|j: int, k: int| 0 <= j < k < q.len() implies #[trigger] ar(s, q[j]) != #[trigger] ar(s, q[k]) by { let y = if j < i { j } else { j + 1 }; let z = if k < i { k } else { k + 1 }; assert(ar(s0, q0[y]) != ar(s0, q0[z])); }
  assert(bls(s, p) =~= bls(s0, p).remove(i));
  assert forall|x: int| #[trigger] q.contains(x) implies q0.contains(x) by { let j = q.index_of(x); assert(q[j] == x); let z = if j < i { j } else { j + 1 }; assert(q[j] == q0[z]); }
  assert forall|a: int| #[trigger] owns(s, p, a) implies owns(s0, p, a) by { let j = choose|j: int| 0 <= j < q.len() && #[trigger] ar(s, q[j]) == a; let z = if j < i { j } else { j + 1 }; assert(ar(s0, q0[z]) == a); }
}
// ---- iterators
// the entry number an iterator of p is at; -1 before the first, the length after the last
pub open spec fn at<V>(s: S<V>, p: int, it: int) -> int { start(bls(s, p), nds(s, p).index_of(s.UListIter[it].node)) + s.UListIter[it].index }
pub open spec fn placed<V>(s: S<V>, p: int, it: int) -> bool {
  let n = s.UListIter[it].node; let j = s.UListIter[it].index; let q = nds(s, p); let i = q.index_of(n);
  it != 0 && s.UListIter.dom().contains(it) && q.contains(n) && (0 <= j < blk(s, n).len() || (j == -1 && i == 0) || (j == blk(s, n).len() && i == q.len() - 1))
}
pub open spec fn points<V>(s: S<V>, p: int, it: int, k: int) -> bool { placed(s, p, it) && at(s, p, it) == k }
pub open spec fn valid<V>(s: S<V>, it: int) -> bool { s.UListIter[it].node != 0 && 0 <= s.UListIter[it].index < s.list.Node[s.UListIter[it].node].Value.len }
pub proof fn lemma_points<V>(s: S<V>, p: int, it: int, k: int)
  requires wf(s, p), points(s, p, it, k)
  ensures -1 <= k <= view(s, p).len(), valid(s, it) == (0 <= k < view(s, p).len()), valid(s, it) ==> view(s, p)[k] == blk(s, s.UListIter[it].node)[s.UListIter[it].index],
    ({ let n = s.UListIter[it].node; let i = nds(s, p).index_of(n); n != 0 && okb(s, n) && s.list.Node.dom().contains(n) && 0 <= i < nds(s, p).len() && nds(s, p)[i] == n && blk(s, n) == bls(s, p)[i] && blk(s, n).len() == s.list.Node[n].Value.len && blk(s, n).len() > 0
      && s.list.Node[n].Next == (if i + 1 < nds(s, p).len() { nds(s, p)[i + 1] } else { 0 }) && s.list.Node[n].Prev == (if i > 0 { nds(s, p)[i - 1] } else { 0 })
      && k == start(bls(s, p), i) + s.UListIter[it].index && (s.UListIter[it].index == -1 ==> i == 0) && (s.UListIter[it].index == blk(s, n).len() ==> i == nds(s, p).len() - 1) && -1 <= s.UListIter[it].index <= blk(s, n).len() })
{ hide(list::isseq); hide(list::wf);
  lemma_members(s, p); let b = bls(s, p); let n = s.UListIter[it].node; let q = nds(s, p); let i = q.index_of(n); assert(q[i] == n); lemma_at(s, p, i); assert(b[i].len() > 0);
  lemma_upd(b, i, b[i]); lemma_starts(b, i, b.len() as int);
  if i == q.len() - 1 { assert(start(b, i + 1) == flat(b).len()); }
  if 0 <= s.UListIter[it].index < blk(s, n).len() { assert(flat(b)[start(b, i) + s.UListIter[it].index] == b[i][s.UListIter[it].index]); }
}
// moving from the end of block i to the beginning of the next, and back
pub proof fn lemma_step<V>(s: S<V>, p: int, i: int)
  requires wf(s, p), 0 <= i < nds(s, p).len()
  ensures ({ let b = bls(s, p); let q = nds(s, p); start(b, i) + b[i].len() == start(b, i + 1) && q.contains(q[i]) && q.index_of(q[i]) == i && (i + 1 < q.len() ==> q.contains(q[i + 1]) && q.index_of(q[i + 1]) == i + 1 && blk(s, q[i + 1]).len() > 0 && b[i + 1] == blk(s, q[i + 1]))
    && (i > 0 ==> q.contains(q[i - 1]) && q.index_of(q[i - 1]) == i - 1 && blk(s, q[i - 1]).len() > 0 && blk(s, q[i - 1]).len() == s.list.Node[q[i - 1]].Value.len && start(b, i - 1) + blk(s, q[i - 1]).len() == start(b, i)) && start(b, 0) == 0 && start(b, q.len() as int) == view(s, p).len() })
{ hide(list::isseq); hide(list::wf);
  lemma_at(s, p, i); let b = bls(s, p); lemma_upd(b, i, b[i]);
  if i + 1 < nds(s, p).len() { assert(b[i + 1].len() > 0); lemma_at(s, p, i + 1); }
  if i > 0 { assert(b[i - 1].len() > 0); lemma_upd(b, i - 1, b[i - 1]); lemma_at(s, p, i - 1); }
}

pub proof fn lemma_front<V>(s: S<V>, p: int)
  requires wf(s, p)
  ensures s.list.List[ll(s, p)].Front == (if nds(s, p).len() > 0 { nds(s, p)[0] } else { 0 }), nds(s, p).len() > 0 ==> ({ let q = nds(s, p); q.contains(q[0]) && q.index_of(q[0]) == 0 && blk(s, q[0]).len() > 0 && start(bls(s, p), 0) == 0 }),
    view(s, p).len() > 0 ==> nds(s, p).len() > 0
{ lemma_ends(s, p); if nds(s, p).len() > 0 { lemma_step(s, p, 0); lemma_at(s, p, 0); assert(bls(s, p)[0].len() > 0); } else { assert(bls(s, p) =~= Seq::empty()); } }
// moving iterators does not change a list
pub proof fn lemma_same<V>(s0: S<V>, s: S<V>, p: int)
  requires wf(s0, p), s.UList == s0.UList, s.arr_V == s0.arr_V, s.list == s0.list
  ensures wf(s, p), bls(s, p) == bls(s0, p), nds(s, p) == nds(s0, p)
{
  hide(list::wf); assert forall|i: int| 0 <= i < nds(s, p).len() implies #[trigger] okb(s, nds(s, p)[i]) by { assert(okb(s0, nds(s0, p)[i])); }
  assert(bls(s, p) =~= bls(s0, p));
  assert forall|i: int, j: int| 0 <= i < j < nds(s, p).len() implies #[trigger] ar(s, nds(s, p)[i]) != #[trigger] ar(s, nds(s, p)[j]) by { assert(ar(s0, nds(s, p)[i]) != ar(s0, nds(s, p)[j])); }
}

// only the size of p and iterators changed
pub proof fn lemma_resize<V>(s0: S<V>, s: S<V>, p: int)
  requires inner(s0, p), sized(s0, s, p), s.arr_V == s0.arr_V, s.list == s0.list
  ensures inner(s, p), bls(s, p) == bls(s0, p), nds(s, p) == nds(s0, p), moved(s0, s, p)
{
  hide(list::wf); lemma_members(s0, p); assert forall|i: int| 0 <= i < nds(s, p).len() implies #[trigger] okb(s, nds(s, p)[i]) by { assert(okb(s0, nds(s0, p)[i])); }
  assert(bls(s, p) =~= bls(s0, p));
  assert forall|i: int, j: int| 0 <= i < j < nds(s, p).len() implies #[trigger] ar(s, nds(s, p)[i]) != #[trigger] ar(s, nds(s, p)[j]) by { assert(ar(s0, nds(s, p)[i]) != ar(s0, nds(s, p)[j])); }
  assert forall|a: int| #[trigger] owns(s, p, a) implies owns(s0, p, a) by { let j = choose|j: int| 0 <= j < nds(s, p).len() && #[trigger] ar(s, nds(s, p)[j]) == a; assert(ar(s0, nds(s, p)[j]) == a); }
  assert forall|a: int| #[trigger] owns(s0, p, a) implies owns(s, p, a) by { let j = choose|j: int| 0 <= j < nds(s, p).len() && #[trigger] ar(s0, nds(s, p)[j]) == a; assert(ar(s, nds(s, p)[j]) == a); }
}
// v came in after entry j of block i
pub proof fn lemma_inserted<V>(b0: Seq<Seq<V>>, b: Seq<Seq<V>>, i: int, j: int, v: V)
  requires 0 <= i < b.len(), i < b0.len(), b.take(i) == b0.take(i), 0 <= j < b0[i].len(), b[i] + flat(b.skip(i + 1)) == b0[i].insert(j + 1, v) + flat(b0.skip(i + 1))
  ensures flat(b) == flat(b0).insert(start(b0, i) + j + 1, v)
{
  lemma_upd(b, i, b[i]); lemma_upd(b0, i, b0[i]); let h = flat(b0.take(i)); let r = b0[i].insert(j + 1, v) + flat(b0.skip(i + 1));
  assert(flat(b) =~= h + (b[i] + flat(b.skip(i + 1)))); assert(flat(b0).insert(h.len() + j + 1, v) =~= h + r);
}

pub proof fn lemma_sep<V>(s0: S<V>, s: S<V>, p: int, o: int)
  requires separate(s0, p, o), s.UList == s0.UList, s.list == s0.list
  ensures separate(s, p, o)
{
  assert forall|n: int| !(#[trigger] nds(s, p).contains(n) && #[trigger] nds(s, o).contains(n)) by { assert(!(nds(s0, p).contains(n) && nds(s0, o).contains(n))); }
  assert forall|a: int| !(#[trigger] owns(s, p, a) && #[trigger] owns(s, o, a)) by {
    if owns(s, p, a) && owns(s, o, a) {
      let i = choose|j: int| 0 <= j < nds(s, p).len() && #[trigger] ar(s, nds(s, p)[j]) == a; assert(ar(s0, nds(s0, p)[i]) == a); assert(owns(s0, p, a));
      let k = choose|j: int| 0 <= j < nds(s, o).len() && #[trigger] ar(s, nds(s, o)[j]) == a; assert(ar(s0, nds(s0, o)[k]) == a); assert(owns(s0, o, a));
    }
  }
}
pub proof fn lemma_kept_same<V>(s0: S<V>, s1: S<V>, s2: S<V>, s: S<V>, p: int)
  requires others_kept(s1, s2, p), s1.UList == s0.UList, s1.arr_V == s0.arr_V, s1.list == s0.list, s.UList == s2.UList, s.arr_V == s2.arr_V, s.list == s2.list
  ensures others_kept(s0, s, p)
{
  assert forall|o: int| #[trigger] wf(s0, o) && separate(s0, p, o) implies wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o) && nds(s, o) == nds(s0, o) && bls(s, o) == bls(s0, o) && s.UList[o] == s0.UList[o] by {
    lemma_same(s0, s1, o); lemma_sep(s0, s1, p, o); lemma_same(s2, s, o); lemma_sep(s2, s, p, o);
  }
}

@func New (n) (p)
@requires n >= 0
@ensures wf(s, p) && view(s, p) == Seq::<V>::empty() && !s0.UList.dom().contains(p)
@ensures forall|o: int| #[trigger] wf(s0, o) ==> wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o) && nds(s, o) == nds(s0, o) && s.UList[o] == s0.UList[o]
@exit assert(list::isseq(s.list, ll(s, p), Seq::empty())); list::lemma_unique(s.list, ll(s, p), Seq::empty()); assert(bls(s, p) =~= Seq::empty());
assert forall|o: int| #[trigger] wf(s0, o) implies wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o) && nds(s, o) == nds(s0, o) && s.UList[o] == s0.UList[o] by {
  let q = nds(s0, o); lemma_members(s0, o);
  assert forall|i: int| 0 <= i < q.len() implies s.list.Node.dom().contains(#[trigger] q[i]) && s.list.Node[q[i]].Next == s0.list.Node[q[i]].Next && s.list.Node[q[i]].Prev == s0.list.Node[q[i]].Prev by { lemma_at(s0, o, i); }
  lemma_links(s0, s, ll(s0, o), q); assert(bls(s, o) =~= bls(s0, o));
  assert forall|i: int| 0 <= i < q.len() implies #[trigger] okb(s, q[i]) by { assert(okb(s0, q[i])); }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] ar(s, q[i]) != #[trigger] ar(s, q[j]) by { assert(ar(s0, q[i]) != ar(s0, q[j])); }
}

@func UList.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).len()

@func UList.PushBack (p, v)
@flag hide list::isseq list::wf
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) == view(s0, p).push(v) && others_kept(s0, s, p)
@entry lemma_ends(s, p); let q0 = nds(s, p); let b0 = bls(s, p); let mut s1 = s; let mut ph = 0int; let mut w = s; 
@before List.PushBack w = s;
@after List.PushBack
ph = 1; let q = nds(s, p); let z = q0.len() as int; let n = q.last(); assert(q =~= q0.insert(z, n)); assert(list::view(s.list, ll(s, p))[z] == s.list.Node[n].Value); lemma_linked(s0, s, p, z, n); s1 = s; lemma_ends(s, p);
lemma_ins(b0, z, Seq::<V>::empty()); assert(blk(s, n) =~= Seq::<V>::empty());
@exit
let z = nds(s1, p).len() - 1; let n = nds(s1, p)[z]; let b1 = bls(s1, p);
lemma_at(s1, p, z); lemma_block(s1, s, p, z); lemma_upd(b1, z, blk(s, n)); assert(b1.skip(z + 1) =~= Seq::<Seq<V>>::empty()); lemma_moved(s0, s1, s, p);
assert(blk(s, n) =~= b1[z].push(v)); assert(view(s1, p) =~= view(s0, p)); assert(view(s, p) =~= view(s1, p).push(v));
assert forall|i: int| 0 <= i < bls(s, p).len() implies (#[trigger] bls(s, p)[i]).len() > 0 by { if i < z { assert(b0[i].len() > 0); assert(bls(s, p)[i] == b1[i]); } }
lemma_others(s0, s, p);

@func UListIter.IsValid (it) (r)
@requires it != 0
@ensures r == valid(s, it)
@ensures forall|p: int, k: int| wf(s, p) && #[trigger] points(s, p, it, k) ==> r == (0 <= k < view(s, p).len())
@exit assert forall|p: int, k: int| wf(s, p) && #[trigger] points(s, p, it, k) implies r == (0 <= k < view(s, p).len()) by { lemma_points(s, p, it, k); }

@func UListIter.Get (it) (r)
@requires it != 0 && valid(s, it)
@ensures r == s.arr_V[ar(s, s.UListIter[it].node)][s.list.Node[s.UListIter[it].node].Value.off + s.UListIter[it].index]
@ensures forall|p: int, k: int| wf(s, p) && #[trigger] points(s, p, it, k) ==> 0 <= k < view(s, p).len() && r == view(s, p)[k]
@exit assert forall|p: int, k: int| wf(s, p) && #[trigger] points(s, p, it, k) implies 0 <= k < view(s, p).len() && r == view(s, p)[k] by { lemma_points(s, p, it, k); }

@func UListIter.Next (it) (r)
@requires it != 0 && s.UListIter.dom().contains(it) && s.UListIter[it].node != 0
@ensures r == valid(s, it) && s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@ensures ({ let c = s0.UListIter[it]; let d = s.UListIter[it]; let len = s.list.Node[c.node].Value.len; let next = s.list.Node[c.node].Next; if c.index + 1 < len { d.node == c.node && d.index == c.index + 1 } else if next != 0 { d.node == next && d.index == 0 } else { d.node == c.node && d.index == len } })
@ensures forall|p: int, k: int| wf(s0, p) && #[trigger] points(s0, p, it, k) ==> points(s, p, it, if k < view(s, p).len() { k + 1 } else { k }) && r == (k + 1 < view(s, p).len())
@exit assert forall|p: int, k: int| wf(s0, p) && #[trigger] points(s0, p, it, k) implies points(s, p, it, if k < view(s, p).len() { k + 1 } else { k }) && r == (k + 1 < view(s, p).len()) by { lemma_points(s0, p, it, k); lemma_step(s0, p, nds(s, p).index_of(s0.UListIter[it].node)); assert(bls(s, p) == bls(s0, p)); lemma_same(s0, s, p); let k2 = if k < view(s, p).len() { k + 1 } else { k }; assert(placed(s, p, it)); assert(at(s, p, it) == k2); lemma_points(s, p, it, k2); }

@func UListIter.Prev (it) (r)
@requires it != 0 && s.UListIter.dom().contains(it) && s.UListIter[it].node != 0
@ensures r == valid(s, it) && s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@ensures forall|p: int, k: int| wf(s0, p) && #[trigger] points(s0, p, it, k) ==> points(s, p, it, if k >= 0 { k - 1 } else { k }) && r == (0 <= k - 1 < view(s, p).len())
@exit assert forall|p: int, k: int| wf(s0, p) && #[trigger] points(s0, p, it, k) implies points(s, p, it, if k >= 0 { k - 1 } else { k }) && r == (0 <= k - 1 < view(s, p).len()) by { lemma_points(s0, p, it, k); lemma_step(s0, p, nds(s, p).index_of(s0.UListIter[it].node)); assert(bls(s, p) == bls(s0, p)); lemma_same(s0, s, p); let k2 = if k >= 0 { k - 1 } else { k }; assert(placed(s, p, it)); assert(at(s, p, it) == k2); lemma_points(s, p, it, k2); }

@func UList.Begin (p) (it)
@requires wf(s, p)
@ensures it != 0 && !s0.UListIter.dom().contains(it) && s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@ensures if view(s, p).len() > 0 { points(s, p, it, 0) } else { !valid(s, it) }

@func newIterFront (p) (it)
@requires wf(s, p)
@ensures it != 0 && !s0.UListIter.dom().contains(it) && s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@ensures if view(s, p).len() > 0 { points(s, p, it, 0) } else { !valid(s, it) }
@exit lemma_members(s0, p); assert(bls(s, p) == bls(s0, p)); if nds(s, p).len() > 0 { lemma_step(s0, p, 0); } else { assert(bls(s, p) =~= Seq::empty()); }

@func UList.End (p) (it)
@requires wf(s, p)
@ensures it != 0 && !s0.UListIter.dom().contains(it) && s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@ensures if view(s, p).len() > 0 { points(s, p, it, view(s, p).len() - 1) } else { !valid(s, it) }

@func newIterBack (p) (it)
@requires wf(s, p)
@ensures it != 0 && !s0.UListIter.dom().contains(it) && s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@ensures if view(s, p).len() > 0 { points(s, p, it, view(s, p).len() - 1) } else { !valid(s, it) }
@exit lemma_members(s0, p); assert(bls(s, p) == bls(s0, p)); if nds(s, p).len() > 0 { let z = nds(s, p).len() - 1; lemma_step(s0, p, z); assert(okb(s, nds(s, p)[z])); } else { assert(bls(s, p) =~= Seq::empty()); }

@func UList.PushFront (p, v)
@flag hide list::isseq list::wf
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) == seq![v] + view(s0, p) && others_kept(s0, s, p)
@entry lemma_ends(s, p); lemma_members(s, p); let q0 = nds(s, p); let b0 = bls(s, p); let mut s1 = s;
@after List.PushFront
let q = nds(s, p); let n = q[0]; assert(q =~= q0.insert(0, n)); assert(list::view(s.list, ll(s, p))[0] == s.list.Node[n].Value); lemma_linked(s0, s, p, 0, n); s1 = s; lemma_ends(s, p);
lemma_ins(b0, 0, Seq::<V>::empty()); assert(blk(s, n) =~= Seq::<V>::empty()); lemma_at(s, p, 0);
@exit
let n = nds(s1, p)[0]; let b1 = bls(s1, p);
lemma_at(s1, p, 0); lemma_block(s1, s, p, 0); lemma_upd(b1, 0, blk(s, n)); lemma_moved(s0, s1, s, p); assert(b1.take(0) =~= Seq::<Seq<V>>::empty());
assert(blk(s, n) =~= seq![v] + b1[0]); assert(view(s1, p) =~= view(s0, p)); assert(view(s, p) =~= seq![v] + view(s1, p));
assert forall|i: int| 0 <= i < bls(s, p).len() implies (#[trigger] bls(s, p)[i]).len() > 0 by { if i > 0 { assert(bls(s, p)[i] == b1[i]); if b1.len() == b0.len() { assert(b0[i].len() > 0); } else { assert(b1[i] == b0[i - 1]); assert(b0[i - 1].len() > 0); } } }
lemma_others(s0, s, p);

@func UListIter.addOverflowToNextBlock (it, p, v)
@flag hide list::isseq list::wf
@requires inner(s, p) && filled(bls(s, p)) && it != 0 && nds(s, p).contains(s.UListIter[it].node)
@ensures inner(s, p) && filled(bls(s, p)) && moved(s0, s, p)
@ensures ({ let n = s.UListIter[it].node; let i = nds(s0, p).index_of(n); i + 1 < nds(s, p).len() && nds(s, p)[i] == n && s.list.Node[n].Value == s0.list.Node[n].Value && bls(s, p).take(i + 1) == bls(s0, p).take(i + 1) && flat(bls(s, p).skip(i + 1)) == seq![v] + flat(bls(s0, p).skip(i + 1)) })
@entry let n0 = s.UListIter[it].node; let q0 = nds(s, p); let b0 = bls(s, p); let i = q0.index_of(n0); assert(q0[i] == n0); lemma_at(s, p, i); if i + 1 < q0.len() { lemma_at(s, p, i + 1); } let mut sa = s; let mut ph = 0int; let mut t0 = b0.skip(i + 1);
@before List.InsertAfter lemma_members(s0, p); assert forall|z: int| 0 <= z < q0.len() implies s.list.Node.dom().contains(#[trigger] q0[z]) && s.list.Node[q0[z]].Next == s0.list.Node[q0[z]].Next && s.list.Node[q0[z]].Prev == s0.list.Node[q0[z]].Prev by { lemma_at(s0, p, z); } lemma_links(s0, s, ll(s, p), q0); sa = s; ph = 1;
@exit
let b = bls(s, p); let o = seq![v];
if ph == 1 {
  let x = nds(s, p)[i + 1];
  lemma_linked(s0, s, p, i + 1, x); lemma_ins(t0, 0, blk(s, x)); assert(blk(s, x) =~= o); assert(b.skip(i + 1) =~= t0.insert(0, o)); assert(t0.take(0) =~= Seq::<Seq<V>>::empty()); assert(t0.skip(0) =~= t0); assert(flat(b.skip(i + 1)) =~= o + flat(t0));
  assert forall|z: int| 0 <= z < b.len() implies (#[trigger] b[z]).len() > 0 by { if z <= i { assert(b[z] == b0[z]); } else if z > i + 1 { assert(b[z] == b0[z - 1]); } }
} else {
  let x = q0[i + 1];
  lemma_block(s0, s, p, i + 1); lemma_upd(t0, 0, blk(s, x)); assert(blk(s, x) =~= o + t0[0]); assert(b.skip(i + 1) =~= t0.update(0, blk(s, x))); assert(t0.take(0) =~= Seq::<Seq<V>>::empty()); assert(flat(b.skip(i + 1)) =~= o + flat(t0));
  assert forall|z: int| 0 <= z < b.len() implies (#[trigger] b[z]).len() > 0 by { if z != i + 1 { assert(b[z] == b0[z]); } }
}
assert(b.take(i + 1) =~= b0.take(i + 1)); lemma_at(s, p, i);

@func UList.AddAfter (p, it, v)
@flag hide list::isseq list::wf
@requires wf(s, p) && placed(s, p, it) && 0 <= at(s, p, it) < view(s, p).len()
@ensures wf(s, p) && others_kept(s0, s, p)
@ensures view(s, p) == view(s0, p).insert(at(s0, p, it) + 1, v)
@ensures points(s, p, it, at(s0, p, it) + 1)
@ensures s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@entry
let k = at(s, p, it); lemma_points(s, p, it, k); let n = s.UListIter[it].node; let j = s.UListIter[it].index; let q0 = nds(s, p); let b0 = bls(s, p); let i = q0.index_of(n); lemma_at(s, p, i); lemma_upd(b0, i, b0[i]); let mut ph = 0int; let mut s1 = s;
@before UListIter.addOverflowToNextBlock#1 lemma_resize(s0, s, p); s1 = s; 
@after UListIter.addOverflowToNextBlock#1 lemma_moved(s0, s1, s, p); s1 = s; ph = 1; assert(bls(s, p).take(i + 1)[i] == b0.take(i + 1)[i]); assert(bls(s, p).take(i) =~= bls(s, p).take(i + 1).take(i)); assert(b0.take(i) =~= b0.take(i + 1).take(i)); lemma_at(s, p, i); lemma_at(s, p, i + 1);
@before UListIter.addOverflowToNextBlock#2 lemma_resize(s0, s, p); s1 = s;
@after UListIter.addOverflowToNextBlock#2 lemma_moved(s0, s1, s, p); s1 = s; ph = 2; assert(bls(s, p).take(i + 1)[i] == b0.take(i + 1)[i]); assert(bls(s, p).take(i) =~= bls(s, p).take(i + 1).take(i)); assert(b0.take(i) =~= b0.take(i + 1).take(i)); lemma_at(s, p, i);
@exit
let b = bls(s, p); let b1 = bls(s1, p); let rest = flat(b0.skip(i + 1));
if ph == 1 {
  lemma_resize(s1, s, p); lemma_moved(s0, s1, s, p); assert(b0[i] + (seq![v] + rest) =~= b0[i].insert(j + 1, v) + rest); lemma_upd(b, i, b[i]);
} else {
  lemma_block(s1, s, p, i); lemma_moved(s0, s1, s, p); let x = blk(s, n); lemma_upd(b1, i, x); assert(b.skip(i + 1) =~= b1.skip(i + 1));
  if ph == 0 { assert(x =~= b0[i].insert(j + 1, v)); } else { assert(x =~= b0[i].drop_last().insert(j + 1, v)); assert(x + (seq![b0[i].last()] + rest) =~= b0[i].insert(j + 1, v) + rest); }
  assert forall|z: int| 0 <= z < b.len() implies (#[trigger] b[z]).len() > 0 by { if z != i { assert(b[z] == b1[z]); } }
  lemma_at(s, p, i);
}
lemma_inserted(b0, b, i, j, v); lemma_others(s0, s, p);

@func UList.AddBefore (p, it, v)
@requires wf(s, p) && placed(s, p, it) && 0 <= at(s, p, it) < view(s, p).len()
@ensures wf(s, p) && others_kept(s0, s, p)
@ensures view(s, p) == view(s0, p).insert(at(s0, p, it), v)
@ensures points(s, p, it, at(s0, p, it))
@ensures forall|x: int| x != it && #[trigger] s0.UListIter.dom().contains(x) ==> s.UListIter.dom().contains(x) && s.UListIter[x] == s0.UListIter[x]
@entry let k = at(s, p, it); lemma_points(s, p, it, k); let mut sb = s; let mut sc = s;
@before UListIter.Prev#1 lemma_same(s0, s, p); assert(points(s, p, $1, k)); 
@after UListIter.Prev#1 lemma_same(s0, s, p); assert(points(s, p, $1, k - 1));
@before UList.PushFront sb = s;
@after UList.PushFront sc = s; lemma_front(s, p);
@before UList.AddAfter lemma_same(s0, s, p); assert(points(s, p, $2, k - 1)); sb = s; lemma_points(s, p, $2, k - 1);
@after UList.AddAfter sc = s;
@exit if k == 0 { lemma_same(sc, s, p); assert(view(s, p) =~= view(s0, p).insert(0, v)); } lemma_kept_same(s0, sb, sc, s, p);

@func UList.Remove (p, it)
@flag hide list::isseq list::wf
@requires wf(s, p) && placed(s, p, it) && 0 <= at(s, p, it) < view(s, p).len()
@ensures wf(s, p) && others_kept(s0, s, p)
@ensures view(s, p) == view(s0, p).remove(at(s0, p, it))
@ensures if at(s0, p, it) < view(s, p).len() { points(s, p, it, at(s0, p, it)) } else { !valid(s, it) }
@ensures s.UListIter =~= s0.UListIter.insert(it, s.UListIter[it])
@entry
let k = at(s, p, it); lemma_points(s, p, it, k); let n = s.UListIter[it].node; let j = s.UListIter[it].index; let q0 = nds(s, p); let b0 = bls(s, p); let i = q0.index_of(n); lemma_at(s, p, i); lemma_upd(b0, i, b0[i]); let y = b0[i].remove(j); lemma_upd(b0, i, y); let mut ph = 0int; let mut s1 = s; let mut s2 = s;
@before List.Remove lemma_block(s0, s, p, i); s1 = s; assert(blk(s, n) =~= y); lemma_at(s, p, i); ph = 1; lemma_members(s, p);
@after List.Remove lemma_unlinked(s1, s, p, i); s2 = s; lemma_upd(bls(s1, p), i, y); if i + 1 < q0.len() { lemma_at(s1, p, i + 1); lemma_at(s, p, i); }
@exit
let b = bls(s, p);
assert(around(b0, i, y, i + 1) =~= view(s0, p).remove(k));
if ph == 1 {
  lemma_resize(s2, s, p); lemma_moved(s0, s1, s2, p); lemma_moved(s0, s2, s, p); let b1 = bls(s1, p);
  assert(b1.take(i) == b0.take(i)); assert(b1.skip(i + 1) =~= b0.skip(i + 1)); assert(view(s, p) == around(b0, i, y, i + 1));
  assert forall|z: int| 0 <= z < b.len() implies (#[trigger] b[z]).len() > 0 by { assert(b[z] == b0[if z < i { z } else { z + 1 }]); }
} else {
  lemma_block(s0, s, p, i); assert(blk(s, n) =~= y); lemma_at(s, p, i);
  assert forall|z: int| 0 <= z < b.len() implies (#[trigger] b[z]).len() > 0 by { if z != i { assert(b[z] == b0[z]); } }
  lemma_upd(b, i, b[i]);
}
lemma_others(s0, s, p);
if k < view(s, p).len() {
  if ph == 1 { assert(i + 1 < q0.len()); lemma_at(s, p, i); assert(b.take(i) =~= b0.take(i)); assert(b[i].len() > 0); assert(placed(s, p, it)); }
  else { if i + 1 < q0.len() { lemma_at(s, p, i + 1); assert(b[i + 1].len() > 0); } assert(b.take(i) =~= b0.take(i)); assert(placed(s, p, it)); }
  assert(points(s, p, it, k));
}
