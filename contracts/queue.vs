@state T
@counter length
@prelude
pub open spec fn lst<T>(s: S<T>, p: int) -> int { s.Queue[p].list }
pub open spec fn fp<T>(s: S<T>, p: int) -> Seq<int> { list::nodes(s.list, lst(s, p)) }
// the items in the queue, oldest first
pub open spec fn view<T>(s: S<T>, p: int) -> Seq<T> { list::view(s.list, lst(s, p)) }
pub open spec fn wf<T>(s: S<T>, p: int) -> bool {
  &&& p != 0 && s.Queue.dom().contains(p)
  &&& list::wf(s.list, lst(s, p))
  &&& s.Queue[p].length == view(s, p).len()
}
pub open spec fn separate<T>(s: S<T>, p: int, o: int) -> bool {
  p != o && lst(s, p) != lst(s, o) && forall|n: int| #[trigger] fp(s, o).contains(n) ==> !fp(s, p).contains(n)
}
pub open spec fn kept1<T>(s0: S<T>, s: S<T>, p: int, o: int) -> bool {
  wf(s0, o) && separate(s0, p, o) ==> wf(s, o) && separate(s, p, o) && view(s, o) == view(s0, o)
}
// every other queue that shares nothing with p keeps its contents and still shares nothing with p
pub open spec fn others_kept<T>(s0: S<T>, s: S<T>, p: int) -> bool {
  forall|o: int| #[trigger] wf(s0, o) ==> kept1(s0, s, p, o)
}
// every queue that existed keeps its contents and shares nothing with the new queue r
pub open spec fn fresh_queue<T>(s0: S<T>, s: S<T>, r: int) -> bool {
  !s0.Queue.dom().contains(r) && wf(s, r) && forall|o: int| #[trigger] wf(s0, o) ==> wf(s, o) && separate(s, r, o) && view(s, o) == view(s0, o) && fp(s, o) == fp(s0, o)
}
pub proof fn lemma_others<T>(s0: S<T>, s: S<T>, p: int)
  requires wf(s0, p), wf(s, p), list::kept(s0.list, s.list, lst(s0, p), 0) || (fp(s0, p).len() > 0 && list::kept(s0.list, s.list, lst(s0, p), fp(s0, p)[0])),
    lst(s, p) == lst(s0, p), s.Queue == s0.Queue.insert(p, s.Queue[p]),
    forall|n: int| #[trigger] fp(s, p).contains(n) ==> fp(s0, p).contains(n) || !s0.list.Node.dom().contains(n),
  ensures others_kept(s0, s, p)
{
  assert forall|o: int| #[trigger] wf(s0, o) implies kept1(s0, s, p, o) by {
    if wf(s0, o) && separate(s0, p, o) {
      let q = fp(s0, o);
      assert(list::isseq(s0.list, lst(s0, o), q));
      assert(!q.contains(0));
      let x = if list::kept(s0.list, s.list, lst(s0, p), 0) { 0 } else { fp(s0, p)[0] };
      if x != 0 { assert(fp(s0, p).contains(x)); }
      assert(!q.contains(x));
      list::lemma_frame(s0.list, s.list, lst(s0, p), x, lst(s0, o));
      assert forall|n: int| #[trigger] fp(s, o).contains(n) implies !fp(s, p).contains(n) by {
        assert(q.contains(n)); let i = q.index_of(n); assert(q[i] == n); assert(s0.list.Node.dom().contains(q[i]));
      }
    }
  }
}
pub proof fn lemma_push_nodes<T>(a: Seq<int>, b: Seq<int>)
  requires b.len() == a.len() + 1, b.drop_last() == a
  ensures forall|n: int| #[trigger] b.contains(n) ==> a.contains(n) || n == b.last()
{
  assert forall|n: int| #[trigger] b.contains(n) implies a.contains(n) || n == b.last() by {
    let i = b.index_of(n); if i < a.len() { assert(a[i] == n); }
  }
}
pub proof fn lemma_member<T>(s: S<T>, o: int)
  requires wf(s, o)
  ensures forall|n: int| #[trigger] fp(s, o).contains(n) ==> n != 0 && s.list.Node.dom().contains(n)
{
  let q = fp(s, o);
  assert(list::isseq(s.list, lst(s, o), q));
  assert forall|n: int| #[trigger] fp(s, o).contains(n) implies n != 0 && s.list.Node.dom().contains(n) by { let i = q.index_of(n); assert(q[i] == n); }
}
pub proof fn lemma_same<T>(s0: S<T>, a: S<T>, b: S<T>, p: int)
  requires s0 == a || others_kept(s0, a, p), a.list == b.list, a.Queue == b.Queue
  ensures others_kept(s0, b, p)
{
  assert forall|o: int| #[trigger] wf(s0, o) implies kept1(s0, b, p, o) by {
    assert(s0 == a || kept1(s0, a, p, o));
    if separate(s0, p, o) { assert(fp(a, o) == fp(b, o)); assert(fp(a, p) == fp(b, p)); }
  }
}
pub proof fn lemma_trans<T>(a: S<T>, b: S<T>, c: S<T>, p: int)
  requires others_kept(a, b, p), others_kept(b, c, p)
  ensures others_kept(a, c, p)
{
  assert forall|o: int| #[trigger] wf(a, o) implies kept1(a, c, p, o) by {
    assert(kept1(a, b, p, o));
    if separate(a, p, o) { assert(wf(b, o)); assert(kept1(b, c, p, o)); }
  }
}

@func New () (r)
@ensures fresh_queue(s0, s, r) && view(s, r) == Seq::<T>::empty()
@ensures s.list.Node == s0.list.Node
@exit
assert forall|o: int| #[trigger] wf(s0, o) implies wf(s, o) && separate(s, r, o) && view(s, o) == view(s0, o) && fp(s, o) == fp(s0, o) by {
  let q = fp(s0, o); assert(list::isseq(s0.list, lst(s0, o), q)); assert(list::isseq(s.list, lst(s, o), q)); list::lemma_unique(s.list, lst(s, o), q);
  assert(view(s, o) =~= view(s0, o));
}

@func Of (slice) (r)
@requires slwf(s.arr_T, slice)
@ensures fresh_queue(s0, s, r) && view(s, r) == sv(s0.arr_T, slice)
@loop 1
@loopbefore let src = sv(s0.arr_T, slice);
@invariant fresh_queue(s0, s, v_queue) && view(s, v_queue) == src.take(it1)
@loopentry let sb = s;
@loopend
assert(src.take(it1) =~= src.take(it1 - 1).push(src[it1 - 1]));
assert forall|o: int| #[trigger] wf(s0, o) implies wf(s, o) && separate(s, v_queue, o) && view(s, o) == view(s0, o) && fp(s, o) == fp(s0, o) by { assert(wf(sb, o)); assert(kept1(sb, s, v_queue, o)); assert(fp(s, o) == fp(sb, o)); }
@loopexit assert(src.take(slice.len) =~= src);

@func Queue.Len (q) (n)
@requires wf(s, q)
@ensures n == view(s, q).len()

@func Queue.Enqueue (q, value)
@requires wf(s, q)
@ensures wf(s, q) && view(s, q) == view(s0, q).push(value)
@ensures others_kept(s0, s, q)
@ensures lst(s, q) == lst(s0, q) && s.Queue == s0.Queue.insert(q, s.Queue[q])
@ensures forall|o: int| #[trigger] wf(s0, o) && separate(s0, q, o) ==> fp(s, o) == fp(s0, o)
@exit
lemma_push_nodes::<T>(fp(s0, q), fp(s, q));
lemma_others(s0, s, q);
assert forall|o: int| #[trigger] wf(s0, o) && separate(s0, q, o) implies fp(s, o) == fp(s0, o) by { lemma_member(s0, o); assert(fp(s0, o) == list::nodes(s0.list, lst(s0, o))); assert(fp(s0, q) == list::nodes(s0.list, lst(s0, q))); list::lemma_frame(s0.list, s.list, lst(s0, q), 0, lst(s0, o)); }

@func Queue.Dequeue (q) (r)
@panics view(s, q).len() == 0
@requires wf(s, q)
@ensures wf(s, q) && r == view(s0, q)[0] && view(s, q) == view(s0, q).skip(1)
@ensures others_kept(s0, s, q)
@ensures lst(s, q) == lst(s0, q) && s.Queue == s0.Queue.insert(q, s.Queue[q])

@func Queue.TryDequeue (q) (r, ok)
@requires wf(s, q)
@ensures wf(s, q) && ok == (view(s0, q).len() > 0)
@ensures ok ==> r == view(s0, q)[0] && view(s, q) == view(s0, q).skip(1)
@ensures !ok ==> s == s0 && r == zero::<T>()
@ensures others_kept(s0, s, q)
@ensures lst(s, q) == lst(s0, q) && s.Queue == s0.Queue.insert(q, s.Queue[q])
@entry
let ns = fp(s0, q); assert(list::isseq(s0.list, lst(s0, q), ns));
if ns.len() > 0 { assert(ns.contains(ns[0])); assert(ns.index_of(ns[0]) == 0); }
@exit
assert(ok == (ns.len() > 0));
if ok {
  assert(list::nodes(s.list, lst(s0, q)) == ns.remove(0));
  assert(view(s, q) =~= view(s0, q).skip(1));
  assert forall|n: int| #[trigger] fp(s, q).contains(n) implies fp(s0, q).contains(n) by { let i = ns.remove(0).index_of(n); assert(ns[i + 1] == n); }
  lemma_others(s0, s, q);
} else {
  assert forall|o: int| #[trigger] wf(s0, o) implies kept1(s0, s, q, o) by { }
  assert(s.Queue =~= s0.Queue.insert(q, s.Queue[q]));
}

@func Queue.DequeueAll (q) (r)
@requires wf(s, q)
@ensures wf(s, q) && sv(s.arr_T, r) == view(s0, q) && view(s, q).len() == 0 && slwf(s.arr_T, r)
@ensures others_kept(s0, s, q) && !s0.arr_T.dom().contains(r.arr) && s.arr_T == s0.arr_T.insert(r.arr, s.arr_T[r.arr])
@loop 1
@loopbefore
assert(view(s, q) =~= view(s0, q).skip(0));
assert(s0.arr_T.insert(v_slice.arr, s.arr_T[v_slice.arr]) =~= s.arr_T);
assert(s.Queue =~= s0.Queue.insert(q, s.Queue[q]));
lemma_same(s0, s0, s, q);
@invariant 0 <= v_i <= v_slice.len && v_slice.len == view(s0, q).len()
@invariant slwf(s.arr_T, v_slice) && s.arr_T == s0.arr_T.insert(v_slice.arr, s.arr_T[v_slice.arr])
@invariant sv(s.arr_T, v_slice).take(v_i) == view(s0, q).take(v_i)
@invariant wf(s, q) && view(s, q) == view(s0, q).skip(v_i) && lst(s, q) == lst(s0, q) && s.Queue == s0.Queue.insert(q, s.Queue[q])
@invariant others_kept(s0, s, q)
@loopentry let sb = s;
@after Queue.Dequeue let sm = s;
@loopend
assert(sv(s.arr_T, v_slice).take(v_i) =~= sv(sb.arr_T, v_slice).take(v_i - 1).push(view(s0, q)[v_i - 1]));
assert(view(s0, q).take(v_i) =~= view(s0, q).take(v_i - 1).push(view(s0, q)[v_i - 1]));
assert(view(s, q) =~= view(s0, q).skip(v_i));
assert(s0.arr_T.insert(v_slice.arr, s.arr_T[v_slice.arr]) =~= s.arr_T);
assert(s.Queue =~= s0.Queue.insert(q, s.Queue[q]));
lemma_same(sb, sm, s, q);
lemma_trans(s0, sb, s, q);
@exit
assert(sv(s.arr_T, r) =~= view(s0, q));

@func Queue.Peek (q) (r)
@panics view(s, q).len() == 0
@requires wf(s, q)
@ensures r == view(s, q)[0]
@entry
let ns = fp(s0, q); assert(list::isseq(s0.list, lst(s0, q), ns));

@func Queue.TryPeek (q) (r, ok)
@requires wf(s, q)
@ensures ok == (view(s, q).len() > 0)
@ensures r == (if ok { view(s, q)[0] } else { zero::<T>() })
@entry
let ns = fp(s0, q); assert(list::isseq(s0.list, lst(s0, q), ns));

@func Queue.PeekAll (q) (r)
@requires wf(s, q)
@ensures slwf(s.arr_T, r) && sv(s.arr_T, r) == view(s, q)
@ensures !s0.arr_T.dom().contains(r.arr) && s.arr_T == s0.arr_T.insert(r.arr, s.arr_T[r.arr]) && r.arr != 0
@before Node.Each
list::lemma_walk(s.list, lst(s, q), 0);
assert(fp(s, q).skip(0) =~= fp(s, q));
assert(Seq::<T>::empty() + view(s, q) =~= view(s, q));
assert(s0.arr_T.insert(v_slice.arr, s.arr_T[v_slice.arr]) =~= s.arr_T);
@loop 1
@loopbefore assert(ctr1 == view(s, q));
@invariant v_index == it1 && slwf(s.arr_T, v_slice) && s.arr_T == s0.arr_T.insert(v_slice.arr, s.arr_T[v_slice.arr])
@invariant sv(s.arr_T, v_slice).take(it1) == ctr1.take(it1)
@loopentry let sb = s;
@loopend
assert(sv(s.arr_T, v_slice).take(it1) =~= sv(sb.arr_T, v_slice).take(it1 - 1).push(ctr1[it1 - 1]));
assert(ctr1.take(it1) =~= ctr1.take(it1 - 1).push(ctr1[it1 - 1]));
assert(s0.arr_T.insert(v_slice.arr, s.arr_T[v_slice.arr]) =~= s.arr_T);
@exit
assert(sv(s.arr_T, r).take(r.len) =~= sv(s.arr_T, r));
assert(view(s, q).take(r.len) =~= view(s, q));
assert(sv(s.arr_T, r) =~= view(s, q));

@func Queue.Empty (q) (b)
@requires wf(s, q)
@ensures b == (view(s, q).len() == 0)
@entry
let ns = fp(s0, q); assert(list::isseq(s0.list, lst(s0, q), ns));

@func Queue.Clear (q)
@requires wf(s, q)
@ensures wf(s, q) && view(s, q) == Seq::<T>::empty()
@ensures others_kept(s0, s, q)
@exit
assert forall|o: int| #[trigger] wf(s0, o) implies kept1(s0, s, q, o) by {
  if separate(s0, q, o) {
    let ns = fp(s0, o); assert(list::isseq(s0.list, lst(s0, o), ns)); assert(list::isseq(s.list, lst(s, o), ns)); list::lemma_unique(s.list, lst(s, o), ns);
    assert(view(s, o) =~= view(s0, o));
  }
}

@func Queue.Copy (q) (r)
@requires wf(s, q)
@ensures view(s, r) == view(s0, q) && fresh_queue(s0, s, r)
@after Queue.PeekAll
assert forall|o: int| #[trigger] wf(s0, o) implies wf(s, o) && view(s, o) == view(s0, o) && fp(s, o) == fp(s0, o) by { }

@func Queue.Each (q, fn)
@requires wf(s, q)
@ensures tr == tr0 + view(s, q)
@before Node.Each
list::lemma_walk(s.list, lst(s, q), 0);
assert(fp(s, q).skip(0) =~= fp(s, q));
