@state K
@prelude
// the members of a set
pub open spec fn view<K>(s: S<K>, p: GoSet) -> Set<K> { mget(s.map_K_, p.m).dom() }
pub open spec fn wf<K>(s: S<K>, p: GoSet) -> bool {
  p.m != 0 && s.map_K_.dom().contains(p.m)
}
// only the storage of p changes: every other set keeps its members
pub open spec fn only<K>(s0: S<K>, s: S<K>, p: GoSet) -> bool {
  s.map_K_ =~= s0.map_K_.insert(p.m, s.map_K_[p.m])
}
// r is a new set that shares nothing with any set that existed
pub open spec fn fresh_set<K>(s0: S<K>, s: S<K>, r: GoSet) -> bool {
  !s0.map_K_.dom().contains(r.m) && wf(s, r) && only(s0, s, r)
}

@func New () (r)
@ensures fresh_set(s0, s, r) && view(s, r) =~= Set::<K>::empty()

@func Of (vals) (r)
@requires slwf(s.arr_K, vals)
@ensures fresh_set(s0, s, r) && view(s, r) =~= sv(s0.arr_K, vals).to_set()
@loop 1
@invariant fresh_set(s0, s, v_s) && view(s, v_s) =~= sv(s0.arr_K, vals).take(it1).to_set()
@loopbefore assert(sv(s0.arr_K, vals).take(0).to_set() =~= Set::<K>::empty());
@loopbody lemma_take_set(sv(s0.arr_K, vals), it1);
@loopexit assert(sv(s0.arr_K, vals).take(it1) =~= sv(s0.arr_K, vals));

@func Set.Put (p, val)
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) =~= view(s0, p).insert(val) && only(s0, s, p)

@func Set.Has (p, val) (r)
@requires wf(s, p)
@ensures r == view(s, p).contains(val)

@func Set.Remove (p, val)
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) =~= view(s0, p).remove(val) && only(s0, s, p)

@func Set.Clear (p)
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) =~= Set::<K>::empty() && only(s0, s, p)

@func Set.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).len()

@func Set.Each (p, fn)
@requires wf(s, p)
@ensures tr.len() == tr0.len() + view(s, p).len() && tr.take(tr0.len() as int) == tr0
@ensures tr.skip(tr0.len() as int).no_duplicates() && tr.skip(tr0.len() as int).to_set() == view(s, p)
@loop 1
@invariant tr =~= tr0 + ks1.take(it1)
@loopexit assert(ks1.take(it1) =~= ks1); ks1.unique_seq_to_set(); assert(tr.take(tr0.len() as int) =~= tr0); assert(tr.skip(tr0.len() as int) =~= ks1);
