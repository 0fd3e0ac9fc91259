@state K V
@prelude
// the pairs, by key and by value
pub open spec fn fwd<K, V>(s: S<K, V>, b: Bimap) -> Map<K, V> { mget(s.map_K_V, b.forward) }
pub open spec fn rev<K, V>(s: S<K, V>, b: Bimap) -> Map<V, K> { mget(s.map_V_K, b.reverse) }
pub open spec fn bijection<K, V>(f: Map<K, V>, r: Map<V, K>) -> bool {
  &&& forall|k: K| #[trigger] f.dom().contains(k) ==> r.dom().contains(f[k]) && r[f[k]] == k
  &&& forall|v: V| #[trigger] r.dom().contains(v) ==> f.dom().contains(r[v]) && f[r[v]] == v
}
// the two indexes of the value b are allocated and inverse to each other
pub open spec fn wfv<K, V>(s: S<K, V>, b: Bimap) -> bool {
  &&& (b.forward == 0 <==> b.reverse == 0)
  &&& (b.forward != 0 ==> s.map_K_V.dom().contains(b.forward))
  &&& (b.reverse != 0 ==> s.map_V_K.dom().contains(b.reverse))
  &&& bijection(fwd(s, b), rev(s, b))
}
pub open spec fn wf<K, V>(s: S<K, V>, p: int) -> bool {
  p != 0 && s.Bimap.dom().contains(p) && wfv(s, s.Bimap[p])
}
pub open spec fn view<K, V>(s: S<K, V>, p: int) -> Map<K, V> { fwd(s, s.Bimap[p]) }
pub open spec fn separate_v(a: Bimap, b: Bimap) -> bool {
  (a.forward != b.forward || a.forward == 0) && (a.reverse != b.reverse || a.reverse == 0)
}
pub open spec fn others_kept<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && q != p && separate_v(s0.Bimap[p], s0.Bimap[q]) ==>
    wf(s, q) && view(s, q) == view(s0, q) && s.Bimap[q] == s0.Bimap[q] && separate_v(s.Bimap[p], s.Bimap[q])
}
// r shares nothing with what existed, and what existed is as it was
pub open spec fn fresh_value<K, V>(s0: S<K, V>, s: S<K, V>, r: Bimap) -> bool {
  &&& (r.forward == 0 || !s0.map_K_V.dom().contains(r.forward)) && (r.reverse == 0 || !s0.map_V_K.dom().contains(r.reverse))
  &&& forall|k: int| #[trigger] s0.map_K_V.dom().contains(k) ==> s.map_K_V.dom().contains(k) && s.map_K_V[k] == s0.map_K_V[k]
  &&& forall|k: int| #[trigger] s0.map_V_K.dom().contains(k) ==> s.map_V_K.dom().contains(k) && s.map_V_K[k] == s0.map_V_K[k]
}
// nothing but the storage of p changes, and p keeps its storage or takes new one
pub open spec fn only<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  &&& s.Bimap =~= s0.Bimap.insert(p, s.Bimap[p])
  &&& (s.Bimap[p].forward == s0.Bimap[p].forward || s.Bimap[p].forward == 0 || !s0.map_K_V.dom().contains(s.Bimap[p].forward))
  &&& (s.Bimap[p].reverse == s0.Bimap[p].reverse || s.Bimap[p].reverse == 0 || !s0.map_V_K.dom().contains(s.Bimap[p].reverse))
  &&& s.map_K_V =~= (if s.Bimap[p].forward == 0 { s0.map_K_V } else { s0.map_K_V.insert(s.Bimap[p].forward, s.map_K_V[s.Bimap[p].forward]) })
  &&& s.map_V_K =~= (if s.Bimap[p].reverse == 0 { s0.map_V_K } else { s0.map_V_K.insert(s.Bimap[p].reverse, s.map_V_K[s.Bimap[p].reverse]) })
}
// the pairs of f without those of key k or value v
pub open spec fn without<K, V>(f: Map<K, V>, k: K, v: V) -> Map<K, V> {
  Map::new(f.dom().filter(|x: K| x != k && f[x] != v), |x: K| f[x])
}

@func Of (m) (r)
@requires m == 0 || s.map_K_V.dom().contains(m)
@ensures wfv(s, r) && fresh_value(s0, s, r)
@ensures forall|k: K| #[trigger] fwd(s, r).dom().contains(k) ==> mget(s0.map_K_V, m).dom().contains(k) && fwd(s, r)[k] == mget(s0.map_K_V, m)[k]
@ensures forall|k: K| #[trigger] mget(s0.map_K_V, m).dom().contains(k) ==> rev(s, r).dom().contains(mget(s0.map_K_V, m)[k])
@ensures (forall|a: K, b: K| #![trigger mget(s0.map_K_V, m)[a], mget(s0.map_K_V, m)[b]] mget(s0.map_K_V, m).dom().contains(a) && mget(s0.map_K_V, m).dom().contains(b) && mget(s0.map_K_V, m)[a] == mget(s0.map_K_V, m)[b] ==> a == b) ==> fwd(s, r) =~= mget(s0.map_K_V, m)
@loop 1
@loopentry lemma_keys(ks1, rm1.dom()); let f1 = view(s, v_bm); let r1 = rev(s, s.Bimap[v_bm]);
@invariant wf(s, v_bm) && fresh_value(s0, s, s.Bimap[v_bm])
@invariant forall|k: K| #[trigger] view(s, v_bm).dom().contains(k) ==> rm1.dom().contains(k) && view(s, v_bm)[k] == rm1[k]
@invariant forall|i: int| it1 <= i < ks1.len() ==> !view(s, v_bm).dom().contains(#[trigger] ks1[i])
@invariant forall|i: int| 0 <= i < it1 ==> rev(s, s.Bimap[v_bm]).dom().contains(rm1[#[trigger] ks1[i]])
@loopend assert forall|i: int| 0 <= i < it1 implies rev(s, s.Bimap[v_bm]).dom().contains(rm1[#[trigger] ks1[i]]) by { let x = rm1[ks1[i]]; if i < it1 - 1 && x != rm1[ks1[it1 - 1]] { let k = r1[x]; assert(r1.dom().contains(x)); assert(bijection(f1, r1)); assert(f1.dom().contains(k) && f1[k] == x); assert(view(s, v_bm).dom().contains(k) && view(s, v_bm)[k] == x); } else { assert(view(s, v_bm).dom().contains(ks1[it1 - 1])); } }
@loopexit lemma_keys(ks1, rm1.dom()); let f = view(s, v_bm); let r = rev(s, s.Bimap[v_bm]); assert(fwd(s, s.Bimap[v_bm]) == f); assert(rm1 == mget(s0.map_K_V, m)); assert forall|k: K| #[trigger] rm1.dom().contains(k) implies r.dom().contains(rm1[k]) && f.dom().contains(r[rm1[k]]) && rm1[r[rm1[k]]] == rm1[k] by { assert(ks1[ks1.index_of(k)] == k); }

@func Bimap.Len (p) (n)
@requires p == 0 || wf(s, p)
@ensures n == (if p == 0 { 0 } else { view(s, p).dom().len() as int })

@func Bimap.Add (p, key, value)
@requires wf(s, p)
@ensures wf(s, p)
@ensures view(s, p) =~= without(view(s0, p), key, value).insert(key, value)
@ensures only(s0, s, p)
@ensures others_kept(s0, s, p)

@func Bimap.RemoveForward (p, key)
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) =~= view(s0, p).remove(key)
@ensures only(s0, s, p)
@ensures others_kept(s0, s, p)

@func Bimap.RemoveReverse (p, value)
@requires wf(s, p)
@ensures wf(s, p)
@ensures rev(s0, s0.Bimap[p]).dom().contains(value) ==> view(s, p) =~= view(s0, p).remove(rev(s0, s0.Bimap[p])[value])
@ensures !rev(s0, s0.Bimap[p]).dom().contains(value) ==> view(s, p) =~= view(s0, p)
@ensures only(s0, s, p)
@ensures others_kept(s0, s, p)

@func Bimap.Each (p, f)
@requires wf(s, p)
@ensures ({ let d = tr.skip(tr0.len() as int); tr.len() == tr0.len() + view(s, p).dom().len() && tr.take(tr0.len() as int) == tr0
  && (forall|i: int| 0 <= i < d.len() ==> view(s, p).dom().contains((#[trigger] d[i]).0) && view(s, p)[d[i].0] == d[i].1) && d.no_duplicates()
  && (forall|k: K| #[trigger] view(s, p).dom().contains(k) ==> d.contains((k, view(s, p)[k]))) })
@loop 1
@invariant tr =~= tr0 + Seq::new(it1 as nat, |i: int| (ks1[i], rm1[ks1[i]]))
@loopexit ks1.unique_seq_to_set(); assert(tr.take(tr0.len() as int) =~= tr0); let d = Seq::new(it1 as nat, |i: int| (ks1[i], rm1[ks1[i]])); assert(tr.skip(tr0.len() as int) =~= d); assert forall|k: K| #[trigger] view(s, p).dom().contains(k) implies d.contains((k, view(s, p)[k])) by { assert(ks1.to_set().contains(k)); let i = ks1.index_of(k); assert(d[i] == (k, view(s, p)[k])); }

@func Bimap.ContainsForward (p, key) (r)
@requires p != 0
@ensures r == view(s, p).dom().contains(key)

@func Bimap.GetForward (p, key) (v, ok)
@requires p != 0
@ensures ok == view(s, p).dom().contains(key) && v == (if ok { view(s, p)[key] } else { zero::<V>() })

@func Bimap.ContainsReverse (p, value) (r)
@requires p != 0
@ensures r == rev(s, s.Bimap[p]).dom().contains(value)
@ensures wf(s, p) ==> (r <==> exists|k: K| #[trigger] view(s, p).dom().contains(k) && view(s, p)[k] == value)
@exit if wf(s, p) && v_ok { assert(view(s, p).dom().contains(rev(s, s.Bimap[p])[value])); }

@func Bimap.GetReverse (p, value) (k, ok)
@requires p != 0
@ensures ok == rev(s, s.Bimap[p]).dom().contains(value) && k == (if ok { rev(s, s.Bimap[p])[value] } else { zero::<K>() })
@ensures wf(s, p) && ok ==> view(s, p).dom().contains(k) && view(s, p)[k] == value
@ensures wf(s, p) && !ok ==> forall|x: K| #[trigger] view(s, p).dom().contains(x) ==> view(s, p)[x] != value

@func Bimap.Clear (p)
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) =~= Map::<K, V>::empty()
@ensures only(s0, s, p)
@ensures others_kept(s0, s, p)
@loop 1
@invariant s.map_K_V =~= (if s0.Bimap[p].forward == 0 { s0.map_K_V } else { s0.map_K_V.insert(s0.Bimap[p].forward, s.map_K_V[s0.Bimap[p].forward]) })
@invariant view(s, p).dom().subset_of(rm1.dom())
@invariant forall|i: int| 0 <= i < it1 ==> !view(s, p).dom().contains(#[trigger] ks1[i])
@loopexit lemma_keys(ks1, rm1.dom()); assert(view(s, p) =~= Map::<K, V>::empty());
@loop 2
@invariant s.map_V_K =~= (if s0.Bimap[p].reverse == 0 { s0.map_V_K } else { s0.map_V_K.insert(s0.Bimap[p].reverse, s.map_V_K[s0.Bimap[p].reverse]) })
@invariant rev(s, s.Bimap[p]).dom().subset_of(rm2.dom())
@invariant forall|i: int| 0 <= i < it2 ==> !rev(s, s.Bimap[p]).dom().contains(#[trigger] ks2[i])
@loopexit lemma_keys(ks2, rm2.dom()); assert(rev(s, s.Bimap[p]) =~= Map::<V, K>::empty());

@func Bimap.Copy (p) (r)
@requires wf(s, p)
@ensures wfv(s, r) && fwd(s, r) =~= view(s0, p) && fresh_value(s0, s, r)
@ensures wf(s, p) && view(s, p) =~= view(s0, p)
@loop 1
@invariant v_newMap != 0 && !s0.map_K_V.dom().contains(v_newMap) && s.map_K_V =~= s0.map_K_V.insert(v_newMap, s.map_K_V[v_newMap])
@invariant forall|k: K| #[trigger] s.map_K_V[v_newMap].dom().contains(k) ==> rm1.dom().contains(k) && s.map_K_V[v_newMap][k] == rm1[k]
@invariant forall|i: int| 0 <= i < it1 ==> s.map_K_V[v_newMap].dom().contains(#[trigger] ks1[i])
@loopexit lemma_keys(ks1, rm1.dom()); assert(s.map_K_V[v_newMap] =~= rm1);
@loop 2
@invariant v_newMap_2 != 0 && !s0.map_V_K.dom().contains(v_newMap_2) && s.map_V_K =~= s0.map_V_K.insert(v_newMap_2, s.map_V_K[v_newMap_2])
@invariant forall|k: V| #[trigger] s.map_V_K[v_newMap_2].dom().contains(k) ==> rm2.dom().contains(k) && s.map_V_K[v_newMap_2][k] == rm2[k]
@invariant forall|i: int| 0 <= i < it2 ==> s.map_V_K[v_newMap_2].dom().contains(#[trigger] ks2[i])
@loopexit lemma_keys(ks2, rm2.dom()); assert(s.map_V_K[v_newMap_2] =~= rm2);
