@state K V
@func Clear (m)
@requires m == 0 || s.map_K_V.dom().contains(m)
@ensures m == 0 ==> s == s0
@ensures m != 0 ==> s.map_K_V =~= s0.map_K_V.insert(m, Map::empty())
@loop 1
@invariant forall|j: int| 0 <= j < it1 ==> !mget(s.map_K_V, m).dom().contains(#[trigger] ks1[j])
@invariant mget(s.map_K_V, m).dom().subset_of(rm1.dom()) && (m == 0 ==> s == s0) && (m != 0 ==> s.map_K_V =~= s0.map_K_V.insert(m, s.map_K_V[m]))
@loopexit
assert forall|k: K| !mget(s.map_K_V, m).dom().contains(k) by { if rm1.dom().contains(k) { assert(ks1.to_set().contains(k)); let j = ks1.index_of(k); assert(ks1[j] == k); } }
assert(mget(s.map_K_V, m) =~= Map::empty());

@func Clone (m) (r)
@requires m == 0 || s.map_K_V.dom().contains(m)
@ensures r != 0 && !s0.map_K_V.dom().contains(r)
@ensures s.map_K_V =~= s0.map_K_V.insert(r, mget(s0.map_K_V, m))
@loop 1
@invariant v_r != 0 && !s0.map_K_V.dom().contains(v_r) && s.map_K_V =~= s0.map_K_V.insert(v_r, s.map_K_V[v_r])
@invariant forall|k: K| #[trigger] s.map_K_V[v_r].dom().contains(k) ==> rm1.dom().contains(k) && s.map_K_V[v_r][k] == rm1[k]
@invariant forall|j: int| 0 <= j < it1 ==> s.map_K_V[v_r].dom().contains(#[trigger] ks1[j])
@loopentry assert(ks1.to_set().contains(ks1[it1]));
@loopexit
assert forall|k: K| rm1.dom().contains(k) == s.map_K_V[v_r].dom().contains(k) by { if rm1.dom().contains(k) { assert(ks1.to_set().contains(k)); let j = ks1.index_of(k); assert(ks1[j] == k); } }
assert(s.map_K_V[v_r] =~= rm1);
