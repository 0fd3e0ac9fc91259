@state K V
@prelude
// ---- powers of two and positions
pub open spec fn pow2(c: int) -> bool { 1 <= c <= 0x1_0000_0000_0000 && band(c, c - 1) == 0 }
pub open spec fn nxt(i: int, c: int) -> int { if i + 1 >= c { 0 } else { i + 1 } }
// j lies in the cyclic range [a, b)
pub open spec fn incyc(a: int, j: int, b: int) -> bool { if a <= b { a <= j < b } else { j >= a || j < b } }
// steps from i forward to z
pub open spec fn dist(i: int, z: int, c: int) -> int { if i <= z { z - i } else { z - i + c } }

pub proof fn lemma_mask(h: int, c: int)
  requires pow2(c)
  ensures 0 <= band(h, c - 1) < c
{
  let x = h as u64; let y = c as u64; let z = (c - 1) as u64;
  assert(z == (y - 1) as u64);
  assert((x & z) <= z) by(bit_vector);
}
pub proof fn lemma_next(i: int, c: int)
  requires pow2(c), 0 <= i < c
  ensures band(add64(i, 1), c - 1) == nxt(i, c)
{
  let x = (i + 1) as u64; let y = c as u64;
  assert(add64(i, 1) == i + 1) by { vstd::arithmetic::div_mod::lemma_small_mod((i + 1) as nat, 0x1_0000_0000_0000_0000); }
  assert((c - 1) as u64 == sub(y, 1));
  assert(x <= y);
  assert((x & sub(y, 1)) == if x == y { 0 } else { x }) by(bit_vector) requires x <= y, x >= 1, (y & sub(y, 1)) == 0, y >= 1;
}
pub proof fn lemma_double(c: int)
  requires pow2(c), c < 0x1_0000_0000_0000
  ensures pow2(2 * c), mul64(c, 2) == 2 * c
{
  let y = c as u64;
  assert(mul64(c, 2) == c * 2) by { vstd::arithmetic::div_mod::lemma_small_mod((c * 2) as nat, 0x1_0000_0000_0000_0000); }
  let d = mul(y, 2);
  assert(d == 2 * c) by { assert(y <= 0x1_0000_0000_0000); assert(mul(y, 2) as int == y * 2); }
  assert((d & sub(d, 1)) == 0 && d <= 0x1_0000_0000_0000) by(bit_vector) requires d == mul(y, 2), (y & sub(y, 1)) == 0, 1 <= y < 0x1_0000_0000_0000;
  assert((2 * c) as u64 == d && (2 * c - 1) as u64 == sub(d, 1));
  assert((c - 1) as u64 == sub(y, 1));
}
pub proof fn lemma_double2(c: int)
  requires pow2(c)
  ensures mul64(c, 2) == 2 * c, pow2(c) && 2 * c <= 0x1_0000_0000_0000 ==> pow2(2 * c), gdiv(2 * c, 2) == c
{
  assert(mul64(c, 2) == c * 2) by { vstd::arithmetic::div_mod::lemma_small_mod((c * 2) as nat, 0x1_0000_0000_0000_0000); }
  if c < 0x1_0000_0000_0000 { lemma_double(c); }
}
pub proof fn lemma_half(c: int)
  requires pow2(c)
  ensures gdiv(c, 2) == c / 2, gdiv(c, 8) == c / 8, c >= 2 ==> pow2(c / 2) && c == 2 * (c / 2), c >= 8 ==> c == 8 * (c / 8)
{
  let y = c as u64;
  assert((c - 1) as u64 == sub(y, 1));
  if c >= 2 {
    let h = y / 2;
    assert((h & sub(h, 1)) == 0 && h >= 1 && mul(h, 2) == y) by(bit_vector) requires h == y / 2, (y & sub(y, 1)) == 0, 2 <= y <= 0x1_0000_0000_0000;
    assert(h == c / 2); assert((c / 2) as u64 == h && (c / 2 - 1) as u64 == sub(h, 1));
    assert(mul(h, 2) as int == h * 2);
    if c >= 8 {
      let e = y / 8;
      assert(mul(e, 8) == y && e <= 0x1_0000_0000_0000) by(bit_vector) requires e == y / 8, (y & sub(y, 1)) == 0, 8 <= y <= 0x1_0000_0000_0000;
      assert(mul(e, 8) as int == e * 8);
    }
  }
}

// ---- the table: a sequence of slots

// filled slots below n
pub open spec fn cnt<K, V>(e: Seq<entry<K, V>>, n: int) -> int decreases n {
  if n <= 0 { 0 } else { cnt(e, n - 1) + if e[n - 1].filled { 1int } else { 0 } }
}
// the pairs held in the slots below n
pub open spec fn vm<K, V>(e: Seq<entry<K, V>>, n: int) -> Map<K, V> decreases n {
  if n <= 0 { Map::empty() } else if e[n - 1].filled { vm(e, n - 1).insert(e[n - 1].key, e[n - 1].value) } else { vm(e, n - 1) }
}
pub open spec fn vmap<K, V>(e: Seq<entry<K, V>>) -> Map<K, V> { vm(e, e.len() as int) }
pub open spec fn listed<K, V>(e: Seq<entry<K, V>>, n: int) -> Seq<(K, V)> decreases n {
  if n <= 0 { Seq::empty() } else if e[n - 1].filled { listed(e, n - 1).push((e[n - 1].key, e[n - 1].value)) } else { listed(e, n - 1) }
}
pub open spec fn equiv<K>(eq: spec_fn(K, K) -> bool) -> bool {
  &&& forall|a: K| #[trigger] eq(a, a)
  &&& forall|a: K, b: K| #[trigger] eq(a, b) ==> eq(b, a)
  &&& forall|a: K, b: K, c: K| #![trigger eq(a, b), eq(b, c)] eq(a, b) && eq(b, c) ==> eq(a, c)
}
pub open spec fn respects<K>(h: spec_fn(K) -> int, eq: spec_fn(K, K) -> bool) -> bool {
  forall|a: K, b: K| #[trigger] eq(a, b) ==> h(a) == h(b)
}
pub open spec fn home<K>(h: spec_fn(K) -> int, c: int, k: K) -> int { band(h(k), c - 1) }
// every slot from the home of slot i's key up to i is filled
pub open spec fn chain_i<K, V>(e: Seq<entry<K, V>>, h: spec_fn(K) -> int, i: int) -> bool {
  forall|j: int| 0 <= j < e.len() && incyc(home(h, e.len() as int, e[i].key), j, i) ==> (#[trigger] e[j]).filled
}
pub open spec fn chain<K, V>(e: Seq<entry<K, V>>, h: spec_fn(K) -> int) -> bool {
  forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled ==> chain_i(e, h, i)
}
// the probe for key k reaches every slot that holds a key equal to k
pub open spec fn reach<K, V>(e: Seq<entry<K, V>>, h: spec_fn(K) -> int, eq: spec_fn(K, K) -> bool, k: K) -> bool {
  forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled && eq(e[i].key, k) ==> chain_i(e, h, i)
}
pub open spec fn distinct<K, V>(e: Seq<entry<K, V>>, eq: spec_fn(K, K) -> bool) -> bool {
  forall|i: int, j: int| #![trigger e[i], e[j]] 0 <= i < e.len() && 0 <= j < e.len() && i != j && e[i].filled && e[j].filled ==> !eq(e[i].key, e[j].key)
}
pub open spec fn absent<K, V>(e: Seq<entry<K, V>>, eq: spec_fn(K, K) -> bool, k: K) -> bool {
  forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled ==> !eq(e[i].key, k)
}
// all slots in [a, b) are filled with keys other than k
pub open spec fn probed<K, V>(e: Seq<entry<K, V>>, eq: spec_fn(K, K) -> bool, k: K, a: int, b: int) -> bool {
  forall|j: int| 0 <= j < e.len() && incyc(a, j, b) ==> (#[trigger] e[j]).filled && !eq(e[j].key, k)
}

pub proof fn lemma_vm<K, V>(e: Seq<entry<K, V>>, eq: spec_fn(K, K) -> bool, n: int)
  requires distinct(e, eq), equiv(eq), 0 <= n <= e.len()
  ensures
    forall|i: int| 0 <= i < n && (#[trigger] e[i]).filled ==> vm(e, n).dom().contains(e[i].key) && vm(e, n)[e[i].key] == e[i].value,
    forall|k: K| #[trigger] vm(e, n).dom().contains(k) ==> exists|i: int| 0 <= i < n && (#[trigger] e[i]).filled && e[i].key == k,
    vm(e, n).dom().len() == cnt(e, n),
    listed(e, n).len() == cnt(e, n),
    forall|q: int| 0 <= q < listed(e, n).len() ==> vm(e, n).dom().contains((#[trigger] listed(e, n)[q]).0) && vm(e, n)[listed(e, n)[q].0] == listed(e, n)[q].1,
    forall|q: int, r: int| 0 <= q < r < listed(e, n).len() ==> (#[trigger] listed(e, n)[q]).0 != (#[trigger] listed(e, n)[r]).0,
    0 <= cnt(e, n) <= n,
  decreases n
{
  if n > 0 {
    lemma_vm(e, eq, n - 1);
    if e[n - 1].filled {
      let k = e[n - 1].key;
      if vm(e, n - 1).dom().contains(k) {
        let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] e[i]).filled && e[i].key == k;
        assert(eq(k, k)); assert(false);
      }
      assert(vm(e, n).dom() =~= vm(e, n - 1).dom().insert(k));
      assert(listed(e, n) == listed(e, n - 1).push((k, e[n - 1].value)));
      assert forall|i: int| 0 <= i < n && (#[trigger] e[i]).filled implies vm(e, n).dom().contains(e[i].key) && vm(e, n)[e[i].key] == e[i].value by {
        if i < n - 1 { assert(vm(e, n - 1).dom().contains(e[i].key)); }
      }
    }
  }
}
pub proof fn lemma_cnt_le<K, V>(e: Seq<entry<K, V>>, n: int)
  requires 0 <= n <= e.len()
  ensures 0 <= cnt(e, n) <= n, (forall|i: int| 0 <= i < n ==> (#[trigger] e[i]).filled) ==> cnt(e, n) == n, cnt(e, n) == 0 ==> forall|i: int| 0 <= i < n ==> !(#[trigger] e[i]).filled
  decreases n
{ if n > 0 { lemma_cnt_le(e, n - 1); } }
pub proof fn lemma_cnt_update<K, V>(e: Seq<entry<K, V>>, i: int, x: entry<K, V>, n: int)
  requires 0 <= n <= e.len(), 0 <= i < e.len()
  ensures cnt(e.update(i, x), n) == cnt(e, n) + if i < n { (if x.filled { 1int } else { 0 }) - (if e[i].filled { 1int } else { 0 }) } else { 0 }
  decreases n
{ if n > 0 { lemma_cnt_update(e, i, x, n - 1); } }
pub proof fn lemma_hole<K, V>(e: Seq<entry<K, V>>) -> (z: int)
  requires cnt(e, e.len() as int) < e.len()
  ensures 0 <= z < e.len() && !e[z].filled
{
  lemma_cnt_le(e, e.len() as int);
  choose|z: int| 0 <= z < e.len() && !(#[trigger] e[z]).filled
}
pub proof fn lemma_fresh_table<K, V>(e: Seq<entry<K, V>>, n: int)
  requires 0 <= n <= e.len(), forall|i: int| 0 <= i < e.len() ==> !(#[trigger] e[i]).filled
  ensures cnt(e, n) == 0, vm(e, n) == Map::<K, V>::empty()
  decreases n
{ if n > 0 { lemma_fresh_table(e, n - 1); } }

// the probe stopped at the empty slot x: no slot holds k
pub proof fn lemma_absent<K, V>(e: Seq<entry<K, V>>, h: spec_fn(K) -> int, eq: spec_fn(K, K) -> bool, k: K, x: int)
  requires reach(e, h, eq, k), respects(h, eq), 0 <= x < e.len(), !e[x].filled, probed(e, eq, k, home(h, e.len() as int, k), x), pow2(e.len() as int)
  ensures absent(e, eq, k)
{
  let a = home(h, e.len() as int, k);
  lemma_mask(h(k), e.len() as int);
  assert forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled implies !eq(e[i].key, k) by {
    if eq(e[i].key, k) {
      assert(chain_i(e, h, i)); assert(home(h, e.len() as int, e[i].key) == a);
      if incyc(a, x, i) { assert(e[x].filled); }
      assert(incyc(a, i, x));
    }
  }
}
// overwriting the value in slot i
pub proof fn lemma_overwrite<K, V>(e: Seq<entry<K, V>>, e2: Seq<entry<K, V>>, h: spec_fn(K) -> int, eq: spec_fn(K, K) -> bool, i: int)
  requires distinct(e, eq), equiv(eq), 0 <= i < e.len(), e[i].filled, e2 == e.update(i, e2[i]), e2[i].filled, e2[i].key == e[i].key
  ensures distinct(e2, eq), chain(e, h) ==> chain(e2, h), cnt(e2, e2.len() as int) == cnt(e, e.len() as int),
    vmap(e).dom().contains(e[i].key), vmap(e2) == vmap(e).insert(e[i].key, e2[i].value)
{
  let n = e.len() as int;
  lemma_cnt_update(e, i, e2[i], n);
  assert forall|a: int, b: int| #![trigger e2[a], e2[b]] 0 <= a < n && 0 <= b < n && a != b && e2[a].filled && e2[b].filled implies !eq(e2[a].key, e2[b].key) by { let x = e[a]; let y = e[b]; }
  lemma_vm(e, eq, n); lemma_vm(e2, eq, n);
  let m1 = vmap(e).insert(e[i].key, e2[i].value); let m2 = vmap(e2);
  assert forall|k: K| m1.dom().contains(k) == #[trigger] m2.dom().contains(k) && (m2.dom().contains(k) ==> m1[k] == m2[k]) by {
    if m2.dom().contains(k) { let q = choose|q: int| 0 <= q < n && (#[trigger] e2[q]).filled && e2[q].key == k; assert(e[q].filled); if q != i { assert(!eq(e[q].key, e[i].key)); assert(eq(k, k)); } }
    if vmap(e).dom().contains(k) { let q = choose|q: int| 0 <= q < n && (#[trigger] e[q]).filled && e[q].key == k; assert(e2[q].filled); }
  }
  assert(m1.dom() =~= m2.dom()) by { assert forall|k: K| m1.dom().contains(k) == m2.dom().contains(k) by {} }
  assert forall|k: K| #[trigger] m1.dom().contains(k) implies m1[k] == m2[k] by { assert(m2.dom().contains(k)); }
  assert(m1 =~= m2);
  if chain(e, h) {
    assert forall|a: int| 0 <= a < n && (#[trigger] e2[a]).filled implies chain_i(e2, h, a) by {
      assert(e[a].filled && chain_i(e, h, a));
      assert forall|j: int| 0 <= j < n && incyc(home(h, n, e2[a].key), j, a) implies (#[trigger] e2[j]).filled by { assert(e[j].filled); }
    }
  }
}
// filling the empty slot x with a key that is absent
pub proof fn lemma_insert<K, V>(e: Seq<entry<K, V>>, e2: Seq<entry<K, V>>, h: spec_fn(K) -> int, eq: spec_fn(K, K) -> bool, x: int)
  requires distinct(e, eq), equiv(eq), 0 <= x < e.len(), !e[x].filled, e2 == e.update(x, e2[x]), e2[x].filled, absent(e, eq, e2[x].key),
    forall|j: int| 0 <= j < e.len() && incyc(home(h, e.len() as int, e2[x].key), j, x) ==> (#[trigger] e[j]).filled,
  ensures distinct(e2, eq), chain_i(e2, h, x), chain(e, h) ==> chain(e2, h), cnt(e2, e2.len() as int) == cnt(e, e.len() as int) + 1,
    forall|i: int| 0 <= i < e.len() && i != x && chain_i(e, h, i) ==> #[trigger] chain_i(e2, h, i),
    !vmap(e).dom().contains(e2[x].key), vmap(e2) == vmap(e).insert(e2[x].key, e2[x].value)
{
  let n = e.len() as int; let k0 = e2[x].key;
  lemma_cnt_update(e, x, e2[x], n);
  assert forall|a: int, b: int| #![trigger e2[a], e2[b]] 0 <= a < n && 0 <= b < n && a != b && e2[a].filled && e2[b].filled implies !eq(e2[a].key, e2[b].key) by { let p = e[a]; let q = e[b]; if a == x { if eq(k0, e2[b].key) { assert(eq(e[b].key, k0)); } } }
  lemma_vm(e, eq, n); lemma_vm(e2, eq, n);
  if vmap(e).dom().contains(k0) { let q = choose|q: int| 0 <= q < n && (#[trigger] e[q]).filled && e[q].key == k0; assert(eq(k0, k0)); assert(false); }
  let m1 = vmap(e).insert(k0, e2[x].value); let m2 = vmap(e2);
  assert forall|k: K| m1.dom().contains(k) == #[trigger] m2.dom().contains(k) && (m2.dom().contains(k) ==> m1[k] == m2[k]) by {
    if m2.dom().contains(k) { let q = choose|q: int| 0 <= q < n && (#[trigger] e2[q]).filled && e2[q].key == k; if q != x { assert(e[q].filled); } }
    if vmap(e).dom().contains(k) { let q = choose|q: int| 0 <= q < n && (#[trigger] e[q]).filled && e[q].key == k; assert(e2[q].filled); }
  }
  assert(m1.dom() =~= m2.dom()) by { assert forall|k: K| m1.dom().contains(k) == m2.dom().contains(k) by {} }
  assert forall|k: K| #[trigger] m1.dom().contains(k) implies m1[k] == m2[k] by { assert(m2.dom().contains(k)); }
  assert(m1 =~= m2);
  assert(chain_i(e2, h, x)) by { assert forall|j: int| 0 <= j < n && incyc(home(h, n, k0), j, x) implies (#[trigger] e2[j]).filled by { assert(e[j].filled); } }
  assert forall|i: int| 0 <= i < n && i != x && chain_i(e, h, i) implies #[trigger] chain_i(e2, h, i) by {
    assert forall|j: int| 0 <= j < n && incyc(home(h, n, e2[i].key), j, i) implies (#[trigger] e2[j]).filled by { assert(e[j].filled); }
  }
  if chain(e, h) { assert forall|i: int| 0 <= i < n && (#[trigger] e2[i]).filled implies chain_i(e2, h, i) by { if i != x { assert(e[i].filled); } } }
}
// emptying slot x
pub proof fn lemma_delete<K, V>(e: Seq<entry<K, V>>, e2: Seq<entry<K, V>>, eq: spec_fn(K, K) -> bool, x: int)
  requires distinct(e, eq), equiv(eq), 0 <= x < e.len(), e[x].filled, e2 == e.update(x, e2[x]), !e2[x].filled
  ensures distinct(e2, eq), cnt(e2, e2.len() as int) == cnt(e, e.len() as int) - 1, absent(e2, eq, e[x].key),
    vmap(e).dom().contains(e[x].key), vmap(e2) == vmap(e).remove(e[x].key), vmap(e)[e[x].key] == e[x].value
{
  let n = e.len() as int; let k0 = e[x].key;
  lemma_cnt_update(e, x, e2[x], n);
  assert forall|a: int, b: int| #![trigger e2[a], e2[b]] 0 <= a < n && 0 <= b < n && a != b && e2[a].filled && e2[b].filled implies !eq(e2[a].key, e2[b].key) by { let p = e[a]; let q = e[b]; }
  assert forall|i: int| 0 <= i < n && (#[trigger] e2[i]).filled implies !eq(e2[i].key, k0) by { let p = e[i]; let q = e[x]; }
  lemma_vm(e, eq, n); lemma_vm(e2, eq, n);
  let m1 = vmap(e).remove(k0); let m2 = vmap(e2);
  assert forall|k: K| m1.dom().contains(k) == #[trigger] m2.dom().contains(k) && (m2.dom().contains(k) ==> m1[k] == m2[k]) by {
    if m2.dom().contains(k) { let q = choose|q: int| 0 <= q < n && (#[trigger] e2[q]).filled && e2[q].key == k; assert(e[q].filled); assert(eq(k, k)); }
    if vmap(e).dom().contains(k) { let q = choose|q: int| 0 <= q < n && (#[trigger] e[q]).filled && e[q].key == k; if q != x { assert(e2[q].filled); } }
  }
  assert(m1 =~= m2);
}

// ---- hash maps

pub open spec fn ent<K, V>(s: S<K, V>, p: int) -> Seq<entry<K, V>> { sv(s.arr_hashmap_entry_K_V, s.Map[p].entries) }
// the pairs held; at most one key of each equivalence class
pub open spec fn view<K, V>(s: S<K, V>, p: int) -> Map<K, V> { vmap(ent(s, p)) }
pub open spec fn same<K, V>(s: S<K, V>, p: int) -> spec_fn(K, K) -> bool { s.Map[p].ops.equals }
pub open spec fn base<K, V>(s: S<K, V>, p: int) -> bool {
  let m = s.Map[p];
  &&& p != 0 && s.Map.dom().contains(p)
  &&& slwf(s.arr_hashmap_entry_K_V, m.entries) && m.entries.arr != 0 && m.entries.len == m.capacity
  &&& pow2(m.capacity)
  &&& equiv(m.ops.equals) && respects(m.ops.hash, m.ops.equals)
  &&& distinct(ent(s, p), m.ops.equals)
  &&& 0 <= m.length <= m.capacity / 2
}
// wf, except that the length counts k elements too many
pub open spec fn wfs<K, V>(s: S<K, V>, p: int, k: int) -> bool {
  base(s, p) && k >= 0 && s.Map[p].length == cnt(ent(s, p), s.Map[p].capacity) + k && chain(ent(s, p), s.Map[p].ops.hash)
}
pub open spec fn wf<K, V>(s: S<K, V>, p: int) -> bool { wfs(s, p, 0) }
// the two maps share no storage that either may write to
pub open spec fn separate<K, V>(s: S<K, V>, p: int, q: int) -> bool {
  p != q && (s.Map[p].entries.arr != s.Map[q].entries.arr || s.Map[p].readonly && s.Map[q].readonly)
}
pub open spec fn frame<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  &&& s.Map.dom().contains(p)
  &&& forall|q: int| q != p && #[trigger] s0.Map.dom().contains(q) ==> s.Map.dom().contains(q) && s.Map[q] == s0.Map[q]
  &&& forall|a: int| #[trigger] s0.arr_hashmap_entry_K_V.dom().contains(a) && (a != s0.Map[p].entries.arr || s0.Map[p].readonly) ==> s.arr_hashmap_entry_K_V.dom().contains(a) && s.arr_hashmap_entry_K_V[a] == s0.arr_hashmap_entry_K_V[a]
  &&& forall|a: int| #[trigger] s0.arr_hashmap_entry_K_V.dom().contains(a) ==> s.arr_hashmap_entry_K_V.dom().contains(a)
  &&& (s.Map[p].entries.arr == s0.Map[p].entries.arr && s.Map[p].readonly == s0.Map[p].readonly || !s0.arr_hashmap_entry_K_V.dom().contains(s.Map[p].entries.arr))
  &&& s.Map[p].ops == s0.Map[p].ops
}
// everything that existed is as it was
pub open spec fn keeps<K, V>(s0: S<K, V>, s: S<K, V>) -> bool {
  &&& forall|q: int| #[trigger] s0.Map.dom().contains(q) ==> s.Map.dom().contains(q) && s.Map[q] == s0.Map[q]
  &&& forall|a: int| #[trigger] s0.arr_hashmap_entry_K_V.dom().contains(a) ==> s.arr_hashmap_entry_K_V.dom().contains(a) && s.arr_hashmap_entry_K_V[a] == s0.arr_hashmap_entry_K_V[a]
}
pub open spec fn others_kept<K, V>(s0: S<K, V>, s: S<K, V>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && ent(s, q) == ent(s0, q) && s.Map[q] == s0.Map[q]
}
pub proof fn lemma_others<K, V>(s0: S<K, V>, s: S<K, V>, p: int)
  requires frame(s0, s, p), s0.Map.dom().contains(p)
  ensures others_kept(s0, s, p)
{
}
pub open spec fn holds_key<K, V>(m: Map<K, V>, eq: spec_fn(K, K) -> bool, k: K) -> bool { exists|x: K| #[trigger] m.dom().contains(x) && eq(x, k) }
pub open spec fn put_post<K, V>(m0: Map<K, V>, m: Map<K, V>, eq: spec_fn(K, K) -> bool, k: K, v: V) -> bool {
  if holds_key(m0, eq, k) { exists|x: K| #[trigger] m0.dom().contains(x) && eq(x, k) && m == m0.insert(x, v) } else { m == m0.insert(k, v) }
}
pub open spec fn remove_post<K, V>(m0: Map<K, V>, m: Map<K, V>, eq: spec_fn(K, K) -> bool, k: K) -> bool {
  if holds_key(m0, eq, k) { exists|x: K| #[trigger] m0.dom().contains(x) && eq(x, k) && m == m0.remove(x) } else { m == m0 }
}
pub proof fn lemma_absent_view<K, V>(e: Seq<entry<K, V>>, eq: spec_fn(K, K) -> bool, k: K)
  requires distinct(e, eq), equiv(eq)
  ensures absent(e, eq, k) == !holds_key(vmap(e), eq, k)
{
  lemma_vm(e, eq, e.len() as int);
  if holds_key(vmap(e), eq, k) {
    let x = choose|x: K| #[trigger] vmap(e).dom().contains(x) && eq(x, k);
    let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled && e[i].key == x;
  }
  if !absent(e, eq, k) {
    let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled && eq(e[i].key, k);
    assert(vmap(e).dom().contains(e[i].key));
  }
}
// no two keys of the table are equal
pub proof fn lemma_keys_differ<K, V>(e: Seq<entry<K, V>>, eq: spec_fn(K, K) -> bool)
  requires distinct(e, eq), equiv(eq)
  ensures forall|a: K, b: K| #![trigger vmap(e).dom().contains(a), vmap(e).dom().contains(b)] vmap(e).dom().contains(a) && vmap(e).dom().contains(b) && eq(a, b) ==> a == b
{
  lemma_vm(e, eq, e.len() as int);
  assert forall|a: K, b: K| #![trigger vmap(e).dom().contains(a), vmap(e).dom().contains(b)] vmap(e).dom().contains(a) && vmap(e).dom().contains(b) && eq(a, b) implies a == b by {
    let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled && e[i].key == a;
    let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).filled && e[j].key == b;
  }
}
// what Put does to the table when it does not grow
pub open spec fn put_low<K, V>(e: Seq<entry<K, V>>, e2: Seq<entry<K, V>>, h: spec_fn(K) -> int, eq: spec_fn(K, K) -> bool, k: K, v: V) -> bool {
  if absent(e, eq, k) {
    exists|x: int| 0 <= x < e.len() && !(#[trigger] e[x]).filled && e2 == e.update(x, entry { key: k, filled: true, value: v })
      && forall|j: int| 0 <= j < e.len() && incyc(home(h, e.len() as int, k), j, x) ==> (#[trigger] e[j]).filled
  } else {
    exists|x: int| 0 <= x < e.len() && (#[trigger] e[x]).filled && eq(e[x].key, k) && e2 == e.update(x, entry { key: e[x].key, filled: true, value: v })
  }
}

pub proof fn lemma_cnt_mono<K, V>(e: Seq<entry<K, V>>, a: int, b: int)
  requires 0 <= a <= b <= e.len()
  ensures cnt(e, a) <= cnt(e, b)
  decreases b
{ if a < b { lemma_cnt_mono(e, a, b - 1); } }
// the first empty slot at or after i, given some empty slot y
pub proof fn lemma_scan<K, V>(e: Seq<entry<K, V>>, i: int, y: int) -> (z: int)
  requires 0 <= i < e.len(), 0 <= y < e.len(), !e[y].filled
  ensures 0 <= z < e.len() && !e[z].filled, forall|j: int| 0 <= j < e.len() && incyc(i, j, z) ==> (#[trigger] e[j]).filled
  decreases dist(i, y, e.len() as int)
{
  if !e[i].filled { i } else {
    let z = lemma_scan(e, nxt(i, e.len() as int), y);
    assert forall|j: int| 0 <= j < e.len() && incyc(i, j, z) implies (#[trigger] e[j]).filled by { if j != i { assert(incyc(nxt(i, e.len() as int), j, z)); } }
    z
  }
}
// one step of the rehash after a removal: the entry at idx is taken out (ea) and put back (e2);
// e0 is the table before the removal and z its first empty slot after the removed one
pub proof fn lemma_rehash<K, V>(e0: Seq<entry<K, V>>, e: Seq<entry<K, V>>, ea: Seq<entry<K, V>>, e2: Seq<entry<K, V>>, h: spec_fn(K) -> int, eq: spec_fn(K, K) -> bool, idx: int, z: int)
  requires
    distinct(e, eq), equiv(eq), respects(h, eq), pow2(e.len() as int), chain(e0, h), e0.len() == e.len(), 0 <= idx < e.len(), 0 <= z < e.len(), idx != z,
    !e0[z].filled, !e[z].filled, e[idx].filled,
    forall|j: int| 0 <= j < e.len() && incyc(idx, j, z) ==> (#[trigger] e[j]) == e0[j] && e[j].filled,
    forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).filled && !incyc(idx, i, z) ==> chain_i(e, h, i),
    ea == e.update(idx, ea[idx]), !ea[idx].filled, distinct(ea, eq), absent(ea, eq, e[idx].key),
    vmap(ea) == vmap(e).remove(e[idx].key), vmap(e).dom().contains(e[idx].key), vmap(e)[e[idx].key] == e[idx].value,
    put_low(ea, e2, h, eq, e[idx].key, e[idx].value),
  ensures
    distinct(e2, eq), !e2[z].filled, vmap(e2) == vmap(e), cnt(e2, e2.len() as int) == cnt(ea, ea.len() as int) + 1,
    forall|j: int| 0 <= j < e.len() && incyc(nxt(idx, e.len() as int), j, z) ==> (#[trigger] e2[j]) == e0[j] && e2[j].filled,
    forall|i: int| 0 <= i < e.len() && (#[trigger] e2[i]).filled && !incyc(nxt(idx, e.len() as int), i, z) ==> chain_i(e2, h, i),
{
  let n = e.len() as int; let k = e[idx].key; let v = e[idx].value; let a = home(h, n, k);
  lemma_mask(h(k), n);
  let x = choose|x: int| 0 <= x < ea.len() && !(#[trigger] ea[x]).filled && e2 == ea.update(x, entry { key: k, filled: true, value: v })
      && forall|j: int| 0 <= j < ea.len() && incyc(home(h, ea.len() as int, k), j, x) ==> (#[trigger] ea[j]).filled;
  lemma_insert(ea, e2, h, eq, x);
  assert(vmap(e2) =~= vmap(e));
  assert(chain_i(e0, h, idx)) by { assert(e0[idx] == e[idx]); }
  assert(!incyc(a, z, idx)) by { if incyc(a, z, idx) { assert(e0[z].filled); } }
  assert(!incyc(a, idx, x)) by { if incyc(a, idx, x) { assert(ea[idx].filled); } }
  assert(x != z) ;
  assert forall|j: int| 0 <= j < n && incyc(nxt(idx, n), j, z) implies (#[trigger] e2[j]) == e0[j] && e2[j].filled by { assert(incyc(idx, j, z)); assert(e[j].filled && ea[j] == e[j]); assert(j != x); }
  assert forall|i: int| 0 <= i < n && (#[trigger] e2[i]).filled && !incyc(nxt(idx, n), i, z) implies chain_i(e2, h, i) by {
    if i != x {
      assert(ea[i].filled); assert(i != idx); assert(e[i].filled); assert(i != z); assert(!incyc(idx, i, z));
      assert(chain_i(e, h, i));
      let b = home(h, n, e[i].key); lemma_mask(h(e[i].key), n);
      assert(!incyc(b, z, i)) by { if incyc(b, z, i) { assert(e[z].filled); } }
      assert(!incyc(b, idx, i));
      assert(chain_i(ea, h, i)) by { assert forall|j: int| 0 <= j < n && incyc(b, j, i) implies (#[trigger] ea[j]).filled by { assert(e[j].filled); assert(j != idx); } }
    }
  }
}

@func pow2ceil (num) (r)
@requires 1 <= num <= 0x1_0000_0000_0000
@ensures pow2(r) && r >= num
@loop 1
@loopbefore assert(1u64 & 0u64 == 0) by(bit_vector); assert(pow2(1));
@invariant pow2(v_power)
@loopentry lemma_double(v_power);
@decreases 0x1_0000_0000_0000 - v_power

@func New (capacity, equals, hash) (r)
@requires 0 <= capacity <= 0x1_0000_0000_0000
@requires equiv(equals) && respects(hash, equals)
@ensures wf(s, r) && view(s, r) == Map::<K, V>::empty() && same(s, r) == equals
@ensures !s0.Map.dom().contains(r) && keeps(s0, s) && !s0.arr_hashmap_entry_K_V.dom().contains(s.Map[r].entries.arr)
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && separate(s, r, q) && ent(s, q) == ent(s0, q) && s.Map[q] == s0.Map[q]
@exit let e = ent(s, r); lemma_fresh_table(e, e.len() as int);

@func Map.Get (p, key) (v, ok)
@requires wf(s, p)
@ensures ok == holds_key(view(s, p), same(s, p), key)
@ensures ok ==> exists|k: K| #[trigger] view(s, p).dom().contains(k) && (same(s, p))(k, key) && v == view(s, p)[k]
@ensures !ok ==> v == zero::<V>()
@loop 1
@loopbefore let e = ent(s, p); let c = s.Map[p].capacity; let h = s.Map[p].ops.hash; let eq = s.Map[p].ops.equals; lemma_cnt_le(e, c); let z = lemma_hole(e); lemma_mask(h(key), c); lemma_vm(e, eq, c); lemma_absent_view(e, eq, key);
@invariant 0 <= v_idx < c && probed(e, eq, key, home(h, c, key), v_idx)
@invariant dist(home(h, c, key), v_idx, c) + dist(v_idx, z, c) == dist(home(h, c, key), z, c)
@loopentry lemma_next(v_idx, c); assert(add64(v_idx, 1) == v_idx + 1) by { vstd::arithmetic::div_mod::lemma_small_mod((v_idx + 1) as nat, 0x1_0000_0000_0000_0000); } assert(e[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]);
@decreases dist(v_idx, z, c)
@loopexit assert(e[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]); if !e[v_idx].filled { lemma_absent(e, h, eq, key, v_idx); }

@func Map.resize (p, newcap)
@decreases 1int
@requires wf(s, p)
@requires newcap <= 0x1_0000_0000_0000 ==> pow2(newcap)
@requires 0 <= newcap && 4 * s.Map[p].length <= newcap && newcap >= 2
@ensures wf(s, p) && frame(s0, s, p) && view(s, p) == view(s0, p)
@ensures s.Map[p].capacity == newcap && pow2(newcap) && s.Map[p].length == s0.Map[p].length && !s0.arr_hashmap_entry_K_V.dom().contains(s.Map[p].entries.arr)
@loop 1
@loopbefore let e0 = ent(s0, p); let n = s0.Map[p].length; let h = s0.Map[p].ops.hash; let eq = s0.Map[p].ops.equals; lemma_fresh_table(ent(s, v_newm), newcap); lemma_half(newcap);
@invariant keeps(s0, s) && v_newm != 0 && !s0.Map.dom().contains(v_newm) && base(s, v_newm) && !s0.arr_hashmap_entry_K_V.dom().contains(s.Map[v_newm].entries.arr)
@invariant s.Map[v_newm].capacity == newcap && s.Map[v_newm].ops == s0.Map[p].ops && !s.Map[v_newm].readonly
@invariant s.Map[v_newm].length == n + cnt(e0, it1) && cnt(ent(s, v_newm), newcap) == cnt(e0, it1) && chain(ent(s, v_newm), h)
@invariant view(s, v_newm) == vm(e0, it1)
@loopentry assert(e0[it1] == s.arr_hashmap_entry_K_V[rs1.arr][rs1.off + it1]); lemma_cnt_mono(e0, it1 + 1, e0.len() as int); lemma_cnt_mono(e0, 0, it1); lemma_vm(e0, eq, it1); lemma_vm(ent(s, v_newm), eq, newcap); lemma_absent_view(ent(s, v_newm), eq, e0[it1].key);
@loopexit assert(it1 == e0.len());

@func Map.Put (p, key, val)
@decreases if s.Map[p].length >= gdiv(s.Map[p].capacity, 2) { 2int } else { 0int }
@requires base(s, p) && s.Map[p].length >= cnt(ent(s, p), s.Map[p].capacity) && reach(ent(s, p), s.Map[p].ops.hash, same(s, p), key)
@requires s.Map[p].length >= gdiv(s.Map[p].capacity, 2) ==> wf(s, p)
@ensures base(s, p) && frame(s0, s, p)
@ensures put_post(view(s0, p), view(s, p), same(s, p), key, val)
@ensures s.Map[p].length == s0.Map[p].length + (if holds_key(view(s0, p), same(s, p), key) { 0int } else { 1 })
@ensures s.Map[p].length - cnt(ent(s, p), s.Map[p].capacity) == s0.Map[p].length - cnt(ent(s0, p), s0.Map[p].capacity)
@ensures chain(ent(s0, p), s0.Map[p].ops.hash) ==> chain(ent(s, p), s.Map[p].ops.hash)
@ensures s0.Map[p].length < gdiv(s0.Map[p].capacity, 2) ==> put_low(ent(s0, p), ent(s, p), s.Map[p].ops.hash, same(s, p), key, val) && s.Map[p].capacity == s0.Map[p].capacity && !s.Map[p].readonly && (!s0.Map[p].readonly ==> s.Map[p].entries == s0.Map[p].entries)
@ensures wf(s0, p) ==> wf(s, p)
@ensures[H02] others_kept(s0, s, p)
@entry lemma_half(s.Map[p].capacity); lemma_double2(s.Map[p].capacity);
@loop 1
@loopbefore let sl = s; let e = ent(s, p); let c = s.Map[p].capacity; let h = s.Map[p].ops.hash; let eq = s.Map[p].ops.equals; if s0.Map[p].length < gdiv(s0.Map[p].capacity, 2) { assert(e =~= ent(s0, p)); } lemma_half(c); lemma_cnt_le(e, c); let z = lemma_hole(e); lemma_mask(h(key), c); lemma_vm(e, eq, c); lemma_absent_view(e, eq, key); assert(frame(s0, s, p));
@invariant s == sl && 0 <= v_idx < c && probed(e, eq, key, home(h, c, key), v_idx)
@invariant dist(home(h, c, key), v_idx, c) + dist(v_idx, z, c) == dist(home(h, c, key), z, c)
@loopentry lemma_next(v_idx, c); assert(add64(v_idx, 1) == v_idx + 1) by { vstd::arithmetic::div_mod::lemma_small_mod((v_idx + 1) as nat, 0x1_0000_0000_0000_0000); } assert(e[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]);
@decreases dist(v_idx, z, c)
@loopexit assert(e[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]); if !e[v_idx].filled { lemma_absent(e, h, eq, key, v_idx); } assert(add64(s.Map[p].length, 1) == s.Map[p].length + 1) by { vstd::arithmetic::div_mod::lemma_small_mod((s.Map[p].length + 1) as nat, 0x1_0000_0000_0000_0000); }
@exit let e2 = ent(s, p); assert(e2 =~= e.update(v_idx, e2[v_idx])); if e[v_idx].filled { lemma_overwrite(e, e2, h, eq, v_idx); } else { lemma_insert(e, e2, h, eq, v_idx); } lemma_others(s0, s, p);

@func Map.remove (p, idx)
@requires base(s, p) && !s.Map[p].readonly && 0 <= idx < s.Map[p].capacity && ent(s, p)[idx].filled && s.Map[p].length >= 1
@ensures base(s, p) && frame(s0, s, p) && s.Map == s0.Map.insert(p, GoMap { length: (s0.Map[p].length - 1) as int, ..s0.Map[p] })
@ensures ent(s, p) == ent(s0, p).update(idx, ent(s, p)[idx]) && !ent(s, p)[idx].filled
@ensures cnt(ent(s, p), s.Map[p].capacity) == cnt(ent(s0, p), s.Map[p].capacity) - 1 && absent(ent(s, p), same(s, p), ent(s0, p)[idx].key)
@ensures view(s0, p).dom().contains(ent(s0, p)[idx].key) && view(s0, p)[ent(s0, p)[idx].key] == ent(s0, p)[idx].value && view(s, p) == view(s0, p).remove(ent(s0, p)[idx].key)
@exit let e = ent(s0, p); let e2 = ent(s, p); assert(e2 =~= e.update(idx, e2[idx])); lemma_delete(e, e2, s.Map[p].ops.equals, idx); assert(s.Map =~= s0.Map.insert(p, GoMap { length: (s0.Map[p].length - 1) as int, ..s0.Map[p] }));

@func Map.Remove (p, key)
@requires wf(s, p)
@ensures wf(s, p) && frame(s0, s, p) && remove_post(view(s0, p), view(s, p), same(s, p), key)
@ensures[H02] others_kept(s0, s, p)
@entry lemma_half(s.Map[p].capacity);
@loop 1
@loopbefore let e0 = ent(s, p); let c = s.Map[p].capacity; let h = s.Map[p].ops.hash; let eq = s.Map[p].ops.equals; lemma_cnt_le(e0, c); let y = lemma_hole(e0); lemma_mask(h(key), c); lemma_vm(e0, eq, c); lemma_absent_view(e0, eq, key);
@invariant 0 <= v_idx < c && probed(e0, eq, key, home(h, c, key), v_idx)
@invariant dist(home(h, c, key), v_idx, c) + dist(v_idx, y, c) == dist(home(h, c, key), y, c)
@loopentry lemma_next(v_idx, c); assert(e0[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]);
@decreases dist(v_idx, y, c)
@loopexit assert(e0[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]); if !e0[v_idx].filled { lemma_absent(e0, h, eq, key, v_idx); lemma_others(s0, s, p); }
@before Map.remove#1 let sm = s; assert(base(s, p) && !s.Map[p].readonly && frame(s0, s, p) && s.Map[p].length >= 1); assert(ent(s, p) =~= e0); assert(cnt(e0, c) > 0) by { lemma_cnt_le(e0, c); } let r = v_idx; let z = lemma_scan(e0, r, y); lemma_next(r, c); let k0 = e0[r].key; assert(vmap(e0).dom().contains(k0));
@loop 2
@loopbefore assert(frame(sm, s, p)); assert(frame(s0, s, p)); assert forall|i: int| 0 <= i < c && (#[trigger] ent(s, p)[i]).filled && !incyc(v_idx, i, z) implies chain_i(ent(s, p), h, i) by { let e = ent(s, p); assert(e0[i].filled && chain_i(e0, h, i)); assert(i != r); let b = home(h, c, e0[i].key); lemma_mask(h(e0[i].key), c); assert(!incyc(b, z, i)) by { if incyc(b, z, i) { assert(e0[z].filled); } } assert forall|j: int| 0 <= j < c && incyc(b, j, i) implies (#[trigger] e[j]).filled by { assert(e0[j].filled); assert(j != r); } }
@invariant base(s, p) && !s.Map[p].readonly && s.Map[p].capacity == c && s.Map[p].ops == s0.Map[p].ops && frame(s0, s, p)
@invariant 0 <= v_idx < c && dist(r, v_idx, c) >= 1 && dist(r, v_idx, c) + dist(v_idx, z, c) == dist(r, z, c)
@invariant !ent(s, p)[z].filled && view(s, p) == vmap(e0).remove(k0)
@invariant s.Map[p].length == cnt(ent(s, p), c) && s.Map[p].length + 1 == s0.Map[p].length
@invariant forall|j: int| 0 <= j < c && incyc(v_idx, j, z) ==> (#[trigger] ent(s, p)[j]) == e0[j] && e0[j].filled
@invariant forall|i: int| 0 <= i < c && (#[trigger] ent(s, p)[i]).filled && !incyc(v_idx, i, z) ==> chain_i(ent(s, p), h, i)
@loopentry let se = s; let e = ent(s, p); lemma_next(v_idx, c); assert(e[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]); assert(v_idx != z); lemma_cnt_le(e, c); let i0 = v_idx;
@after Map.remove#2 let ea = ent(s, p); lemma_absent_view(ea, eq, e[i0].key);
@loopend lemma_rehash(e0, e, ea, ent(s, p), h, eq, i0, z);
@decreases dist(v_idx, z, c)
@loopexit assert(ent(s, p)[v_idx] == s.arr_hashmap_entry_K_V[s.Map[p].entries.arr][s.Map[p].entries.off + v_idx]); assert(v_idx == z); assert(chain(ent(s, p), h)); assert(wf(s, p)); lemma_others(s0, s, p);
@exit lemma_others(s0, s, p);

@func Map.Clear (p)
@requires wf(s, p)
@ensures wf(s, p) && frame(s0, s, p) && view(s, p) == Map::<K, V>::empty()
@ensures[H02] others_kept(s0, s, p)
@loop 1
@invariant base(s, p) && !s.Map[p].readonly && s.Map[p].capacity == s0.Map[p].capacity && s.Map[p].entries == s0.Map[p].entries && frame(s0, s, p)
@invariant s.Map[p].length == cnt(ent(s, p), s.Map[p].capacity) && forall|i: int| 0 <= i < it1 ==> !(#[trigger] ent(s, p)[i]).filled
@loopentry assert(ent(s, p)[it1] == s.arr_hashmap_entry_K_V[rs1.arr][rs1.off + it1]); lemma_cnt_le(ent(s, p), s.Map[p].capacity); vstd::arithmetic::div_mod::lemma_small_mod(it1 as nat, 0x1_0000_0000_0000_0000);
@exit let e = ent(s, p); lemma_fresh_table(e, e.len() as int); lemma_others(s0, s, p);

@func Map.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).dom().len()
@ensures forall|a: K, b: K| #![trigger view(s, p).dom().contains(a), view(s, p).dom().contains(b)] view(s, p).dom().contains(a) && view(s, p).dom().contains(b) && (same(s, p))(a, b) ==> a == b
@exit lemma_vm(ent(s, p), s.Map[p].ops.equals, s.Map[p].capacity); lemma_keys_differ(ent(s, p), s.Map[p].ops.equals);

@func Map.Copy (p) (r)
@requires wf(s, p)
@ensures wf(s, r) && wf(s, p) && ent(s, p) == ent(s0, p) && view(s, p) == view(s0, p) && view(s, r) == view(s0, p) && same(s, r) == same(s, p) && same(s, p) == same(s0, p)
@ensures[H02] separate(s, p, r) && !s0.Map.dom().contains(r)
@ensures[H02] forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && separate(s, r, q) && ent(s, q) == ent(s0, q) && s.Map[q] == s0.Map[q]

@func Map.Each (p, fn)
@requires wf(s, p)
@ensures ({ let d = tr.skip(tr0.len() as int); tr.len() == tr0.len() + view(s, p).dom().len() && tr.take(tr0.len() as int) == tr0
  && (forall|i: int| 0 <= i < d.len() ==> view(s, p).dom().contains((#[trigger] d[i]).0) && view(s, p)[d[i].0] == d[i].1)
  && (forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).0 != (#[trigger] d[j]).0) })
@loop 1
@invariant tr =~= tr0 + listed(ent(s, p), it1)
@loopentry assert(ent(s, p)[it1] == s.arr_hashmap_entry_K_V[rs1.arr][rs1.off + it1]);
@loopexit lemma_vm(ent(s, p), s.Map[p].ops.equals, s.Map[p].capacity); assert(tr.take(tr0.len() as int) =~= tr0); assert(tr.skip(tr0.len() as int) =~= listed(ent(s, p), it1));
