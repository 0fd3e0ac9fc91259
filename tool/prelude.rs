#![allow(non_camel_case_types, non_snake_case, unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, unreachable_code, unused_labels, non_upper_case_globals)]
use vstd::prelude::*;
pub use vstd::multiset::Multiset;
verus! {
//@fn prelude.lemmas prelude.rs

// ---- translation primitives (trusted; they define the meaning of the translation)

#[verifier::external_body]
pub proof fn havoc<T>() -> (r: T) { unimplemented!() }

// an address that is not in use
#[verifier::external_body]
pub proof fn fresh<V>(m: Map<int, V>) -> (r: int)
  ensures r > 0, !m.dom().contains(r)
{ unimplemented!() }

pub uninterp spec fn zero<T>() -> T;

pub ghost struct F64 { pub v: int }
pub uninterp spec fn f64_const(k: int) -> F64;
pub uninterp spec fn f64_of(k: int) -> F64;
pub uninterp spec fn f64_add(a: F64, b: F64) -> F64;
pub uninterp spec fn f64_sub(a: F64, b: F64) -> F64;
pub uninterp spec fn f64_mul(a: F64, b: F64) -> F64;
pub uninterp spec fn f64_div(a: F64, b: F64) -> F64;

// ---- ordered types (constraints.Ordered): a strict total order (floating-point NaN excluded)

pub uninterp spec fn olt<T>(a: T, b: T) -> bool;
// the number of elements or levels of something that exists in memory
pub open spec fn is_count(a: int) -> bool { -0x1000_0000_0000_0000 <= a <= 0x1000_0000_0000_0000 }
pub open spec fn is_len(a: int) -> bool { 0 <= a <= 0x1_0000_0000_0000 }
pub open spec fn ib64(a: int) -> bool { -0x8000_0000_0000_0000 <= a < 0x8000_0000_0000_0000 }
pub open spec fn ib32(a: int) -> bool { -0x8000_0000 <= a < 0x8000_0000 }
pub open spec fn ib16(a: int) -> bool { -0x8000 <= a < 0x8000 }
pub open spec fn ib8(a: int) -> bool { -0x80 <= a < 0x80 }
pub open spec fn ole<T>(a: T, b: T) -> bool { a == b || olt(a, b) }

pub mod axioms { use super::*;
pub broadcast axiom fn axiom_zero_int()
  ensures #[trigger] zero::<int>() == 0;
pub broadcast axiom fn axiom_zero_bool()
  ensures #[trigger] zero::<bool>() == false;

pub broadcast axiom fn axiom_olt_irrefl<T>(a: T)
  ensures !#[trigger] olt(a, a);
pub broadcast axiom fn axiom_olt_asym<T>(a: T, b: T)
  ensures #[trigger] olt(a, b) ==> !olt(b, a);
pub broadcast axiom fn axiom_olt_trans<T>(a: T, b: T, c: T)
  ensures #[trigger] olt(a, b) && #[trigger] olt(b, c) ==> olt(a, c);
pub broadcast axiom fn axiom_olt_total<T>(a: T, b: T)
  ensures #[trigger] olt(a, b) || a == b || olt(b, a);
pub broadcast axiom fn axiom_olt_int(a: int, b: int)
  ensures #[trigger] olt::<int>(a, b) == (a < b);
pub broadcast group group_order { axiom_olt_irrefl, axiom_olt_asym, axiom_olt_trans, axiom_olt_total, axiom_olt_int, axiom_zero_int, axiom_zero_bool }

}

// ---- machine integers

pub open spec fn gdiv(a: int, b: int) -> int {
  if (a >= 0) == (b > 0) { (if a < 0 { -a } else { a }) / (if b < 0 { -b } else { b }) } else { -((if a < 0 { -a } else { a }) / (if b < 0 { -b } else { b })) }
}
pub open spec fn gmod(a: int, b: int) -> int { a - b * gdiv(a, b) }
pub open spec fn to_u64(a: int) -> int { a % 0x1_0000_0000_0000_0000 }
pub open spec fn to_i64(a: int) -> int { if a >= 0x8000_0000_0000_0000 { a - 0x1_0000_0000_0000_0000 } else { a } }
pub open spec fn mul64(a: int, b: int) -> int { (a * b) % 0x1_0000_0000_0000_0000 }
pub open spec fn add64(a: int, b: int) -> int { (a + b) % 0x1_0000_0000_0000_0000 }
pub open spec fn band(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn bor(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn bxor(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn bnot(a: int) -> int { (!(a as u64)) as int }
pub open spec fn pow2n(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * pow2n(k - 1) } }
pub open spec fn shr(a: int, k: int) -> int { a / pow2n(k) }
pub open spec fn shr64(a: int, k: int) -> int { ((a as u64) >> (k as u64)) as int }
// FNV-1a
pub open spec fn fnv_step(h: int, c: int) -> int { mul64(bxor(h, c), 1099511628211) }
#[verifier::opaque]
pub open spec fn fnv_add(h: int, b: Seq<int>) -> int decreases b.len() { if b.len() == 0 { h } else { fnv_add(fnv_step(h, b[0]), b.skip(1)) } }
pub open spec fn fnv_hash(b: Seq<int>) -> int { fnv_add(14695981039346656037, b) }

// ---- slices

pub struct Slice { pub arr: int, pub off: int, pub len: int, pub cap: int }

pub open spec fn nil_slice() -> Slice { Slice { arr: 0, off: 0, len: 0, cap: 0 } }

// the elements of a slice
pub open spec fn sv<T>(m: Map<int, Seq<T>>, s: Slice) -> Seq<T> { m[s.arr].subrange(s.off, s.off + s.len) }

pub open spec fn slwf<T>(m: Map<int, Seq<T>>, s: Slice) -> bool {
  &&& 0 <= s.len <= s.cap <= 0x1_0000_0000_0000
  &&& 0 <= s.off
  &&& s.off + s.cap <= m[s.arr].len()
  &&& (s.arr == 0 ==> s.cap == 0)
  &&& (s.arr != 0 ==> m.dom().contains(s.arr))
}

pub open spec fn splice<T>(a: Seq<T>, at: int, x: Seq<T>) -> Seq<T> {
  Seq::new(a.len(), |i: int| if at <= i < at + x.len() { x[i - at] } else { a[i] })
}

// append(s, x...)
pub open spec fn append_post<T>(m0: Map<int, Seq<T>>, s: Slice, x: Seq<T>, m: Map<int, Seq<T>>, r: Slice) -> bool {
  &&& slwf(m, r)
  &&& r.len == s.len + x.len()
  &&& sv(m, r) == sv(m0, s) + x
  &&& x.len() == 0 ==> m == m0 && r == s
  &&& x.len() > 0 && s.len + x.len() <= s.cap ==> {
        &&& r == (Slice { len: s.len + x.len() as int, ..s })
        &&& m == m0.insert(s.arr, splice(m0[s.arr], s.off + s.len, x)) }
  &&& s.len + x.len() > s.cap ==> {
        &&& r.arr != s.arr && r.arr > 0 && r.off == 0 && !m0.dom().contains(r.arr)
        &&& m == m0.insert(r.arr, m[r.arr]) && m[r.arr].len() == r.cap }
}

pub proof fn append_seq<T>(m0: Map<int, Seq<T>>, s: Slice, x: Seq<T>) -> (ret: (Map<int, Seq<T>>, Slice))
  requires slwf(m0, s),
  ensures append_post(m0, s, x, ret.0, ret.1),
{
  if x.len() == 0 {
    assert(sv(m0, s) =~= sv(m0, s) + x);
    return (m0, s);
  }
  let n = s.len + x.len();
  if n <= s.cap {
    let a = splice(m0[s.arr], s.off + s.len, x);
    let m = m0.insert(s.arr, a);
    let r = Slice { len: n, ..s };
    assert(sv(m, r) =~= sv(m0, s) + x);
    return (m, r);
  }
  let f = fresh(m0);
  let c: int = havoc();
  assume(n <= c <= 0x1_0000_0000_0000);
  let pad: Seq<T> = havoc();
  assume(pad.len() == c - n);
  let m = m0.insert(f, sv(m0, s) + x + pad);
  let r = Slice { arr: f, off: 0, len: n, cap: c };
  assert(sv(m, r) =~= sv(m0, s) + x);
  if s.arr != 0 { } 
  return (m, r);
}

// copy(d, x)
pub proof fn copy_seq<T>(m0: Map<int, Seq<T>>, d: Slice, x: Seq<T>) -> (ret: (Map<int, Seq<T>>, int))
  requires slwf(m0, d),
  ensures
    ret.1 == (if d.len < x.len() { d.len } else { x.len() as int }),
    ret.1 == 0 ==> ret.0 == m0,
    ret.1 > 0 ==> ret.0 == m0.insert(d.arr, splice(m0[d.arr], d.off, x.take(ret.1))),
    slwf(ret.0, d),
{
  let n = if d.len < x.len() { d.len } else { x.len() as int };
  if n == 0 { return (m0, 0); }
  (m0.insert(d.arr, splice(m0[d.arr], d.off, x.take(n))), n)
}

pub proof fn slices_index<T>(q: Seq<T>, x: T) -> (r: int)
  ensures -1 <= r < q.len(), r < 0 ==> !q.contains(x), r >= 0 ==> q[r] == x, forall|j: int| 0 <= j < r ==> #[trigger] q[j] != x
  decreases q.len()
{
  if q.len() == 0 { return -1; }
  let p = q.drop_last();
  let r = slices_index(p, x);
  if r >= 0 { assert forall|j: int| 0 <= j < r implies #[trigger] q[j] != x by { assert(p[j] == q[j]); } return r; }
  assert forall|j: int| 0 <= j < p.len() implies #[trigger] q[j] != x by { if q[j] == x { assert(p[j] == x); assert(p.contains(x)); } }
  if q.last() == x { q.len() - 1 } else { -1 }
}

// the entries of a Go map value; nil reads as empty
pub open spec fn mget<K, V>(m: Map<int, Map<K, V>>, r: int) -> Map<K, V> { if r == 0 { Map::empty() } else { m[r] } }

// ---- orders given by the caller

pub open spec fn strict_weak<K>(less: spec_fn(K, K) -> bool) -> bool {
  &&& forall|a: K| !#[trigger] less(a, a)
  &&& forall|a: K, b: K| #[trigger] less(a, b) ==> !less(b, a)
  &&& forall|a: K, b: K, c: K| #![trigger less(a, b), less(b, c)] less(a, b) && less(b, c) ==> less(a, c)
  &&& forall|a: K, b: K, c: K| #![trigger less(a, b), less(a, c)] #![trigger less(a, b), less(c, b)] less(a, b) ==> less(a, c) || less(c, b)
}
//@endfn

// names a term for quantifier instantiation
pub open spec fn tk<T>(x: T) -> bool { true }

pub proof fn lemma_take_set<T>(q: Seq<T>, i: int)
  requires 0 <= i < q.len()
  ensures q.take(i + 1).to_set() =~= q.take(i).to_set().insert(q[i])
{
  let a = q.take(i); let b = q.take(i + 1);
  assert forall|x: T| #[trigger] b.to_set().contains(x) == a.to_set().insert(q[i]).contains(x) by {
    if b.contains(x) { let k = b.index_of(x); if k < i { assert(a[k] == x); } }
    if a.contains(x) { let k = a.index_of(x); assert(b[k] == x); }
    assert(b[i] == q[i]);
  }
}

// ks lists the keys d: every key has a place in ks
pub proof fn lemma_keys<K>(ks: Seq<K>, d: vstd::set::Set<K>)
  requires ks.no_duplicates(), ks.to_set() == d
  ensures ks.len() == d.len(),
    forall|k: K| #[trigger] d.contains(k) ==> 0 <= ks.index_of(k) < ks.len() && ks[ks.index_of(k)] == k,
    forall|i: int| 0 <= i < ks.len() ==> d.contains(#[trigger] ks[i]),
{
  ks.unique_seq_to_set();
  assert forall|k: K| #[trigger] d.contains(k) implies 0 <= ks.index_of(k) < ks.len() && ks[ks.index_of(k)] == k by { assert(ks.to_set().contains(k)); assert(ks.contains(k)); }
  assert forall|i: int| 0 <= i < ks.len() implies d.contains(#[trigger] ks[i]) by { assert(ks.to_set().contains(ks[i])); }
}
