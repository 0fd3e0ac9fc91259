@state
@prelude
pub open spec fn M64() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn u64_range(x: int) -> bool { 0 <= x < M64() }

// the inverse of the 64-bit mixing function: a hash with an inverse cannot collide
pub open spec fn unmix(r: int) -> int {
  let a = bxor(r, shr64(r, 33));
  let b = mul64(a, 0x9cb4b2f8129337db);
  let c = bxor(b, shr64(b, 33));
  let d = mul64(c, 0x4f74430c22a54005);
  bxor(d, shr64(d, 33))
}

pub proof fn lemma_xorshift(x: int)
  requires u64_range(x)
  ensures u64_range(bxor(x, shr64(x, 33))),
    ({ let y = bxor(x, shr64(x, 33)); bxor(y, shr64(y, 33)) == x })
{
  let u = x as u64;
  let v = u ^ (u >> 33);
  assert(v ^ (v >> 33) == u) by(bit_vector) requires v == u ^ (u >> 33);
  assert((u >> 33u64) == (u >> 33)) ;
  assert((33int as u64) == 33u64);
}

pub proof fn lemma_mulinv(x: int, c: int, ci: int)
  requires u64_range(x), (c * ci) % M64() == 1
  ensures u64_range(mul64(x, c)), mul64(mul64(x, c), ci) == x
{
  let m = M64();
  assert(mul64(x, c) == (x * c) % m);
  vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(x * c, ci, m);
  assert(((x * c) % m) * ci % m == (x * c) * ci % m);
  assert((x * c) * ci == x * (c * ci)) by(nonlinear_arith);
  vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(x, c * ci, m);
  assert(x * ((c * ci) % m) % m == x * (c * ci) % m);
  assert(x * 1 == x);
  vstd::arithmetic::div_mod::lemma_small_mod(x as nat, m as nat);
}

pub proof fn lemma_mix(u: int)
  requires u64_range(u)
  ensures ({
    let a = bxor(u, shr64(u, 33));
    let b = mul64(a, 0xff51afd7ed558ccd);
    let c = bxor(b, shr64(b, 33));
    let d = mul64(c, 0xc4ceb9fe1a85ec53);
    let e = bxor(d, shr64(d, 33));
    u64_range(e) && unmix(e) == u })
{
    let a = bxor(u, shr64(u, 33));
    lemma_xorshift(u);
    let b = mul64(a, 0xff51afd7ed558ccd);
    assert((0xff51afd7ed558ccdint * 0x4f74430c22a54005int) % 0x1_0000_0000_0000_0000int == 1) by(compute);
    lemma_mulinv(a, 0xff51afd7ed558ccd, 0x4f74430c22a54005);
    let c = bxor(b, shr64(b, 33));
    lemma_xorshift(b);
    let d = mul64(c, 0xc4ceb9fe1a85ec53);
    assert((0xc4ceb9fe1a85ec53int * 0x9cb4b2f8129337dbint) % 0x1_0000_0000_0000_0000int == 1) by(compute);
    lemma_mulinv(c, 0xc4ceb9fe1a85ec53, 0x9cb4b2f8129337db);
    lemma_xorshift(d);
}

// property G02: hashes of the same width with an inverse never collide
pub proof fn corollary_no_collision(a: int, b: int, ra: int, rb: int)
  requires unmix(ra) == to_u64(a), unmix(rb) == to_u64(b), ra == rb,
    (u64_range(a) && u64_range(b)) || (-0x8000_0000_0000_0000 <= a < 0x8000_0000_0000_0000 && -0x8000_0000_0000_0000 <= b < 0x8000_0000_0000_0000)
  ensures a == b
{ }

@func hash (u) (r)
@flag prop G02
@flag pure
@requires u64_range(u)
@ensures[G02] u64_range(r) && unmix(r) == u
@exit lemma_mix(u);

@func HashUint64 (u) (r)
@flag prop G02
@flag pure
@requires 0 <= u < M64()
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashUint32 (u) (r)
@flag prop G02
@flag pure
@requires 0 <= u < 0x1_0000_0000
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashUint16 (u) (r)
@flag prop G02
@flag pure
@requires 0 <= u < 0x1_0000
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashUint8 (u) (r)
@flag prop G02
@flag pure
@requires 0 <= u < 0x100
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashInt64 (u) (r)
@flag prop G02
@flag pure
@requires -0x8000_0000_0000_0000 <= u < 0x8000_0000_0000_0000
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashInt32 (u) (r)
@flag prop G02
@flag pure
@requires -0x8000_0000 <= u < 0x8000_0000
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashInt16 (u) (r)
@flag prop G02
@flag pure
@requires -0x8000 <= u < 0x8000
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashInt8 (u) (r)
@flag prop G02
@flag pure
@requires -0x80 <= u < 0x80
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashInt (u) (r)
@flag prop G02
@flag pure
@requires -0x8000_0000_0000_0000 <= u < 0x8000_0000_0000_0000
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashUint (u) (r)
@flag prop G02
@flag pure
@requires 0 <= u < M64()
@ensures[G02] u64_range(r) && unmix(r) == to_u64(u)

@func HashString (k) (r)
@flag prop G02
@flag pure
@ensures[G02] r == fnv_hash(k)

@func HashBytes (b) (r)
@flag prop G02
@requires slwf(s.arr_int, b)
@ensures[G02] r == fnv_hash(sv(s.arr_int, b))

@func Equals (a, b) (r)
@flag pure
@ensures[G02] r == (a == b)

@func Less (a, b) (r)
@flag prop G01
@flag pure
@ensures[G01] r == olt(a, b)

@func Compare (a, b, less) (r)
@flag prop G01
@flag pure
@ensures[G01] r == (if less(a, b) { -1int } else if less(b, a) { 1int } else { 0int })

@func Max (a, b) (r)
@flag prop G01
@flag pure
@ensures[G01] (r == a || r == b) && !olt(r, a) && !olt(r, b)

@func Min (a, b) (r)
@flag prop G01
@flag pure
@ensures[G01] (r == a || r == b) && !olt(a, r) && !olt(b, r)

@func Clamp (x, lo, hi) (r)
@flag prop G01
@flag pure
@ensures[G01] !olt(hi, lo) ==> r == (if olt(x, lo) { lo } else if olt(hi, x) { hi } else { x })

@func MaxFunc (a, b, less) (r)
@flag prop G01
@flag pure
@requires strict_weak(less)
@ensures[G01] (r == a || r == b) && !less(r, a) && !less(r, b)
@comment ClampFunc relies on the choice between order-equivalent arguments
@ensures[G01] r == (if less(b, a) { a } else { b })

@func MinFunc (a, b, less) (r)
@flag prop G01
@flag pure
@requires strict_weak(less)
@ensures[G01] (r == a || r == b) && !less(a, r) && !less(b, r)
@ensures[G01] r == (if less(a, b) { a } else { b })

@func ClampFunc (x, lo, hi, less) (r)
@flag prop G01
@flag pure
@requires strict_weak(less)
@ensures[G01] !less(hi, lo) ==> r == (if less(x, lo) { lo } else if less(hi, x) { hi } else { x })
