@state
@prelude
pub proof fn lemma_fnv0(h: int, b: Seq<int>)
  requires b.len() == 0
  ensures fnv_add(h, b) == h
{ reveal_with_fuel(fnv_add, 2); }
pub proof fn lemma_fnv1(h: int, b: Seq<int>)
  requires b.len() >= 1
  ensures fnv_add(h, b) == fnv_add(fnv_step(h, b[0]), b.skip(1))
{ reveal_with_fuel(fnv_add, 2); }
pub proof fn lemma_fnv2(h: int, b: Seq<int>)
  requires b.len() >= 2
  ensures fnv_add(h, b) == fnv_add(fnv_step(fnv_step(h, b[0]), b[1]), b.skip(2))
{ lemma_fnv1(h, b); lemma_fnv1(fnv_step(h, b[0]), b.skip(1)); assert(b.skip(1).skip(1) =~= b.skip(2)); }
pub proof fn lemma_fnv4(h: int, b: Seq<int>)
  requires b.len() >= 4
  ensures fnv_add(h, b) == fnv_add(fnv_step(fnv_step(fnv_step(fnv_step(h, b[0]), b[1]), b[2]), b[3]), b.skip(4))
{ lemma_fnv2(h, b); lemma_fnv2(fnv_step(fnv_step(h, b[0]), b[1]), b.skip(2)); assert(b.skip(2).skip(2) =~= b.skip(4)); }
pub proof fn lemma_fnv8(h: int, b: Seq<int>)
  requires b.len() >= 8
  ensures ({ let g = fnv_step(fnv_step(fnv_step(fnv_step(h, b[0]), b[1]), b[2]), b[3]); fnv_add(h, b) == fnv_add(fnv_step(fnv_step(fnv_step(fnv_step(g, b[4]), b[5]), b[6]), b[7]), b.skip(8)) })
{ lemma_fnv4(h, b); lemma_fnv4(fnv_step(fnv_step(fnv_step(fnv_step(h, b[0]), b[1]), b[2]), b[3]), b.skip(4)); assert(b.skip(4).skip(4) =~= b.skip(8)); }
// the first n elements, taken one by one
pub proof fn lemma_fnv(h: int, b: Seq<int>)
  ensures b.len() == 0 ==> fnv_add(h, b) == h,
    b.len() >= 1 ==> fnv_add(h, b) == fnv_add(fnv_step(h, b[0]), b.skip(1)),
    b.len() >= 2 ==> fnv_add(h, b) == fnv_add(fnv_step(fnv_step(h, b[0]), b[1]), b.skip(2)),
    b.len() >= 4 ==> fnv_add(h, b) == fnv_add(fnv_step(fnv_step(fnv_step(fnv_step(h, b[0]), b[1]), b[2]), b[3]), b.skip(4)),
    b.len() >= 8 ==> ({ let g = fnv_step(fnv_step(fnv_step(fnv_step(h, b[0]), b[1]), b[2]), b[3]); fnv_add(h, b) == fnv_add(fnv_step(fnv_step(fnv_step(fnv_step(g, b[4]), b[5]), b[6]), b[7]), b.skip(8)) }),
{
  if b.len() == 0 { lemma_fnv0(h, b); }
  if b.len() >= 1 { lemma_fnv1(h, b); }
  if b.len() >= 2 { lemma_fnv2(h, b); }
  if b.len() >= 4 { lemma_fnv4(h, b); }
  if b.len() >= 8 { lemma_fnv8(h, b); }
}

@func AddString64 (h, q) (r)
@ensures r == fnv_add(h, q)
@loop 1
@invariant fnv_add(v_h, v_s) == fnv_add(h, q)
@decreases v_s.len()
@loopentry lemma_fnv(v_h, v_s); let q8 = v_s;
@loopend assert(v_s =~= q8.skip(8));
@loopexit
lemma_fnv(v_h, v_s);
let n4 = if v_s.len() >= 4 { 4int } else { 0int };
let g4 = if v_s.len() >= 4 { fnv_step(fnv_step(fnv_step(fnv_step(v_h, v_s[0]), v_s[1]), v_s[2]), v_s[3]) } else { v_h };
let q4 = v_s.skip(n4); assert(v_s.skip(0) =~= v_s);
lemma_fnv(g4, q4);
let n2 = if q4.len() >= 2 { 2int } else { 0int };
let g2 = if q4.len() >= 2 { fnv_step(fnv_step(g4, q4[0]), q4[1]) } else { g4 };
let q2 = q4.skip(n2); assert(q4.skip(0) =~= q4);
lemma_fnv(g2, q2);
if q2.len() == 1 { lemma_fnv0(fnv_step(g2, q2[0]), q2.skip(1)); }
@exit
assert(v_h == fnv_add(h, q));

@func HashString64 (q) (r)
@ensures r == fnv_hash(q)

@func AddBytes64 (h, q) (r)
@requires slwf(s.arr_int, q)
@ensures r == fnv_add(h, sv(s.arr_int, q))
@loop 1
@invariant slwf(s.arr_int, v_b) && fnv_add(v_h, sv(s.arr_int, v_b)) == fnv_add(h, sv(s.arr_int, q))
@decreases v_b.len
@loopentry lemma_fnv(v_h, sv(s.arr_int, v_b)); let q8 = sv(s.arr_int, v_b);
@loopend assert(sv(s.arr_int, v_b) =~= q8.skip(8));
@loopexit
let b0 = sv(s.arr_int, v_b);
lemma_fnv(v_h, b0);
let n4 = if b0.len() >= 4 { 4int } else { 0int };
let g4 = if b0.len() >= 4 { fnv_step(fnv_step(fnv_step(fnv_step(v_h, b0[0]), b0[1]), b0[2]), b0[3]) } else { v_h };
let q4 = b0.skip(n4); assert(b0.skip(0) =~= b0);
lemma_fnv(g4, q4);
let n2 = if q4.len() >= 2 { 2int } else { 0int };
let g2 = if q4.len() >= 2 { fnv_step(fnv_step(g4, q4[0]), q4[1]) } else { g4 };
let q2 = q4.skip(n2); assert(q4.skip(0) =~= q4);
lemma_fnv(g2, q2);
if q2.len() == 1 { lemma_fnv0(fnv_step(g2, q2[0]), q2.skip(1)); }
@exit
assert(v_h == fnv_add(h, sv(s.arr_int, q)));

@func HashBytes64 (q) (r)
@requires slwf(s.arr_int, q)
@ensures r == fnv_hash(sv(s.arr_int, q))
