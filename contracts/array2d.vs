@state T
@prelude
pub open spec fn at<T>(p: Array2D, x: int, y: int) -> int { p.slice.off + x + y * p.width }
// the storage cell of column x in row y
pub open spec fn cell<T>(s: S<T>, p: Array2D, x: int, y: int) -> T { s.arr_T[p.slice.arr][p.slice.off + x + y * p.width] }
pub open spec fn inside(p: Array2D, x: int, y: int) -> bool { 0 <= x < p.width && 0 <= y < p.height }
pub open spec fn wf<T>(s: S<T>, p: Array2D) -> bool {
  p.width >= 0 && p.height >= 0 && slwf(s.arr_T, p.slice) && p.slice.len == p.width * p.height
}
// nothing outside the first n cells from o in the array a changed
pub open spec fn only<T>(m0: Map<int, Seq<T>>, m: Map<int, Seq<T>>, a: int, o: int, n: int) -> bool {
  &&& m.dom() =~= m0.dom()
  &&& forall|b: int| #[trigger] m0.dom().contains(b) && b != a ==> m[b] == m0[b]
  &&& m[a].len() == m0[a].len() && (a != 0 ==> m[0] == m0[0])
  &&& forall|i: int| 0 <= i < m0[a].len() && !(o <= i < o + n) ==> m[a][i] == #[trigger] m0[a][i]
}
// nothing outside the storage of p changed
pub open spec fn frame<T>(s0: S<T>, s: S<T>, p: Array2D) -> bool { only(s0.arr_T, s.arr_T, p.slice.arr, p.slice.off, p.slice.len) }
pub open spec fn keeps<T>(s0: S<T>, s: S<T>) -> bool {
  s.arr_T[0] == s0.arr_T[0] && forall|b: int| #[trigger] s0.arr_T.dom().contains(b) ==> s.arr_T.dom().contains(b) && s.arr_T[b] == s0.arr_T[b]
}
pub proof fn lemma_idx(w: int, h: int, x: int, y: int)
  requires 0 <= x < w, 0 <= y < h
  ensures 0 <= y * w, x + y * w + (w - x) <= w * h, y * w + w <= w * h
{
  assert(0 <= y * w) by(nonlinear_arith) requires 0 <= y, 0 < w;
  assert(y * w + w <= w * h) by(nonlinear_arith) requires y + 1 <= h, 0 < w;
}
pub proof fn lemma_inj(w: int, x: int, y: int, a: int, b: int)
  requires 0 <= x < w, 0 <= a < w, x + y * w == a + b * w
  ensures x == a, y == b
{
  if y < b { assert(b * w >= y * w + w) by(nonlinear_arith) requires b >= y + 1, w > 0; }
  if y > b { assert(y * w >= b * w + w) by(nonlinear_arith) requires y >= b + 1, w > 0; }
}
// the cells of columns x1..x2 in row y and no others lie between their end points
pub proof fn lemma_row(w: int, x1: int, x2: int, y: int, a: int, b: int)
  requires 0 <= x1 <= x2 < w, 0 <= a < w
  ensures (x1 + y * w <= a + b * w <= x2 + y * w) == (b == y && x1 <= a <= x2)
{
  if y < b { assert(b * w >= y * w + w) by(nonlinear_arith) requires b >= y + 1, w > 0; }
  if y > b { assert(y * w >= b * w + w) by(nonlinear_arith) requires y >= b + 1, w > 0; }
}
pub open spec fn between(a: int, x: int, b: int) -> bool { a <= x <= b || b <= x <= a }
// what a jagged array of rows holds at column x of row y
pub open spec fn given<T>(s: S<T>, jagged: Slice, x: int, y: int) -> T {
  if y < jagged.len && x < sv(s.arr_Slice, jagged)[y].len { sv(s.arr_T, sv(s.arr_Slice, jagged)[y])[x] } else { zero::<T>() }
}
pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max2(a: int, b: int) -> int { if a <= b { b } else { a } }

@func New (width, height) (r)
@requires width >= 0 && height >= 0 && 0 <= width * height < 0x8000_0000_0000_0000
@ensures wf(s, r) && r.width == width && r.height == height && r.slice.arr != 0 && !s0.arr_T.dom().contains(r.slice.arr) && keeps(s0, s)
@ensures forall|x: int, y: int| inside(r, x, y) ==> #[trigger] cell(s, r, x, y) == zero::<T>()
@exit assert forall|x: int, y: int| inside(r, x, y) implies #[trigger] cell(s, r, x, y) == zero::<T>() by { lemma_idx(width, height, x, y); }

@func fill (slice, value)
@flag prop A01
@requires slwf(s.arr_T, slice)
@ensures only(s0.arr_T, s.arr_T, slice.arr, slice.off, slice.len)
@ensures forall|i: int| slice.off <= i < slice.off + slice.len ==> #[trigger] s.arr_T[slice.arr][i] == value
@loop 1
@invariant 1 <= v_i && only(s0.arr_T, s.arr_T, slice.arr, slice.off, slice.len)
@invariant forall|i: int| slice.off <= i < slice.off + v_i && i < slice.off + slice.len ==> #[trigger] s.arr_T[slice.arr][i] == value
@decreases slice.len - v_i

@func NewFilled (width, height, value) (r)
@flag prop A01
@requires width >= 0 && height >= 0 && 0 <= width * height < 0x8000_0000_0000_0000
@ensures wf(s, r) && r.width == width && r.height == height && r.slice.arr != 0 && !s0.arr_T.dom().contains(r.slice.arr) && keeps(s0, s)
@ensures forall|x: int, y: int| inside(r, x, y) ==> #[trigger] cell(s, r, x, y) == value
@exit assert forall|x: int, y: int| inside(r, x, y) implies #[trigger] cell(s, r, x, y) == value by { lemma_idx(width, height, x, y); }

@func Array2D.Get (p, x, y) (v)
@flag prop A01
@requires wf(s, p)
@panics !inside(p, x, y)
@ensures v == cell(s, p, x, y)
@entry if inside(p, x, y) { lemma_idx(p.width, p.height, x, y); }

@func Array2D.Set (p, x, y, value)
@flag prop A01
@requires wf(s, p)
@panics !inside(p, x, y)
@ensures wf(s, p) && frame(s0, s, p)
@ensures forall|a: int, b: int| inside(p, a, b) ==> #[trigger] cell(s, p, a, b) == if a == x && b == y { value } else { cell(s0, p, a, b) }
@entry if inside(p, x, y) { lemma_idx(p.width, p.height, x, y); }
@exit assert forall|a: int, b: int| inside(p, a, b) implies #[trigger] cell(s, p, a, b) == (if a == x && b == y { value } else { cell(s0, p, a, b) }) by { lemma_idx(p.width, p.height, a, b); if a + b * p.width == x + y * p.width { lemma_inj(p.width, x, y, a, b); } }

@func Array2D.Width (p) (n)
@ensures n == p.width

@func Array2D.Height (p) (n)
@ensures n == p.height

@func Array2D.Copy (p) (r)
@flag prop A02
@requires wf(s, p)
@ensures wf(s, r) && r.width == p.width && r.height == p.height && r.slice.arr != 0 && !s0.arr_T.dom().contains(r.slice.arr) && keeps(s0, s)
@ensures forall|x: int, y: int| inside(p, x, y) ==> #[trigger] cell(s, r, x, y) == cell(s0, p, x, y)
@exit assert forall|x: int, y: int| inside(p, x, y) implies #[trigger] cell(s, r, x, y) == cell(s0, p, x, y) by { lemma_idx(p.width, p.height, x, y); }

@func Array2D.RowSpan (p, x1, x2, y) (r)
@requires wf(s, p)
@panics !inside(p, x1, y) || !inside(p, x2, y)
@ensures r.arr == p.slice.arr && r.off == at::<T>(p, min2(x1, x2), y) && r.len == max2(x1, x2) - min2(x1, x2) + 1 && slwf(s.arr_T, r)
@ensures forall|i: int| 0 <= i < r.len ==> #[trigger] sv(s.arr_T, r)[i] == cell(s, p, min2(x1, x2) + i, y)
@entry if inside(p, x1, y) && inside(p, x2, y) { lemma_idx(p.width, p.height, x1, y); lemma_idx(p.width, p.height, x2, y); }

@func Array2D.Row (p, y) (r)
@requires wf(s, p)
@panics !(0 <= y < p.height)
@ensures r.arr == p.slice.arr && r.off == at::<T>(p, 0, y) && r.len == p.width && slwf(s.arr_T, r)
@ensures forall|i: int| 0 <= i < r.len ==> #[trigger] sv(s.arr_T, r)[i] == cell(s, p, i, y)
@entry if 0 <= y < p.height { if p.width > 0 { lemma_idx(p.width, p.height, 0, y); } else { assert(y * p.width == 0) by(nonlinear_arith) requires p.width == 0; } }

@func Array2D.Fill (p, x1, y1, x2, y2, value)
@flag prop A01
@requires wf(s, p)
@panics !inside(p, x1, y1) || !inside(p, x2, y2)
@ensures wf(s, p) && frame(s0, s, p)
@ensures forall|a: int, b: int| inside(p, a, b) ==> #[trigger] cell(s, p, a, b) == if between(x1, a, x2) && between(y1, b, y2) { value } else { cell(s0, p, a, b) }
@entry if inside(p, x1, y1) && inside(p, x2, y2) { lemma_idx(p.width, p.height, x1, y1); lemma_idx(p.width, p.height, x2, y2); lemma_idx(p.width, p.height, x1, y2); lemma_idx(p.width, p.height, x2, y1); } let u1 = min2(x1, x2); let u2 = max2(x1, x2); let w1 = min2(y1, y2); let w2 = max2(y1, y2);
@after fill assert forall|a: int, b: int| inside(p, a, b) implies #[trigger] cell(s, p, a, b) == if u1 <= a <= u2 && b == w1 { value } else { cell(s0, p, a, b) } by { lemma_idx(p.width, p.height, a, b); lemma_row(p.width, u1, u2, w1, a, b); }
@loop 1
@invariant w1 < v_y <= w2 + 1 && wf(s, p) && frame(s0, s, p)
@invariant forall|a: int, b: int| inside(p, a, b) ==> #[trigger] cell(s, p, a, b) == if u1 <= a <= u2 && w1 <= b < v_y { value } else { cell(s0, p, a, b) }
@loopentry let sl = s; lemma_idx(p.width, p.height, u1, v_y); lemma_idx(p.width, p.height, u2, v_y);
@loopbody assert forall|a: int, b: int| inside(p, a, b) implies #[trigger] cell(s, p, a, b) == if u1 <= a <= u2 && w1 <= b < v_y + 1 { value } else { cell(s0, p, a, b) } by { lemma_idx(p.width, p.height, a, b); lemma_row(p.width, u1, u2, v_y, a, b); lemma_row(p.width, u1, u2, w1, a, b); let i = p.slice.off + a + b * p.width; if b == v_y && u1 <= a <= u2 { assert(cell(sl, p, a, w1) == value); assert(s.arr_T[p.slice.arr][i] == sl.arr_T[p.slice.arr][p.slice.off + u1 + w1 * p.width + (a - u1)]); } else { assert(s.arr_T[p.slice.arr][i] == sl.arr_T[p.slice.arr][i]); assert(cell(s, p, a, b) == cell(sl, p, a, b)); } }

@func OfJagged (width, height, jagged) (r)
@flag prop A02
@requires width >= 0 && height >= 0 && 0 <= width * height < 0x8000_0000_0000_0000 && slwf(s.arr_Slice, jagged)
@requires forall|y: int| 0 <= y < jagged.len ==> slwf(s.arr_T, #[trigger] sv(s.arr_Slice, jagged)[y])
@ensures wf(s, r) && r.width == width && r.height == height && r.slice.arr != 0 && !s0.arr_T.dom().contains(r.slice.arr) && keeps(s0, s)
@ensures forall|x: int, y: int| inside(r, x, y) ==> #[trigger] cell(s, r, x, y) == given(s0, jagged, x, y)
@loop 1
@invariant v_arr.width == width && v_arr.height == height && wf(s, v_arr) && v_arr.slice.arr != 0 && !s0.arr_T.dom().contains(v_arr.slice.arr) && keeps(s0, s) && it1 <= max2(height, 0)
@invariant forall|x: int, y: int| inside(v_arr, x, y) ==> #[trigger] cell(s, v_arr, x, y) == if y < it1 { given(s0, jagged, x, y) } else { zero::<T>() }
@loopentry let sl = s; let row = sv(s0.arr_Slice, jagged)[it1]; assert(row == s.arr_Slice[rs1.arr][rs1.off + it1]); if it1 < height { if width > 0 { lemma_idx(width, height, 0, it1); } }
@loopbody if it1 < height { assert forall|a: int, b: int| inside(v_arr, a, b) implies #[trigger] cell(s, v_arr, a, b) == if b < it1 + 1 { given(s0, jagged, a, b) } else { zero::<T>() } by { lemma_idx(width, height, a, b); lemma_row(width, 0, width - 1, it1, a, b); let i = v_arr.slice.off + a + b * width; if b == it1 && a < row.len { assert(s.arr_T[v_arr.slice.arr][i] == sv(sl.arr_T, row)[a]); assert(sv(sl.arr_T, row) == sv(s0.arr_T, row)); } else { assert(s.arr_T[v_arr.slice.arr][i] == sl.arr_T[v_arr.slice.arr][i]); assert(cell(s, v_arr, a, b) == cell(sl, v_arr, a, b)); } } }
