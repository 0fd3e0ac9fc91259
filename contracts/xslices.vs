@state E
@func Index (q, x) (r)
@requires slwf(s.arr_E, q)
@ensures -1 <= r < q.len
@ensures r < 0 ==> !sv(s.arr_E, q).contains(x)
@ensures r >= 0 ==> sv(s.arr_E, q)[r] == x
@ensures forall|j: int| 0 <= j < r ==> #[trigger] sv(s.arr_E, q)[j] != x
@loop 1
@invariant forall|j: int| 0 <= j < it1 ==> #[trigger] sv(s.arr_E, q)[j] != x
