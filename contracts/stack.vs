@state T
@prelude
// the items held, oldest first
pub open spec fn view<T>(s: S<T>, p: int) -> Seq<T> { sv(s.arr_T, s.Stack[p].entries) }
pub open spec fn wf<T>(s: S<T>, p: int) -> bool {
  &&& p != 0 && s.Stack.dom().contains(p)
  &&& slwf(s.arr_T, s.Stack[p].entries)
}
// two stacks that share no storage
pub open spec fn separate<T>(s: S<T>, p: int, q: int) -> bool {
  p != q && (s.Stack[p].entries.arr != s.Stack[q].entries.arr || s.Stack[p].entries.arr == 0)
}
// the operation on p leaves every other stack that is separate from p as it was, and separate
pub open spec fn others_kept<T>(s0: S<T>, s: S<T>, p: int) -> bool {
  forall|q: int| #[trigger] wf(s0, q) && separate(s0, p, q) ==> wf(s, q) && separate(s, p, q) && view(s, q) == view(s0, q)
}

@func New () (r)
@ensures wf(s, r) && view(s, r) =~= Seq::<T>::empty()
@ensures !s0.Stack.dom().contains(r) && others_kept(s0, s, r)
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && view(s, q) == view(s0, q) && separate(s, r, q)

@func Stack.Push (p, value)
@requires wf(s, p)
@ensures wf(s, p) && view(s, p) =~= view(s0, p).push(value)
@ensures others_kept(s0, s, p)

@func Stack.Pop (p) (t)
@requires wf(s, p)
@ensures wf(s, p)
@ensures view(s0, p).len() == 0 ==> t == zero::<T>() && view(s, p) =~= view(s0, p)
@ensures view(s0, p).len() > 0 ==> t == view(s0, p).last() && view(s, p) =~= view(s0, p).drop_last()
@ensures others_kept(s0, s, p)

@func Stack.Peek (p) (t)
@requires wf(s, p)
@ensures t == (if view(s, p).len() == 0 { zero::<T>() } else { view(s, p).last() })

@func Stack.Size (p) (n)
@requires wf(s, p)
@ensures n == view(s, p).len()

@func Stack.Copy (p) (r)
@requires wf(s, p)
@ensures wf(s, r) && view(s, r) =~= view(s0, p) && wf(s, p) && view(s, p) == view(s0, p)
@ensures separate(s, p, r) && !s0.Stack.dom().contains(r)
@ensures forall|q: int| #[trigger] wf(s0, q) ==> wf(s, q) && view(s, q) == view(s0, q) && separate(s, r, q)
