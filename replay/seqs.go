package main

import (
	"fmt"

	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/ulist"
)

func eqSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clone[T any](a []T) []T { return append([]T{}, a...) }

func init() {
	reg("K01", stackScenario)
	reg("Q01", queueScenario)
	reg("P01", heapScenario)
	reg("L01", listScenario)
	reg("N01", ulistScenario)
}

func stackScenario(r *R) {
	type pair struct {
		s *stack.Stack[int]
		m []int
	}
	r.op("s0 := stack.New()")
	ps := []*pair{{s: stack.New[int]()}}
	next := 1
	if n := r.bulk(100000); n > 0 {
		if r.chance(50) {
			r.op("s0.Push(1) ... s0.Push(%d)", n)
			for ; next <= n; next++ {
				ps[0].s.Push(next)
				ps[0].m = append(ps[0].m, next)
			}
		}
	}
	// walk moves the size of a stack far up or down
	walk := func(k int) {
		p := ps[k]
		n := r.bulk(100000)
		if n == 0 {
			n = r.n(300)
		}
		if r.chance(40) {
			r.op("s%d.Push(%d) ... s%d.Push(%d)", k, next, k, next+n-1)
			for ; n > 0; n-- {
				p.s.Push(next)
				p.m = append(p.m, next)
				next++
			}
			return
		}
		to := r.n(len(p.m) + 1)
		if r.chance(50) {
			to = r.n(to + 1)
		}
		if r.chance(50) && to > 40 {
			to = r.n(40)
		}
		r.op("%d times s%d.Pop()", len(p.m)-to, k)
		for len(p.m) > to {
			got, want := p.s.Pop(), p.m[len(p.m)-1]
			p.m = p.m[:len(p.m)-1]
			r.check(got == want, "Pop returned %d, want %d", got, want)
			r.check(p.s.Size() == len(p.m), "Size() = %d, want %d", p.s.Size(), len(p.m))
		}
	}
	long := r.chance(12)
	for i := r.steps(); i > 0; i-- {
		k := r.n(len(ps))
		p := ps[k]
		if long && len(p.m) < 1<<20 && r.chance(60) {
			walk(k)
		}
		switch c := r.n(10); {
		case c < 5:
			r.op("s%d.Push(%d)", k, next)
			p.s.Push(next)
			p.m = append(p.m, next)
			next++
		case c < 8:
			r.op("s%d.Pop()", k)
			got, want := p.s.Pop(), 0
			if len(p.m) > 0 {
				want = p.m[len(p.m)-1]
				p.m = p.m[:len(p.m)-1]
			}
			r.check(got == want, "Pop returned %d, want %d", got, want)
		case c < 9:
			r.op("s%d.Peek()", k)
			want := 0
			if len(p.m) > 0 {
				want = p.m[len(p.m)-1]
			}
			got := p.s.Peek()
			r.check(got == want, "Peek returned %d, want %d", got, want)
		default:
			if len(ps) < 5 {
				r.op("s%d := s%d.Copy()", len(ps), k)
				ps = append(ps, &pair{p.s.Copy(), clone(p.m)})
			}
		}
		for j, p := range ps {
			r.check(p.s.Size() == len(p.m), "s%d.Size() = %d, want %d", j, p.s.Size(), len(p.m))
			if len(p.m) > 0 {
				r.check(p.s.Peek() == p.m[len(p.m)-1], "s%d.Peek() = %d, want %d", j, p.s.Peek(), p.m[len(p.m)-1])
			}
		}
	}
	for j, p := range ps {
		r.op("pop all of s%d", j)
		for len(p.m) > 0 {
			got, want := p.s.Pop(), p.m[len(p.m)-1]
			p.m = p.m[:len(p.m)-1]
			r.check(got == want, "Pop of s%d returned %d, want %d", j, got, want)
		}
		r.check(p.s.Size() == 0 && p.s.Pop() == 0 && p.s.Peek() == 0 && p.s.Size() == 0, "empty stack s%d misbehaves", j)
	}
}

func queueScenario(r *R) {
	type pair struct {
		q *queue.Queue[int]
		m []int
	}
	var ps []*pair
	var srcs [][]int
	next := 1
	mk := func() {
		switch r.n(3) {
		case 0, 1:
			r.op("q%d := queue.New()", len(ps))
			ps = append(ps, &pair{q: queue.New[int]()})
		case 2:
			var s []int
			n := r.n(5)
			if r.chance(3) {
				n = r.bulk(5000)
			}
			for i := n; i > 0; i-- {
				s = append(s, next)
				next++
			}
			r.op("q%d := queue.Of(%v)", len(ps), s)
			ps = append(ps, &pair{queue.Of(s), clone(s)})
			srcs = append(srcs, s)
		}
	}
	mk()
	long := r.chance(10)
	for i := r.steps(); i > 0; i-- {
		k := r.n(len(ps))
		p := ps[k]
		if long && r.chance(20) && len(p.m) < 20000 {
			n := r.bulk(20000)
			if n == 0 {
				n = r.n(300)
			}
			if r.chance(50) {
				r.op("q%d.Enqueue(%d) ... q%d.Enqueue(%d)", k, next, k, next+n-1)
				for ; n > 0; n-- {
					p.q.Enqueue(next)
					p.m = append(p.m, next)
					next++
				}
			} else {
				if n > len(p.m) {
					n = len(p.m)
				}
				r.op("%d times q%d.Dequeue()", n, k)
				for ; n > 0; n-- {
					got := p.q.Dequeue()
					r.check(got == p.m[0], "Dequeue returned %d, want %d", got, p.m[0])
					p.m = p.m[1:]
				}
			}
		}
		switch c := r.n(20); {
		case c < 8:
			r.op("q%d.Enqueue(%d)", k, next)
			p.q.Enqueue(next)
			p.m = append(p.m, next)
			next++
		case c < 11:
			r.op("q%d.Dequeue()", k)
			var got int
			pan, _ := panics(func() { got = p.q.Dequeue() })
			r.check(pan == (len(p.m) == 0), "Dequeue panicked: %v with %d items", pan, len(p.m))
			if !pan {
				r.check(got == p.m[0], "Dequeue returned %d, want %d", got, p.m[0])
				p.m = p.m[1:]
			}
		case c < 14:
			r.op("q%d.TryDequeue()", k)
			got, ok := p.q.TryDequeue()
			r.check(ok == (len(p.m) > 0), "TryDequeue ok = %v with %d items", ok, len(p.m))
			if ok {
				r.check(got == p.m[0], "TryDequeue returned %d, want %d", got, p.m[0])
				p.m = p.m[1:]
			}
		case c < 15:
			r.op("q%d.DequeueAll()", k)
			got := p.q.DequeueAll()
			r.check(eqSlice(got, p.m), "DequeueAll returned %v, want %v", got, p.m)
			p.m = nil
			for i := range got {
				got[i] = -1
			}
		case c < 16:
			r.op("q%d.Clear()", k)
			p.q.Clear()
			p.m = nil
		case c < 17 && len(ps) < 5:
			r.op("q%d := q%d.Copy()", len(ps), k)
			ps = append(ps, &pair{p.q.Copy(), clone(p.m)})
		case c < 18 && len(ps) < 5:
			mk()
		case c < 19 && len(srcs) > 0:
			s := srcs[r.n(len(srcs))]
			if len(s) > 0 {
				r.op("write to the source slice")
				s[r.n(len(s))] = -7
			}
		default:
			r.op("q%d.PeekAll() and writing to it", k)
			got := p.q.PeekAll()
			r.check(eqSlice(got, p.m), "PeekAll returned %v, want %v", got, p.m)
			for i := range got {
				got[i] = -1
			}
		}
		for j, p := range ps {
			r.check(p.q.Len() == len(p.m), "q%d.Len() = %d, want %d", j, p.q.Len(), len(p.m))
			r.check(p.q.Empty() == (len(p.m) == 0), "q%d.Empty() = %v with %d items", j, p.q.Empty(), len(p.m))
			got, ok := p.q.TryPeek()
			r.check(ok == (len(p.m) > 0), "q%d.TryPeek ok = %v with %d items", j, ok, len(p.m))
			if ok {
				r.check(got == p.m[0], "q%d.TryPeek() = %d, want %d", j, got, p.m[0])
			}
			pan, _ := panics(func() { got = p.q.Peek() })
			r.check(pan == (len(p.m) == 0), "q%d.Peek panicked: %v with %d items", j, pan, len(p.m))
			if !pan {
				r.check(got == p.m[0], "q%d.Peek() = %d, want %d", j, got, p.m[0])
			}
			if len(p.m) < 40 || i%20 == 0 {
				got := p.q.PeekAll()
				r.check(eqSlice(got, p.m), "q%d.PeekAll() = %v, want %v", j, got, p.m)
				var each []int
				p.q.Each(func(v int) { each = append(each, v) })
				r.check(eqSlice(each, p.m), "q%d.Each visited %v, want %v", j, each, p.m)
			}
		}
	}
}

type item struct{ k, id int }

func heapScenario(r *R) {
	span := r.span()
	less := func(a, b item) bool { return a.k < b.k }
	if r.chance(20) {
		less = func(a, b item) bool { return a.k > b.k }
	}
	next := 0
	mkItem := func() item { next++; return item{r.key(span), next} }
	type pair struct {
		h *heap.Heap[item]
		m map[item]bool
	}
	var ps []*pair
	mk := func() {
		var s []item
		m := map[item]bool{}
		kind := r.n(3)
		if kind > 0 {
			n := r.n(r.steps() + 1)
			if b := r.bulk(3000); b > 0 && len(ps) == 0 {
				n = b
			}
			for i := n; i > 0; i-- {
				x := mkItem()
				s = append(s, x)
				m[x] = true
			}
		}
		switch kind {
		case 0:
			r.op("h%d := heap.New(less)", len(ps))
			ps = append(ps, &pair{heap.New(less), m})
		case 1:
			r.op("h%d := heap.From(less, %v...)", len(ps), s)
			ps = append(ps, &pair{heap.From(less, s...), m})
		case 2:
			r.op("h%d := heap.FromSlice(less, %v)", len(ps), s)
			ps = append(ps, &pair{heap.FromSlice(less, s), m})
		}
	}
	mk()
	verify := func(j int) {
		p := ps[j]
		r.check(p.h.Size() == len(p.m), "h%d.Size() = %d, want %d", j, p.h.Size(), len(p.m))
		x, ok := p.h.Peek()
		r.check(ok == (len(p.m) > 0), "h%d.Peek ok = %v with %d items", j, ok, len(p.m))
		if ok {
			r.check(p.m[x], "h%d.Peek returned %v, which is not stored", j, x)
			for y := range p.m {
				if len(p.m) > 60 && r.n(len(p.m)) > 20 {
					continue
				}
				r.check(!less(y, x), "h%d.Peek returned %v although %v is below it", j, x, y)
			}
		}
	}
	pop := func(j int) {
		p := ps[j]
		r.op("h%d.Pop()", j)
		x, ok := p.h.Pop()
		r.check(ok == (len(p.m) > 0), "Pop ok = %v with %d items", ok, len(p.m))
		if ok {
			r.check(p.m[x], "Pop returned %v, which is not stored", x)
			for y := range p.m {
				r.check(!less(y, x), "Pop returned %v although %v is below it", x, y)
			}
			delete(p.m, x)
		} else {
			r.check(x == item{}, "Pop of an empty heap returned %v", x)
		}
	}
	verify(0)
	bias := 3 + r.n(6)
	for i := r.steps(); i > 0; i-- {
		j := r.n(len(ps))
		p := ps[j]
		switch c := r.n(12); {
		case c < bias:
			x := mkItem()
			r.op("h%d.Push(%v)", j, x)
			p.h.Push(x)
			p.m[x] = true
		case c < 11:
			pop(j)
		default:
			if len(ps) < 3 {
				mk()
			}
		}
		for j := range ps {
			verify(j)
		}
	}
	for j, p := range ps {
		for n := len(p.m); n >= 0; n-- {
			pop(j)
		}
		verify(j)
	}
}

func listScenario(r *R) {
	type pair struct {
		l *list.List[int]
		m []*list.Node[int]
	}
	vals := map[*list.Node[int]]int{}
	next := 1
	ps := []*pair{{l: list.New[int]()}}
	r.op("l0 := list.New()")
	if r.chance(30) {
		r.op("l1 := list.New()")
		ps = append(ps, &pair{l: list.New[int]()})
	}
	node := func() *list.Node[int] {
		n := &list.Node[int]{Value: next}
		vals[n] = next
		next++
		return n
	}
	ins := func(m []*list.Node[int], at int, n *list.Node[int]) []*list.Node[int] {
		m = append(m, nil)
		copy(m[at+1:], m[at:])
		m[at] = n
		return m
	}
	var free []*list.Node[int]
	take := func() (*list.Node[int], string) {
		if len(free) > 0 && r.chance(50) {
			k := r.n(len(free))
			n := free[k]
			free = append(free[:k:k], free[k+1:]...)
			return n, fmt.Sprintf("removed node %d", n.Value)
		}
		n := node()
		return n, fmt.Sprintf("node %d", n.Value)
	}
	_ = ins
	if n := r.bulk(4000); n > 0 {
		r.op("%d times l0.PushBack", n)
		for ; n > 0; n-- {
			ps[0].l.PushBack(next)
			vals[ps[0].l.Back] = next
			next++
			ps[0].m = append(ps[0].m, ps[0].l.Back)
		}
	}
	for i := r.steps(); i > 0; i-- {
		k := r.n(len(ps))
		p := ps[k]
		switch c := r.n(14); {
		case c < 2:
			r.op("l%d.PushBack(%d)", k, next)
			p.l.PushBack(next)
			vals[p.l.Back] = next
			next++
			p.m = append(p.m, p.l.Back)
		case c < 4:
			r.op("l%d.PushFront(%d)", k, next)
			p.l.PushFront(next)
			vals[p.l.Front] = next
			next++
			p.m = ins(p.m, 0, p.l.Front)
		case c < 5:
			n, d := take()
			r.op("l%d.PushBackNode(%s)", k, d)
			p.l.PushBackNode(n)
			p.m = append(p.m, n)
		case c < 6:
			n, d := take()
			r.op("l%d.PushFrontNode(%s)", k, d)
			p.l.PushFrontNode(n)
			p.m = ins(p.m, 0, n)
		case c < 8 && len(p.m) > 0:
			at := r.n(len(p.m))
			n, d := take()
			r.op("l%d.InsertAfter(%s, node at %d)", k, d, at)
			// the first argument of InsertAfter is the node to insert after
			ret := p.l.InsertAfter(p.m[at], n)
			r.check(ret == n, "InsertAfter did not return the new node")
			p.m = ins(p.m, at+1, n)
		case c < 10 && len(p.m) > 0:
			at := r.n(len(p.m))
			n, d := take()
			r.op("l%d.InsertBefore(%s, node at %d)", k, d, at)
			ret := p.l.InsertBefore(p.m[at], n)
			r.check(ret == n, "InsertBefore did not return the new node")
			p.m = ins(p.m, at, n)
		case len(p.m) > 0:
			at := r.n(len(p.m))
			if r.chance(25) {
				at = 0
			} else if r.chance(25) {
				at = len(p.m) - 1
			}
			r.op("l%d.Remove(node at %d)", k, at)
			n := p.m[at]
			p.l.Remove(n)
			p.m = append(p.m[:at:at], p.m[at+1:]...)
			free = append(free, n)
		}
		for j, p := range ps {
			if len(p.m) > 200 && i%20 != 1 {
				continue
			}
			listVerify(r, j, p.l, p.m, vals)
		}
	}
}

func listVerify(r *R, j int, l *list.List[int], m []*list.Node[int], vals map[*list.Node[int]]int) {
	var fw []*list.Node[int]
	for n := l.Front; n != nil; n = n.Next {
		fw = append(fw, n)
		r.check(len(fw) <= len(m), "l%d: walking forward visits more than %d nodes", j, len(m))
	}
	r.check(eqSlice(fw, m), "l%d: walking forward visits the wrong nodes", j)
	i := len(m)
	for n := l.Back; n != nil; n = n.Prev {
		i--
		r.check(i >= 0 && m[i] == n, "l%d: walking backward visits the wrong nodes", j)
	}
	r.check(i == 0, "l%d: walking backward visits too few nodes", j)
	for _, n := range m {
		r.check(n.Value == vals[n], "l%d: a node changed its value from %d to %d", j, vals[n], n.Value)
	}
	if len(m) == 0 {
		return
	}
	at := r.n(len(m))
	var a, b, c, d []int
	var an, bn []*list.Node[int]
	m[at].Each(func(v int) { a = append(a, v) })
	m[at].EachReverse(func(v int) { b = append(b, v) })
	m[at].EachNode(func(n *list.Node[int]) { an = append(an, n) })
	m[at].EachReverseNode(func(n *list.Node[int]) { bn = append(bn, n) })
	for i := at; i < len(m); i++ {
		c = append(c, m[i].Value)
	}
	for i := at; i >= 0; i-- {
		d = append(d, m[i].Value)
	}
	r.check(eqSlice(a, c), "l%d: Each from node %d visits %v, want %v", j, at, a, c)
	r.check(eqSlice(b, d), "l%d: EachReverse from node %d visits %v, want %v", j, at, b, d)
	r.check(eqSlice(an, m[at:]), "l%d: EachNode from node %d visits the wrong nodes", j, at)
	r.check(len(bn) == at+1, "l%d: EachReverseNode from node %d visits %d nodes", j, at, len(bn))
	for i, n := range bn {
		r.check(n == m[at-i], "l%d: EachReverseNode from node %d visits the wrong nodes", j, at)
	}
}

func ulistScenario(r *R) {
	bs := []int{1, 1, 2, 2, 3, 4, 8, 16}[r.n(8)]
	if r.chance(10) {
		bs = 1 + r.n(200)
		if l := r.lit(1, 5000); l > 0 && r.chance(50) {
			bs = l
		}
	}
	r.op("ul := ulist.New(%d)", bs)
	ul := ulist.New[int](bs)
	var m []int
	next := 1
	ins := func(at int, v int) {
		m = append(m, 0)
		copy(m[at+1:], m[at:])
		m[at] = v
	}
	iterAt := func(at int) *ulist.UListIter[int] {
		if r.chance(50) {
			it := ul.Begin()
			for i := 0; i < at; i++ {
				it.Next()
			}
			return it
		}
		it := ul.End()
		for i := len(m) - 1; i > at; i-- {
			it.Prev()
		}
		return it
	}
	expect := func(it *ulist.UListIter[int], at int, what string) {
		if at >= len(m) {
			r.check(!it.IsValid(), "the iterator is valid after %s although nothing follows", what)
			return
		}
		r.check(it.IsValid(), "the iterator is not valid after %s", what)
		r.check(it.Get() == m[at], "the iterator points at %d after %s, want %d", it.Get(), what, m[at])
	}
	if n := r.bulk(5000); n > 0 {
		r.op("%d times PushBack", n)
		for ; n > 0; n-- {
			ul.PushBack(next)
			m = append(m, next)
			next++
		}
	} else if r.chance(10) {
		// a few full blocks
		n := bs*(1+r.n(5)) + r.n(3) - 1
		front := r.chance(50)
		r.op("%d times PushBack (PushFront: %v)", n, front)
		for ; n > 0; n-- {
			if front {
				ul.PushFront(next)
				ins(0, next)
			} else {
				ul.PushBack(next)
				m = append(m, next)
			}
			next++
		}
	}
	var it *ulist.UListIter[int]
	at := 0
	for i := r.steps(); i > 0; i-- {
		if it == nil || at < 0 || at >= len(m) || r.chance(40) {
			it = nil
			if len(m) > 0 {
				at = r.n(len(m))
				it = iterAt(at)
			}
		}
		c := r.n(12)
		switch {
		case c < 2 || it == nil && c < 6:
			r.op("PushBack(%d)", next)
			ul.PushBack(next)
			m = append(m, next)
			it = nil
			next++
		case c < 4 || it == nil:
			r.op("PushFront(%d)", next)
			ul.PushFront(next)
			ins(0, next)
			it = nil
			next++
		case c < 6:
			r.op("AddAfter(iterator at %d, %d)", at, next)
			ul.AddAfter(it, next)
			ins(at+1, next)
			at++
			next++
			expect(it, at, "AddAfter")
		case c < 8:
			r.op("AddBefore(iterator at %d, %d)", at, next)
			ul.AddBefore(it, next)
			ins(at, next)
			next++
			expect(it, at, "AddBefore")
		case c < 10:
			r.op("Remove(iterator at %d)", at)
			ul.Remove(it)
			m = append(m[:at:at], m[at+1:]...)
			expect(it, at, "Remove")
		case c < 11:
			r.op("Next() at %d", at)
			ok := it.Next()
			at++
			r.check(ok == (at < len(m)), "Next returned %v at position %d of %d", ok, at, len(m))
			expect(it, at, "Next")
			if at == len(m) {
				r.op("Prev() past the end")
				ok := it.Prev()
				at--
				r.check(ok == (at >= 0), "Prev after the end returned %v", ok)
				expect(it, at, "Prev")
			}
		default:
			r.op("Prev() at %d", at)
			ok := it.Prev()
			at--
			r.check(ok == (at >= 0), "Prev returned %v at position %d", ok, at)
			if at >= 0 {
				expect(it, at, "Prev")
			} else {
				r.check(!it.IsValid(), "iterator before the first entry is valid")
				it = nil
			}
		}
		r.check(ul.Size() == len(m), "Size() = %d, want %d", ul.Size(), len(m))
		if len(m) < 40 || i%16 == 0 {
			var a []int
			for it := ul.Begin(); it.IsValid(); it.Next() {
				a = append(a, it.Get())
				r.check(len(a) <= len(m), "forward walk visits more than %d entries", len(m))
			}
			r.check(eqSlice(a, m), "forward walk visits %v, want %v", a, m)
			k := len(m)
			for it := ul.End(); it.IsValid(); it.Prev() {
				k--
				r.check(k >= 0 && it.Get() == m[k], "backward walk is wrong at position %d", k)
			}
			r.check(k == 0, "backward walk stops at position %d", k)
		}
	}
}
