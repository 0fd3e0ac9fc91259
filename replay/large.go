package main

import (
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
)

// Structures large enough to cross a counter's or a threshold's width. Each
// scenario runs once in a while and compares in linear time.
func init() {
	for id, s := range map[string]func(r *R, n int){
		"P01": heapLarge, "L01": listLarge, "N01": ulistLarge, "S01": hashsetLarge, "M01": mapsetLarge,
		"B01": bimapLarge, "C01": cacheLarge, "U01": multimapLarge, "I02": overlapsLarge, "D01": trieLarge,
		"D02": trieLarge, "E01": setLarge, "R01": ropeLarge(false), "R02": ropeLarge(true), "O01": propeLarge, "O02": propeLarge,
		"A01": arrayLarge, "A02": arrayLarge,
	} {
		s := s
		reg(id, func(r *R) {
			if r.iter%200 == 20 && (r.iter < 2000 || r.iter%1000 == 20) {
				s(r, r.large())
			}
		})
	}
}

func (r *R) large() int {
	switch r.n(4) {
	case 0:
		if n := r.lit(2000, 200000); n > 0 {
			return n
		}
		return 32768 + r.n(3)
	case 1:
		return 66000 + r.n(9000)
	case 2:
		return 1<<(11+r.n(6)) + r.n(3) - 1
	}
	return 3000 + r.n(30000)
}

// keysOf are n keys, in one of several patterns, possibly with repetitions.
func (r *R) keysOf(n int) ([]int, string) {
	ks := make([]int, n)
	kind := r.n(5)
	for i := range ks {
		switch kind {
		case 0:
			ks[i] = i
		case 1:
			ks[i] = n - i
		case 2:
			ks[i] = r.n(4 * n)
		case 3:
			ks[i] = r.n(1 + n/8)
		case 4:
			ks[i] = i * 64
		}
	}
	return ks, []string{"ascending", "descending", "random", "repeating", "ascending by 64"}[kind]
}

func heapLarge(r *R, n int) {
	less := func(a, b item) bool { return a.k < b.k }
	ks, kind := r.keysOf(n)
	in := make([]bool, 2*n)
	var its []item
	for i, k := range ks {
		its = append(its, item{k, i})
		in[i] = true
	}
	var h *heap.Heap[item]
	if r.chance(50) {
		r.op("h := FromSlice(%d items, %s)", n, kind)
		h = heap.FromSlice(less, its)
	} else {
		r.op("h := New, %d times Push, %s", n, kind)
		h = heap.New(less)
		for _, x := range its {
			h.Push(x)
		}
	}
	r.check(h.Size() == n, "Size() = %d, want %d", h.Size(), n)
	low, next, size := -1, n, n
	for i := 0; size > 0; i++ {
		if r.bump(); i%3 == 2 && next < 2*n && i < n {
			x := item{low + r.n(n), next}
			in[next] = true
			next++
			size++
			h.Push(x)
			continue
		}
		p, ok := h.Peek()
		x, ok2 := h.Pop()
		r.check(ok && ok2 && p == x, "Peek and Pop of a heap of %d: %v, %v and %v, %v", size, p, ok, x, ok2)
		r.check(x.id >= 0 && x.id < len(in) && in[x.id], "Pop returned %v, which is not stored", x)
		r.check(x.k >= low, "Pop returned %v after an item with key %d", x, low)
		in[x.id], low = false, x.k
		size--
	}
	_, ok := h.Pop()
	r.check(!ok && h.Size() == 0, "the heap is not empty after all items were popped")
}

func listLarge(r *R, n int) {
	l := list.New[int]()
	r.op("%d times PushBack and PushFront", n)
	for i := 0; i < n; i++ {
		l.PushBack(i)
		l.PushFront(-1 - i)
	}
	cut := 2 + r.n(5)
	r.op("remove every node whose value is divisible by %d, insert around the others", cut)
	var want []int
	for x := l.Front; x != nil; {
		y := x.Next
		if x.Value%cut == 0 {
			l.Remove(x)
		} else if x.Value%cut == 1 {
			l.InsertAfter(x, &list.Node[int]{Value: 7})
			l.InsertBefore(x, &list.Node[int]{Value: 8})
		}
		x = y
	}
	for i := -n; i < n; i++ {
		if i%cut == 1 {
			want = append(want, 8, i, 7)
		} else if i%cut != 0 {
			want = append(want, i)
		}
	}
	var got []int
	l.Front.Each(func(v int) { got = append(got, v) })
	r.check(eqSlice(got, want), "forward walk is wrong: %s", firstDiff(got, want))
	got = nil
	l.Back.EachReverse(func(v int) { got = append(got, v) })
	for i, j := 0, len(got)-1; i < j; i, j = i+1, j-1 {
		got[i], got[j] = got[j], got[i]
	}
	r.check(eqSlice(got, want), "backward walk is wrong: %s", firstDiff(got, want))
}

func firstDiff(a, b []int) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			w := "nothing"
			if i < len(b) {
				w = strconv.Itoa(b[i])
			}
			return "position " + strconv.Itoa(i) + " holds " + strconv.Itoa(a[i]) + ", want " + w
		}
	}
	return "length " + strconv.Itoa(len(a)) + ", want " + strconv.Itoa(len(b))
}

func ulistLarge(r *R, n int) {
	bs := 1 + r.n(8)
	switch r.n(3) {
	case 0:
		bs = 1 + r.n(300)
	case 1:
		if b := r.lit(1, 100000); b > 0 {
			bs = b
		}
	}
	if bs > 300 && n > 20000 {
		n = 3*bs + r.n(5)
		if n > 70000 {
			n = 70000
		}
	}
	ul := ulist.New[int](bs)
	r.op("ul := New(%d), %d times PushBack, PushFront", bs, n)
	var want []int
	for i := n; i > 0; i-- {
		want = append(want, -i)
	}
	front := n
	if bs > 300 {
		front = 300 // PushFront copies the block
	}
	want = want[len(want)-front:]
	for i := 0; i < n; i++ {
		ul.PushBack(i)
		if i < front {
			ul.PushFront(-1 - i)
		}
		want = append(want, i)
		r.bump()
	}
	walk := func() {
		var got, back []int
		for it := ul.Begin(); it.IsValid(); it.Next() {
			got = append(got, it.Get())
		}
		for it := ul.End(); it.IsValid(); it.Prev() {
			back = append(back, it.Get())
		}
		for i, j := 0, len(back)-1; i < j; i, j = i+1, j-1 {
			back[i], back[j] = back[j], back[i]
		}
		r.check(ul.Size() == len(want), "Size() = %d, want %d", ul.Size(), len(want))
		r.check(eqSlice(got, want), "forward walk is wrong: %s", firstDiff(got, want))
		r.check(eqSlice(back, want), "backward walk is wrong: %s", firstDiff(back, want))
	}
	walk()
	step := 1 + r.n(6)
	if bs > 300 {
		step = 1 + n/300
	}
	r.op("walk forward, at every %d-th entry AddAfter, AddBefore or Remove", step)
	var next []int
	it := ul.Begin()
	for i, v := range want {
		r.check(it.IsValid() && it.Get() == v, "the iterator is not at entry %d", i)
		r.bump()
		if i%step == 0 {
			switch i / step % 3 {
			case 0:
				ul.AddAfter(it, 1<<30+i)
				r.check(it.Get() == 1<<30+i, "the iterator is not at the added entry")
				next = append(next, v, 1<<30+i)
			case 1:
				ul.AddBefore(it, 1<<30+i)
				r.check(it.Get() == 1<<30+i, "the iterator is not at the added entry")
				next = append(next, 1<<30+i, v)
				it.Next()
			case 2:
				ul.Remove(it)
				continue
			}
		} else {
			next = append(next, v)
		}
		it.Next()
	}
	want = next
	walk()
}

func hashsetLarge(r *R, n int) {
	ks, kind := r.keysOf(n)
	s := hashset.New(uint64(1+r.n(3)), g.Equals[int], g.HashInt)
	if r.chance(30) {
		s = hashset.Of(uint64(1+r.n(n)), g.Equals[int], g.HashInt, ks...)
	}
	setLike(r, s, ks, kind)
}

func mapsetLarge(r *R, n int) {
	ks, kind := r.keysOf(n)
	s := mapset.New[int]()
	if r.chance(30) {
		s = mapset.Of(ks...)
	}
	setLike(r, s, ks, kind)
}

func setLike(r *R, s set.SetOf[int], ks []int, kind string) {
	m := map[int]bool{}
	r.op("Put of %d values, %s", len(ks), kind)
	for _, k := range ks {
		s.Put(k)
		m[k] = true
		r.bump()
	}
	same := func(what string) {
		r.check(s.Size() == len(m), "Size() = %d %s, want %d", s.Size(), what, len(m))
		seen := map[int]bool{}
		s.Each(func(k int) {
			r.check(m[k] && !seen[k], "Each visits %d %s: member %v, visited before %v", k, what, m[k], seen[k])
			seen[k] = true
		})
		r.check(len(seen) == len(m), "Each visits %d values %s, want %d", len(seen), what, len(m))
		for _, k := range ks {
			r.check(s.Has(k) == m[k], "Has(%d) = %v %s", k, s.Has(k), what)
			r.check(s.Has(k+1) == m[k+1], "Has(%d) = %v %s", k+1, s.Has(k+1), what)
		}
	}
	same("after the puts")
	keep := 1 + r.n(9)
	r.op("Remove of all values but those divisible by %d", keep)
	for _, k := range ks {
		if k%keep != 0 {
			s.Remove(k)
			delete(m, k)
		}
	}
	same("after the removes")
	r.op("Clear, and one Put")
	s.Clear()
	s.Put(ks[0])
	m = map[int]bool{ks[0]: true}
	same("after Clear and one Put")
}

func bimapLarge(r *R, n int) {
	var b bimap.Bimap[int, int]
	f, v := map[int]int{}, map[int]int{}
	ks, kind := r.keysOf(n)
	vs, kind2 := r.keysOf(n)
	r.op("Add of %d pairs, keys %s, values %s", n, kind, kind2)
	for i, k := range ks {
		b.Add(k, vs[i])
		if o, ok := f[k]; ok {
			delete(v, o)
		}
		if o, ok := v[vs[i]]; ok {
			delete(f, o)
		}
		f[k], v[vs[i]] = vs[i], k
		r.bump()
	}
	same := func(b *bimap.Bimap[int, int]) {
		r.check(b.Len() == len(f), "Len() = %d, want %d", b.Len(), len(f))
		for i, k := range ks {
			x, ok := b.GetForward(k)
			w, wok := f[k]
			r.check(x == w && ok == wok, "GetForward(%d) = %d, %v, want %d, %v", k, x, ok, w, wok)
			x, ok = b.GetReverse(vs[i])
			w, wok = v[vs[i]]
			r.check(x == w && ok == wok, "GetReverse(%d) = %d, %v, want %d, %v", vs[i], x, ok, w, wok)
		}
	}
	same(&b)
	c := b.Copy()
	r.op("c := Copy(), Clear of the original")
	b.Clear()
	same(&c)
	r.op("removes of half of the pairs of c")
	for k, w := range f {
		if k%4 == 0 {
			c.RemoveForward(k)
		} else if k%4 == 1 {
			c.RemoveReverse(w)
		} else {
			continue
		}
		delete(f, k)
		delete(v, w)
	}
	same(&c)
	f, v = map[int]int{}, map[int]int{}
	same(&b)
}

func cacheLarge(r *R, n int) {
	c := cache.New[int, int](n)
	var out []int
	c.SetEvictCallback(func(k, v int) { out = append(out, k) })
	over := 1 + r.n(n)
	r.op("New(%d), Put of %d keys, Get of every third, then Put of %d more", n, n, over)
	for i := 0; i < n; i++ {
		c.Put(i, 2*i)
	}
	r.check(c.Size() == n && len(out) == 0, "Size() = %d after %d puts, %d evicted", c.Size(), n, len(out))
	var order []int // least recently used first
	for i := 0; i < n; i++ {
		if i%3 != 0 {
			order = append(order, i)
		}
	}
	for i := 0; i < n; i += 3 {
		v, ok := c.Get(i)
		r.check(ok && v == 2*i, "Get(%d) = %d, %v", i, v, ok)
		order = append(order, i)
		r.bump()
	}
	for i := 0; i < over; i++ {
		c.Put(n+i, i)
		order = append(order, n+i)
	}
	r.check(eqSlice(out, order[:over]), "evicted keys are wrong: %s", firstDiff(out, order[:over]))
	order, out = order[over:], nil
	to := r.n(n)
	r.op("Resize(%d)", to)
	c.Resize(to)
	r.check(eqSlice(out, order[:n-to]), "evicted keys are wrong: %s", firstDiff(out, order[:n-to]))
	order = order[n-to:]
	var got []int
	c.Each(func(k, v int) { got = append(got, k) })
	for i, j := 0, len(got)-1; i < j; i, j = i+1, j-1 {
		got[i], got[j] = got[j], got[i]
	}
	r.check(c.Size() == to && c.Capacity() == to && eqSlice(got, order), "Each visits the wrong keys: %s", firstDiff(got, order))
}

func multimapLarge(r *R, n int) {
	less := func(a, b int) bool { return a < b }
	kind := r.n(4)
	var mm multimap.MultiMap[int, int]
	switch kind {
	case 0:
		mm = multimap.NewAvlSlice[int, int](less)
	case 1:
		mm = multimap.NewAvlSet[int, int](less, less)
	case 2:
		mm = multimap.NewMapSlice[int, int]()
	case 3:
		mm = multimap.NewMapSet[int, int](less)
	}
	keys := 1 + r.n(3)
	if r.chance(50) {
		keys = 1 + r.n(n)
	}
	r.op("%s, %d times Put(i %% %d, i)", []string{"NewAvlSlice", "NewAvlSet", "NewMapSlice", "NewMapSet"}[kind], n, keys)
	for i := 0; i < n; i++ {
		mm.Put(i%keys, i)
		r.bump()
	}
	if keys > n {
		keys = n
	}
	m := map[int][]int{}
	for i := 0; i < n; i++ {
		m[i%keys] = append(m[i%keys], i)
	}
	same := func() {
		size := 0
		for k, l := range m {
			size += len(l)
			r.check(mm.Has(k) && mm.Count(k) == len(l), "Count(%d) = %d, want %d", k, mm.Count(k), len(l))
			x := append([]int(nil), mm.Get(k)...)
			if kind%2 == 0 {
				sort.Ints(x)
			}
			r.check(eqSlice(x, l), "the values of %d are wrong: %s", k, firstDiff(x, l))
		}
		r.check(mm.Size() == size && mm.Dimension() == len(m), "Size, Dimension = %d, %d, want %d, %d", mm.Size(), mm.Dimension(), size, len(m))
		n := 0
		mm.Each(func(k, v int) { n++ })
		r.check(n == size, "Each visits %d entries, want %d", n, size)
	}
	same()
	r.op("some removes")
	for i := 0; i < 20; i++ {
		k := r.n(keys)
		l := m[k]
		if len(l) == 0 {
			continue
		}
		x := []int{l[0], l[len(l)-1], l[r.n(len(l))]}[r.n(3)]
		mm.Remove(k, x)
		at := sort.SearchInts(l, x)
		m[k] = append(l[:at:at], l[at+1:]...)
		if len(m[k]) == 0 {
			delete(m, k)
		}
	}
	same()
	for i := 0; i < 2; i++ {
		k := r.n(keys)
		r.op("RemoveAll(%d)", k)
		mm.RemoveAll(k)
		delete(m, k)
	}
	same()
}

func overlapsLarge(r *R, n int) {
	t := interval.New[int, int]()
	step, width := 1+r.n(4), 1+r.n(6)
	r.op("Put [%d*i, %d*i+%d) for i in [0,%d)", step, step, width, n)
	for i := 0; i < n; i++ {
		t.Put(step*i, step*i+width, i)
		r.bump()
	}
	q := func(lo, hi int) {
		var want []int
		for i := 0; i < n; i++ {
			if step*i < hi && step*i+width > lo {
				want = append(want, i)
			}
		}
		var got []int
		for _, kv := range t.Overlaps(lo, hi) {
			got = append(got, kv.Val)
		}
		r.check(eqSlice(got, want), "Overlaps(%d, %d) is wrong: %s", lo, hi, firstDiff(got, want))
	}
	q(0, n*step+width)
	q(-5, n*step/2)
	for i := 0; i < 10; i++ {
		lo := r.n(n * step)
		q(lo, lo+r.n(n))
	}
}

func trieLarge(r *R, n int) {
	t := trie.New[int]()
	if n > 30000 {
		n = 30000 + r.n(40000)
	}
	m := map[string]int{}
	alpha := "abcdefgh"[:2+r.n(7)]
	if r.chance(30) {
		alpha = "\x00a\x7f\x80\xff"
	}
	r.op("Put of %d random words over %q", n, alpha)
	var ws []string
	for i := 0; i < n; i++ {
		var b strings.Builder
		for j := 1 + r.n(12); j > 0; j-- {
			b.WriteByte(alpha[r.n(len(alpha))])
		}
		t.Put(b.String(), i)
		m[b.String()] = i
		ws = append(ws, b.String())
		r.bump()
	}
	same := func() {
		r.check(t.Size() == len(m), "Size() = %d, want %d", t.Size(), len(m))
		var want []string
		for k := range m {
			want = append(want, k)
		}
		sort.Strings(want)
		got := t.Keys()
		r.check(len(got) == len(want), "Keys() lists %d words, want %d", len(got), len(want))
		for i := range got {
			r.check(got[i] == want[i], "word %d of Keys() is %q, want %q", i, got[i], want[i])
		}
		for _, w := range ws {
			v, ok := t.Get(w)
			x, in := m[w]
			r.check(ok == in && v == x && t.Contains(w) == in, "Get(%q) = %d, %v, want %d, %v", w, v, ok, x, in)
		}
		for i := 0; i < 20; i++ {
			w := ws[r.n(len(ws))]
			p := w[:r.n(len(w)+1)]
			lo := sort.SearchStrings(want, p)
			hi := lo
			for hi < len(want) && strings.HasPrefix(want[hi], p) {
				hi++
			}
			got := t.KeysWithPrefix(p)
			r.check(len(got) == hi-lo, "KeysWithPrefix(%q) lists %d words, want %d", p, len(got), hi-lo)
			for i := range got {
				r.check(got[i] == want[lo+i], "word %d of KeysWithPrefix(%q) is %q, want %q", i, p, got[i], want[lo+i])
			}
			long := ""
			for j := range w {
				if _, ok := m[w[:j+1]]; ok {
					long = w[:j+1]
				}
			}
			r.check(t.LongestPrefix(w) == long, "LongestPrefix(%q) = %q, want %q", w, t.LongestPrefix(w), long)
		}
	}
	same()
	r.op("Remove of two thirds of them")
	for i, w := range ws {
		if i%3 != 0 {
			t.Remove(w)
			delete(m, w)
		}
	}
	same()
}

func setLarge(r *R, n int) {
	if n > 20000 {
		n = 20000 + r.n(3000)
	}
	mk := func() (set.Set[int], map[int]bool) {
		ks, kind := r.keysOf(1 + r.n(n))
		m := map[int]bool{}
		for _, k := range ks {
			m[k] = true
		}
		if r.chance(50) {
			r.op("a map set of %d values, %s", len(ks), kind)
			return set.NewMapset(ks...), m
		}
		r.op("a hash set of %d values, %s", len(ks), kind)
		return set.NewHashset(1, g.Equals[int], g.HashInt, ks...), m
	}
	a, am := mk()
	b, bm := mk()
	same := func(what string, s set.Set[int], in func(k int) bool) {
		n := 0
		for k := range am {
			r.check(s.Has(k) == in(k), "%s: Has(%d) = %v", what, k, s.Has(k))
			if in(k) {
				n++
			}
		}
		for k := range bm {
			r.check(s.Has(k) == in(k), "%s: Has(%d) = %v", what, k, s.Has(k))
			if in(k) && !am[k] {
				n++
			}
		}
		r.check(s.Size() == n && len(s.Keys()) == n && len(s.Map()) == n, "%s: Size() = %d, want %d", what, s.Size(), n)
	}
	same("Union", a.Union(b), func(k int) bool { return am[k] || bm[k] })
	same("Intersection", a.Intersection(b), func(k int) bool { return am[k] && bm[k] })
	same("Difference", a.Difference(b), func(k int) bool { return am[k] && !bm[k] })
	same("SymmetricDifference", a.SymmetricDifference(b), func(k int) bool { return am[k] != bm[k] })
	same("Clone", a.Clone(), func(k int) bool { return am[k] })
	sub, disj := true, true
	for k := range am {
		if bm[k] {
			disj = false
		} else {
			sub = false
		}
	}
	eq := sub && len(am) == len(bm)
	r.check(a.IsSubset(b) == sub, "IsSubset = %v, want %v", !sub, sub)
	r.check(b.IsSuperset(a) == sub, "the other way round: IsSuperset = %v, want %v", !sub, sub)
	r.check(a.IsDisjoint(b) == disj, "IsDisjoint = %v, want %v", a.IsDisjoint(b), disj)
	r.check(a.Equal(b) == eq, "Equal = %v, want %v", !eq, eq)
	r.check(a.IsProperSubset(b) == (sub && !eq), "IsProperSubset = %v, want %v", eq || !sub, sub && !eq)
	r.check(b.IsProperSuperset(a) == (sub && !eq), "the other way round: IsProperSuperset = %v, want %v", eq || !sub, sub && !eq)
	same("in place", a.Clone().InPlaceIntersection(b), func(k int) bool { return am[k] && bm[k] })
	same("the argument", b, func(k int) bool { return bm[k] })
}

func iota0(from, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = from + i
	}
	return s
}

func ropeLarge(sizes bool) func(r *R, n int) {
	return func(r *R, n int) { ropeLargeRun(r, n, sizes) }
}

func ropeLargeRun(r *R, n int, sizes bool) {
	// the thresholds as they are set by the package
	if r.chance(40) {
		n = rope.SplitLength*(1+r.n(4)) + r.n(3) - 1
	}
	m := iota0(0, n)
	r.op("n := New(%d elements)", n)
	x := rope.New(iota0(0, n))
	built := true
	same := func(x *rope.Node[int], m []int) {
		if sizes {
			leafSizes(r, "the rope", x, built)
			built = false
		}
		v := x.Value()
		r.check(x.Len() == len(m) && eqSlice(v, m), "the rope holds the wrong elements: %s", firstDiff(v, m))
		for i := 0; i < 20 && len(m) > 0; i++ {
			k := r.n(len(m))
			r.check(x.At(k) == m[k], "At(%d) = %d, want %d", k, x.At(k), m[k])
			e := k + r.n(len(m)-k+1)
			r.check(eqSlice(x.Slice(k, e), m[k:e]), "Slice(%d, %d) is wrong: %s", k, e, firstDiff(x.Slice(k, e), m[k:e]))
		}
	}
	same(x, m)
	next := n
	for i := 0; i < 6; i++ {
		switch r.n(4) {
		case 0:
			at, k := r.n(len(m)+1), 1+r.n(rope.SplitLength+5)
			r.op("Insert(%d, %d elements)", at, k)
			x.Insert(at, iota0(next, k))
			m = insAt(m, at, iota0(next, k))
			next += k
		case 1:
			a := r.n(len(m) + 1)
			b := a + r.n(len(m)-a+1)
			if b-a > n/2 {
				b = a + n/2
			}
			r.op("Remove(%d, %d)", a, b)
			x.Remove(a, b)
			m = delAt(m, a, b)
		case 2:
			at := r.n(len(m) + 1)
			r.op("SplitAt(%d), an insertion into the left part, Join", at)
			p, q := x.SplitAt(at)
			p.Insert(p.Len(), []int{-1, -2})
			same(q, m[at:])
			x = rope.Join(p, q)
			m = insAt(m, at, []int{-1, -2})
		case 3:
			r.op("Rebalance, Rebuild")
			x.Rebalance()
			same(x, m)
			x.Rebuild()
			built = true
		}
		same(x, m)
	}
}

func propeLarge(r *R, n int) {
	if r.chance(40) {
		n = prope.SplitLength*(1+r.n(4)) + r.n(3) - 1
	}
	r.op("n := New(%d elements)", n)
	type ver struct {
		x *prope.Node[int]
		m []int
	}
	vs := []ver{{prope.New(iota0(0, n)), iota0(0, n)}}
	same := func(x *prope.Node[int], m []int) {
		v := x.Value()
		r.check(x.Len() == len(m) && eqSlice(v, m), "a version holds the wrong elements: %s", firstDiff(v, m))
		for i := 0; i < 10 && len(m) > 0; i++ {
			k := r.n(len(m))
			r.check(x.At(k) == m[k], "At(%d) = %d, want %d", k, x.At(k), m[k])
			e := k + r.n(len(m)-k+1)
			r.check(eqSlice(x.Slice(k, e), m[k:e]), "Slice(%d, %d) is wrong: %s", k, e, firstDiff(x.Slice(k, e), m[k:e]))
		}
	}
	next := n
	for i := 0; i < 6; i++ {
		v := vs[r.n(len(vs))]
		m := v.m
		switch r.n(4) {
		case 0:
			at, k := r.n(len(m)+1), 1+r.n(prope.SplitLength+5)
			r.op("Insert(%d, %d elements)", at, k)
			vs = append(vs, ver{v.x.Insert(at, iota0(next, k)), insAt(m, at, iota0(next, k))})
			next += k
		case 1:
			a := r.n(len(m) + 1)
			b := a + r.n(len(m)-a+1)
			r.op("Remove(%d, %d)", a, b)
			vs = append(vs, ver{v.x.Remove(a, b), delAt(m, a, b)})
		case 2:
			at := r.n(len(m) + 1)
			r.op("SplitAt(%d), Join", at)
			p, q := v.x.SplitAt(at)
			vs = append(vs, ver{p, m[:at:at]}, ver{q, m[at:]}, ver{prope.Join(q, p), append(clone(m[at:]), m[:at]...)})
		case 3:
			r.op("Rebalance, Rebuild")
			v.x.Rebalance()
			same(v.x, m)
			v.x.Rebuild()
		}
		for _, v := range vs {
			same(v.x, v.m)
		}
	}
}

func arrayLarge(r *R, n int) {
	w := 1 + r.n(600)
	if r.chance(50) {
		w = []int{1, 2, 3, 255, 256, 257, 4096, n}[r.n(8)]
	}
	h := (n + w - 1) / w
	r.op("a := New(%d, %d)", w, h)
	a := array2d.New[int](w, h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			a.Set(x, y, y*w+x)
			r.bump()
		}
	}
	b := a.Copy()
	r.check(a.Width() == w && a.Height() == h, "Width, Height = %d, %d", a.Width(), a.Height())
	x1, x2, y1, y2 := r.n(w), r.n(w), r.n(h), r.n(h)
	r.op("Set(x, y, %d*y+x) everywhere, b := Copy(), Fill(%d, %d, %d, %d, -1)", w, x1, y1, x2, y2)
	a.Fill(x1, y1, x2, y2, -1)
	for y := 0; y < h; y++ {
		row := a.Row(y)
		r.check(len(row) == w && eqSlice(b.RowSpan(0, w-1, y), iota0(y*w, w)), "row %d of the copy is wrong", y)
		for x := 0; x < w; x++ {
			want := y*w + x
			if g.Min(x1, x2) <= x && x <= g.Max(x1, x2) && g.Min(y1, y2) <= y && y <= g.Max(y1, y2) {
				want = -1
			}
			r.check(a.Get(x, y) == want && row[x] == want, "Get(%d, %d) = %d, in the row %d, want %d", x, y, a.Get(x, y), row[x], want)
		}
	}
}

func (r *R) bump() { atomic.AddInt64(&r.tick, 1) }
