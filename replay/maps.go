package main

import (
	"fmt"
	"reflect"
	"sort"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
)

func init() {
	reg("V01", avlScenario, bulkTree(func(l g.LessFn[key]) omap { return avl.New[key, int](l) }))
	reg("V02", avlHeight)
	reg("T01", btreeScenario, bulkTree(func(l g.LessFn[key]) omap { return btree.New[key, int](l) }))
	reg("I01", intervalScenario(false), bulkTree(func(g.LessFn[key]) omap { return itree{interval.New[int, int]()} }))
	reg("I02", intervalScenario(true))
	reg("I03", intervalHeight)
	reg("H01", hashmapScenario(false), hashmapInts, bulkScenario(false, bulkHash))
	reg("H02", hashmapScenario(true), hashsetCopies)
	reg("S01", hashsetScenario)
	reg("M01", mapsetScenario)
	reg("B01", bimapScenario)
	reg("C01", cacheScenario)
	reg("U01", multimapScenario)
}

// a key with a part the order does not see
type key struct{ k, tag int }

type omap interface {
	Get(key) (int, bool)
	Put(key, int)
	Remove(key)
	Size() int
	Each(func(key, int))
}

func orderedScenario(mk func(g.LessFn[key]) omap, extra func(r *R, t omap, n int)) scenario {
	return func(r *R) {
		span := r.span()
		desc := r.chance(20)
		less := func(a, b key) bool { return a.k < b.k }
		if desc {
			less = func(a, b key) bool { return a.k > b.k }
		}
		r.op("t := New(less)")
		t := mk(less)
		m := map[int]int{}
		next := 1
		pat := r.n(5)
		bias := 3 + r.n(6)
		steps := r.steps()
		seq := 0
		for i := 0; i < steps; i++ {
			var k int
			switch pat {
			case 0:
				k = seq % (span * 3)
				seq++
			case 1:
				k = -seq % (span * 3)
				seq++
			default:
				k = r.key(span)
			}
			if pat == 4 && i == steps/2 {
				bias = 2
			}
			kk := key{k, r.n(3)}
			switch c := r.n(10); {
			case c < bias:
				r.op("Put(%v, %d)", kk, next)
				t.Put(kk, next)
				m[k] = next
				next++
			default:
				if pat < 2 {
					kk.k = r.n(span * 3)
					if pat == 1 {
						kk.k = -kk.k
					}
				}
				r.op("Remove(%v)", kk)
				t.Remove(kk)
				delete(m, kk.k)
			}
			q := key{r.n(span+2) - 1, r.n(3)}
			if r.chance(50) {
				q = kk
			}
			got, ok := t.Get(q)
			want, wok := m[q.k]
			r.check(ok == wok && got == want, "Get(%v) = %d, %v, want %d, %v", q, got, ok, want, wok)
			r.check(t.Size() == len(m), "Size() = %d, want %d", t.Size(), len(m))
			if len(m) < 30 || i%(len(m)/4) == 0 || i == steps-1 {
				var ks []int
				t.Each(func(k key, v int) {
					ks = append(ks, k.k)
					r.check(len(ks) <= len(m), "Each visits more than %d entries", len(m))
					w, ok := m[k.k]
					r.check(ok && w == v, "Each visits (%v, %d), want %d, %v", k, v, w, ok)
				})
				r.check(len(ks) == len(m), "Each visits %d entries, want %d", len(ks), len(m))
				for i := 1; i < len(ks); i++ {
					r.check(less(key{ks[i-1], 0}, key{ks[i], 0}), "Each is not in increasing order: %v", ks)
				}
				for k, v := range m {
					got, ok := t.Get(key{k, 9})
					r.check(ok && got == v, "Get(%d) = %d, %v, want %d", k, got, ok, v)
				}
			}
			if extra != nil {
				extra(r, t, len(m))
			}
		}
	}
}

func minAVL(h int) int {
	a, b := 0, 1
	for ; h > 0; h-- {
		a, b = b, a+b+1
	}
	return a
}

func maxHeight(n int) int {
	h := 0
	for minAVL(h+1) <= n {
		h++
	}
	return h
}

func minHeight(n int) int {
	h := 0
	for (1<<h)-1 < n {
		h++
	}
	return h
}

func avlScenario(r *R) {
	orderedScenario(func(l g.LessFn[key]) omap { return avl.New[key, int](l) }, nil)(r)
}

// levels counts the levels of the real tree, or -1 if its shape is unknown.
func levels(tree any) int {
	v := reflect.ValueOf(tree).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer && f.Type().Elem().Kind() == reflect.Struct {
			kids := 0
			for j := 0; j < f.Type().Elem().NumField(); j++ {
				if f.Type().Elem().Field(j).Type == f.Type() {
					kids++
				}
			}
			if kids == 2 {
				n := 0
				return depth(f, &n)
			}
		}
	}
	return -1
}

func depth(p reflect.Value, n *int) int {
	if p.IsNil() {
		return 0
	}
	if *n++; *n > 1000000 {
		return -1
	}
	d := 0
	for j := 0; j < p.Elem().NumField(); j++ {
		if f := p.Elem().Field(j); f.Type() == p.Type() {
			x := depth(f, n)
			if x < 0 {
				return -1
			}
			if x > d {
				d = x
			}
		}
	}
	return d + 1
}

func checkHeight(r *R, t any, h, n int) {
	r.check(h <= maxHeight(n), "Height() = %d, but an AVL tree of %d entries has at most %d levels", h, n, maxHeight(n))
	r.check(h >= minHeight(n), "Height() = %d, but %d entries need %d levels", h, n, minHeight(n))
	if l := levels(t); l >= 0 {
		r.check(l == h, "Height() = %d, but the tree has %d levels", h, l)
	}
}

func avlHeight(r *R) {
	span := r.span()
	t := avl.New[int, int](func(a, b int) bool { return a < b })
	m := map[int]bool{}
	r.op("t := New(less)")
	kind := r.n(4)
	seq := 0
	if n := r.bulk(140000); n > 0 {
		r.op("Put(2i) for i in [0,%d), kind %d", n, kind)
		for i := 0; i < n; i++ {
			k := 2 * i
			if kind == 1 {
				k = -k
			} else if kind > 1 {
				k = r.n(4 * n)
			}
			t.Put(k, k)
			m[k] = true
		}
		seq = 2*n + 1
		span += 4 * n
		checkHeight(r, t, t.Height(), len(m))
	}
	for i := r.steps(); i > 0; i-- {
		k := r.key(span)
		seq++
		if kind == 0 {
			k = seq
		} else if kind == 1 {
			k = -seq
		}
		if r.chance(65) {
			r.op("Put(%d)", k)
			t.Put(k, k)
			m[k] = true
		} else {
			if kind < 2 {
				k = r.n(seq + 1)
				if kind == 1 {
					k = -k
				}
			}
			r.op("Remove(%d)", k)
			t.Remove(k)
			delete(m, k)
		}
		if len(m) > 100 && i%(len(m)/20) != 0 && i > 1 {
			continue
		}
		checkHeight(r, t, t.Height(), len(m))
	}
}

// bulkScenario fills a map far enough for it to have many levels or several
// growth steps, then removes, re-inserts and overwrites.
func bulkScenario(ordered bool, mk func(r *R, less g.LessFn[key]) omap) scenario {
	return func(r *R) { bulkRun(r, ordered, mk) }
}

func bulkRun(r *R, ordered bool, mk func(r *R, less g.LessFn[key]) omap) {
	size := 50 + r.n(400)
	if r.iter%8 == 3 {
		size = 1900 + r.n(5000)
	}
	if r.iter%64 == 5 {
		size = 66000 + r.n(9000)
	}
	if r.iter%4 == 2 {
		if l := r.lit(5, 200000); l > 0 {
			size = l + r.n(4)
		}
	}
	rev := ordered && r.chance(30)
	if _, natural := mk(r, func(a, b key) bool { return a.k < b.k }).(itree); natural {
		rev = false
	}
	less := func(a, b key) bool { return a.k < b.k }
	if rev {
		less = func(a, b key) bool { return a.k > b.k }
	}
	t := mk(r, less)
	r.op("t := New(less) (reversed: %v)", rev)
	m := map[int]int{}
	keys := make([]int, size)
	for i := range keys {
		keys[i] = 2 * i
	}
	kind := r.n(4)
	switch kind {
	case 1:
		for i, j := 0, size-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case 2:
		r.Shuffle(size, func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	case 3:
		for i := range keys {
			if i%2 == 1 {
				keys[i] = 2 * (size - i)
			}
		}
	}
	r.op("put %d even keys (order %d: 0 up, 1 down, 2 shuffled, 3 alternating), value = key+1", size, kind)
	for _, k := range keys {
		t.Put(key{k, 0}, k+1)
		m[k] = k + 1
		if size < 3000 {
			r.check(t.Size() == len(m), "Size() = %d after %d different keys", t.Size(), len(m))
		}
	}
	all := func() {
		r.check(t.Size() == len(m), "Size() = %d, want %d", t.Size(), len(m))
		last, n := 0, 0
		seen := map[int]bool{}
		t.Each(func(k key, v int) {
			r.check(!seen[k.k], "Each visits %d again", k.k)
			seen[k.k] = true
			if n++; n > len(m) {
				r.fail("Each visits more than %d entries", len(m))
			}
			if n > 1 && ordered {
				r.check(less(key{last, 0}, k), "Each visits %d after %d", k.k, last)
			}
			last = k.k
			w, ok := m[k.k]
			r.check(ok && v == w, "Each visits (%d, %d), want %d, %v", k.k, v, w, ok)
		})
		r.check(n == len(m), "Each visits %d entries, want %d", n, len(m))
		for k, v := range m {
			w, ok := t.Get(key{k, 3})
			r.check(ok && v == w, "Get(%d) = %d, %v, want %d", k, w, ok, v)
			if !ok {
				break
			}
		}
	}
	all()
	steps := 200
	if size < 500 {
		steps = 60
	}
	if r.chance(10) {
		steps = size + r.n(2*size+1)
	}
	for i := 0; i < steps; i++ {
		k := r.n(2*size+3) - 1
		switch r.n(3) {
		case 0:
			r.op("Remove(%d)", k)
			t.Remove(key{k, 1})
			delete(m, k)
		case 1:
			r.op("Put(%d, %d)", k, i)
			t.Put(key{k, 2}, i)
			m[k] = i
		case 2:
			q := key{k, 1}
			got, ok := t.Get(q)
			w, wok := m[k]
			r.check(ok == wok && (!ok || got == w), "Get(%d) = %d, %v, want %d, %v", k, got, ok, w, wok)
		}
		if size < 2000 || i%(size/16) == 0 {
			r.check(t.Size() == len(m), "Size() = %d, want %d", t.Size(), len(m))
		}
	}
	all()
	if r.chance(25) {
		r.op("remove every key but a few")
		left := r.n(6)
		for k := range m {
			if len(m) <= left {
				break
			}
			t.Remove(key{k, 2})
			delete(m, k)
		}
		all()
		for i := 0; i < 12; i++ {
			r.op("Put(%d, %d)", i, i)
			t.Put(key{i, 1}, i)
			m[i] = i
		}
		all()
	}
}

// itree and hmap make the other maps look like the ordered ones
type itree struct{ t *interval.Tree[int, int] }

func (x itree) Get(k key) (int, bool) {
	kv, ok := x.t.Get(k.k)
	if ok && (kv.Low != k.k || kv.High != k.k+kv.Val%5) {
		panic(failure{fmt.Sprintf("Get(%d) returned %v", k.k, kv)})
	}
	return kv.Val, ok
}
func (x itree) Put(k key, v int) { x.t.Put(k.k, k.k+v%5, v) }
func (x itree) Remove(k key)     { x.t.Remove(k.k) }
func (x itree) Size() int        { return x.t.Size() }
func (x itree) Each(f func(key, int)) {
	x.t.Each(func(lo, hi, v int) {
		if hi != lo+v%5 {
			panic(failure{fmt.Sprintf("Each visits [%d, %d) with value %d", lo, hi, v)})
		}
		f(key{lo, 0}, v)
	})
}

func bulkTree(mk func(g.LessFn[key]) omap) scenario {
	return bulkScenario(true, func(r *R, l g.LessFn[key]) omap { return mk(l) })
}

func bulkHash(r *R, _ g.LessFn[key]) omap {
	eq := func(a, b key) bool { return a.k == b.k }
	hash := func(k key) uint64 { return g.HashInt(k.k) }
	if r.chance(30) {
		// even keys: half of the slots are first choices
		hash = func(k key) uint64 { return uint64(k.k) }
	} else if r.chance(30) {
		hash = func(k key) uint64 { return uint64(k.k) << 5 }
	}
	return hashmap.New[key, int](uint64(r.n(3)*r.n(40)), eq, hash)
}

func btreeScenario(r *R) {
	orderedScenario(func(l g.LessFn[key]) omap { return btree.New[key, int](l) }, nil)(r)
}

func intervalScenario(overlaps bool) scenario {
	return func(r *R) {
		span := r.span()
		width := 1 + r.n(span)
		type iv struct{ hi, v int }
		t := interval.New[int, int]()
		m := map[int]iv{}
		next := 1
		r.op("t := interval.New()")
		bias := 4 + r.n(5)
		seq := 0
		mono := r.chance(20)
		steps := r.steps()
		if n := r.bulk(20000); n > 0 {
			r.op("Put(3i, 3i+i%%11, i) for i in [0,%d) (down if mono: %v)", n, mono)
			for i := 0; i < n; i++ {
				x := i
				if mono {
					x = n - 1 - i
				}
				t.Put(3*x, 3*x+x%11, x)
				m[3*x] = iv{3*x + x%11, x}
			}
			span += 3 * n
			seq = 3 * n
		}
		for i := 0; i < steps; i++ {
			lo := r.key(span)
			if mono {
				lo = seq
				seq++
			}
			hi := lo + r.n(width+1)
			if r.spec > 0 && r.chance(r.spec) {
				hi = r.special()
			}
			if r.chance(3) {
				hi = lo - 1 - r.n(3)
			}
			c := r.n(10)
			switch {
			case c < bias:
				add := r.chance(40)
				name := "Put"
				if add {
					name = "Add"
				}
				r.op("%s(%d, %d, %d)", name, lo, hi, next)
				var kv interval.KV[int, int]
				var ok bool
				pan, _ := panics(func() {
					if add {
						kv, ok = t.Add(lo, hi, next)
					} else {
						kv, ok = t.Put(lo, hi, next)
					}
				})
				r.check(pan == (lo > hi), "%s(%d, %d) panicked: %v", name, lo, hi, pan)
				if !pan {
					old, was := m[lo]
					r.check(ok == was, "%s reported %v, want %v", name, ok, was)
					if was {
						r.check(kv == interval.KV[int, int]{Low: lo, High: old.hi, Val: old.v}, "%s returned %v, want [%d,%d) %d", name, kv, lo, old.hi, old.v)
					}
					if !was || !add {
						m[lo] = iv{hi, next}
					}
				}
				next++
			case c < 9:
				if mono && len(m) > 0 {
					lo = r.n(seq + 1)
				}
				r.op("Remove(%d)", lo)
				kv, ok := t.Remove(lo)
				old, was := m[lo]
				r.check(ok == was, "Remove(%d) reported %v, want %v", lo, ok, was)
				if was {
					r.check(kv == interval.KV[int, int]{Low: lo, High: old.hi, Val: old.v}, "Remove returned %v, want [%d,%d) %d", kv, lo, old.hi, old.v)
				}
				delete(m, lo)
			}
			if !overlaps {
				q := r.n(span+2) - 1
				kv, ok := t.Get(q)
				old, was := m[q]
				r.check(ok == was && (!was || kv == interval.KV[int, int]{Low: q, High: old.hi, Val: old.v}), "Get(%d) = %v, %v, want %v, %v", q, kv, ok, old, was)
				r.check(t.Size() == len(m), "Size() = %d, want %d", t.Size(), len(m))
				if len(m) < 30 || i%(len(m)/4) == 0 || i == steps-1 {
					last, n := 0, 0
					t.Each(func(lo, hi, v int) {
						r.check(n == 0 || last < lo, "Each is not in increasing order at %d", lo)
						last = lo
						n++
						w, ok := m[lo]
						r.check(ok && w == iv{hi, v}, "Each visits [%d,%d) %d, want %v, %v", lo, hi, v, w, ok)
					})
					r.check(n == len(m), "Each visits %d intervals, want %d", n, len(m))
					for k, w := range m {
						kv, ok := t.Get(k)
						r.check(ok && kv == interval.KV[int, int]{Low: k, High: w.hi, Val: w.v}, "Get(%d) = %v, %v, want %v", k, kv, ok, w)
					}
				}
				continue
			}
			for q := 0; q < 3; q++ {
				lo := r.n(span+4) - 2
				hi := lo + r.n(width+2)
				if r.spec > 0 && r.chance(20) {
					lo, hi = r.special(), r.special()
					if lo > hi {
						lo, hi = hi, lo
					}
				}
				var want []interval.KV[int, int]
				for k, w := range m {
					if k < hi && w.hi > lo {
						want = append(want, interval.KV[int, int]{Low: k, High: w.hi, Val: w.v})
					}
				}
				sort.Slice(want, func(i, j int) bool { return want[i].Low < want[j].Low })
				got := t.Overlaps(lo, hi)
				r.check(eqSlice(got, want), "Overlaps(%d, %d) = %v, want %v", lo, hi, got, want)
			}
		}
	}
}

func intervalHeight(r *R) {
	span := r.span()
	t := interval.New[int, int]()
	m := map[int]bool{}
	r.op("t := interval.New()")
	kind := r.n(4)
	seq := 0
	if n := r.bulk(140000); n > 0 {
		r.op("Put(2i, 2i+1) for i in [0,%d), kind %d", n, kind)
		for i := 0; i < n; i++ {
			k := 2 * i
			if kind == 1 {
				k = -k
			} else if kind > 1 {
				k = r.n(4 * n)
			}
			t.Put(k, k+1, i)
			m[k] = true
		}
		seq = 2*n + 1
		span += 4 * n
		checkHeight(r, t, t.Height(), len(m))
	}
	for i := r.steps(); i > 0; i-- {
		k := r.n(span)
		seq++
		if kind == 0 {
			k = seq
		} else if kind == 1 {
			k = -seq
		}
		switch c := r.n(10); {
		case c < 4:
			r.op("Put(%d, %d)", k, k+i%7)
			t.Put(k, k+i%7, i)
			m[k] = true
		case c < 6:
			r.op("Add(%d, %d)", k, k+i%7)
			t.Add(k, k+i%7, i)
			m[k] = true
		default:
			if kind < 2 {
				k = r.n(seq + 1)
				if kind == 1 {
					k = -k
				}
			}
			r.op("Remove(%d)", k)
			t.Remove(k)
			delete(m, k)
		}
		if len(m) > 100 && i%(len(m)/20) != 0 && i > 1 {
			continue
		}
		checkHeight(r, t, t.Height(), len(m))
	}
}

func hashOf(r *R) (func(key) uint64, string) {
	switch r.n(6) {
	case 0:
		c := r.Uint64()
		return func(key) uint64 { return c }, "a constant hash"
	case 1:
		return func(k key) uint64 { return uint64(k.k) }, "the identity hash"
	case 2:
		return func(k key) uint64 { return uint64(k.k) % 3 }, "hash k mod 3"
	case 3:
		return func(k key) uint64 { return ^uint64(k.k % 4) }, "hash ^(k mod 4)"
	case 4:
		return func(k key) uint64 { return uint64(k.k) << 3 }, "hash k<<3"
	}
	return func(k key) uint64 { return g.HashInt(k.k) }, "HashInt"
}

func hashmapScenario(copies bool) scenario {
	return func(r *R) {
		span := r.span()
		if span > 300 {
			span = 300
		}
		eq := func(a, b key) bool { return a.k == b.k }
		hash, hname := hashOf(r)
		cap := []uint64{0, 1, 2, 3, 4, 7, 8, 16, 17, 64}[r.n(10)]
		type pair struct {
			h *hashmap.Map[key, int]
			m map[int]int
		}
		r.op("m0 := hashmap.New(%d, equals, %s)", cap, hname)
		ps := []*pair{{hashmap.New[key, int](cap, eq, hash), map[int]int{}}}
		next := 1
		if n := r.bulk(1500); n > 0 && r.iter%3 == 0 {
			if n > 200 && hname != "HashInt" && hname != "the identity hash" {
				n = 200
			}
			r.op("m0.Put(3i, i) for i in [0,%d)", n)
			for i := 0; i < n; i++ {
				ps[0].h.Put(key{3 * i, 0}, i)
				ps[0].m[3*i] = i
			}
			span += 3 * n
		}
		bias := 3 + r.n(5)
		steps := r.steps()
		if steps > 500 {
			steps = 500
		}
		for i := 0; i < steps; i++ {
			j := r.n(len(ps))
			p := ps[j]
			k := key{r.key(span), r.n(3)}
			if r.chance(30) && len(p.m) > 0 {
				for x := range p.m {
					if k.k > x || r.chance(20) {
						k.k = x
						break
					}
				}
			}
			switch c := r.n(12); {
			case c < bias:
				r.op("m%d.Put(%v, %d)", j, k, next)
				p.h.Put(k, next)
				p.m[k.k] = next
				next++
			case c < 10:
				r.op("m%d.Remove(%v)", j, k)
				p.h.Remove(k)
				delete(p.m, k.k)
			case c == 10 && r.chance(20):
				r.op("m%d.Clear()", j)
				p.h.Clear()
				p.m = map[int]int{}
			case c == 11 && copies && len(ps) < 6:
				r.op("m%d := m%d.Copy()", len(ps), j)
				m := map[int]int{}
				for a, b := range p.m {
					m[a] = b
				}
				ps = append(ps, &pair{p.h.Copy(), m})
			}
			for x, p := range ps {
				r.check(p.h.Size() == len(p.m), "m%d.Size() = %d, want %d", x, p.h.Size(), len(p.m))
				q := key{r.n(span), r.n(3)}
				if r.chance(40) {
					q = k
				}
				got, ok := p.h.Get(q)
				want, wok := p.m[q.k]
				r.check(ok == wok && got == want, "m%d.Get(%v) = %d, %v, want %d, %v", x, q, got, ok, want, wok)
				if len(p.m) < 24 || i%8 == 0 || i == steps-1 {
					seen := map[int]bool{}
					p.h.Each(func(k key, v int) {
						w, ok := p.m[k.k]
						r.check(ok && w == v && !seen[k.k], "m%d.Each visits (%v, %d), want %d, %v (again: %v)", x, k, v, w, ok, seen[k.k])
						seen[k.k] = true
					})
					r.check(len(seen) == len(p.m), "m%d.Each visits %d entries, want %d", x, len(seen), len(p.m))
					for a, b := range p.m {
						got, ok := p.h.Get(key{a, 9})
						r.check(ok && got == b, "m%d.Get(%d) = %d, %v, want %d", x, a, got, ok, b)
					}
				}
			}
		}
	}
}

// integer keys with the library's own hash, and larger maps
func hashmapInts(r *R) {
	h := hashmap.New[int, int](uint64(r.n(40)), g.Equals[int], g.HashInt)
	m := map[int]int{}
	span := r.span()
	r.op("m0 := hashmap.New(g.Equals, g.HashInt)")
	for i := r.steps(); i > 0; i-- {
		k := r.key(span) - span/3
		if r.chance(60) {
			r.op("Put(%d, %d)", k, i)
			h.Put(k, i)
			m[k] = i
		} else {
			r.op("Remove(%d)", k)
			h.Remove(k)
			delete(m, k)
		}
		q := r.n(span) - span/3
		got, ok := h.Get(q)
		want, wok := m[q]
		r.check(ok == wok && got == want, "Get(%d) = %d, %v, want %d, %v", q, got, ok, want, wok)
		r.check(h.Size() == len(m), "Size() = %d, want %d", h.Size(), len(m))
	}
	n := 0
	seen := map[int]bool{}
	h.Each(func(k, v int) {
		n++
		w, ok := m[k]
		r.check(!seen[k], "Each visits %d again", k)
		seen[k] = true
		r.check(ok && w == v, "Each visits (%d, %d), want %d, %v", k, v, w, ok)
	})
	r.check(n == len(m), "Each visits %d entries, want %d", n, len(m))
}

type hset struct {
	s *hashset.Set[key]
	m map[int]bool
}

func hsetVerify(r *R, x int, p *hset, span int) {
	r.check(p.s.Size() == len(p.m), "s%d.Size() = %d, want %d", x, p.s.Size(), len(p.m))
	seen := map[int]bool{}
	p.s.Each(func(k key) {
		r.check(p.m[k.k] && !seen[k.k], "s%d.Each visits %v: member %v, visited before %v", x, k, p.m[k.k], seen[k.k])
		seen[k.k] = true
	})
	r.check(len(seen) == len(p.m), "s%d.Each visits %d values, want %d", x, len(seen), len(p.m))
	for i := 0; i < 8; i++ {
		k := r.n(span + 2)
		r.check(p.s.Has(key{k, 7}) == p.m[k], "s%d.Has(%d) = %v", x, k, !p.m[k])
	}
	for k := range p.m {
		r.check(p.s.Has(key{k, 8}), "s%d.Has(%d) = false", x, k)
	}
}

func hsetRun(r *R, copies bool) {
	span := r.span()
	if span > 300 {
		span = 300
	}
	eq := func(a, b key) bool { return a.k == b.k }
	hash, hname := hashOf(r)
	cap := []uint64{0, 1, 2, 3, 4, 7, 8, 16, 17, 64}[r.n(10)]
	if l := r.lit(0, 5000); l >= 0 && r.chance(10) {
		cap = uint64(l)
	}
	var ps []*hset
	if r.chance(50) {
		r.op("s0 := hashset.New(%d, equals, %s)", cap, hname)
		ps = append(ps, &hset{hashset.New(cap, eq, hash), map[int]bool{}})
	} else {
		var l []key
		m := map[int]bool{}
		n := r.n(12)
		if b := r.bulk(1500); b > 0 && r.iter%3 == 0 {
			n = b
			if n > 200 && hname != "HashInt" && hname != "the identity hash" {
				n = 200
			}
			span = 2*n + 2
		}
		for i := n; i > 0; i-- {
			k := key{r.key(span), r.n(2)}
			l = append(l, k)
			m[k.k] = true
		}
		r.op("s0 := hashset.Of(%d, equals, %s, %v...)", cap, hname, l)
		ps = append(ps, &hset{hashset.Of(cap, eq, hash, l...), m})
	}
	hsetVerify(r, 0, ps[0], span)
	bias := 3 + r.n(5)
	steps := r.steps()
	if steps > 400 {
		steps = 400
	}
	for i := 0; i < steps; i++ {
		j := r.n(len(ps))
		p := ps[j]
		k := key{r.key(span), r.n(3)}
		switch c := r.n(12); {
		case c < bias:
			r.op("s%d.Put(%v)", j, k)
			p.s.Put(k)
			p.m[k.k] = true
		case c < 10:
			r.op("s%d.Remove(%v)", j, k)
			p.s.Remove(k)
			delete(p.m, k.k)
		case c == 10 && r.chance(20):
			r.op("s%d.Clear()", j)
			p.s.Clear()
			p.m = map[int]bool{}
		case c == 11 && copies && len(ps) < 5:
			r.op("s%d := s%d.Copy()", len(ps), j)
			m := map[int]bool{}
			for a := range p.m {
				m[a] = true
			}
			ps = append(ps, &hset{p.s.Copy(), m})
		}
		for x, p := range ps {
			if len(p.m) > 100 && i%16 != 1 && i < steps-1 {
				r.check(p.s.Size() == len(p.m) && p.s.Has(key{k.k, 5}) == p.m[k.k], "s%d: size %d, want %d, Has(%d) = %v, want %v", x, p.s.Size(), len(p.m), k.k, p.s.Has(key{k.k, 5}), p.m[k.k])
				continue
			}
			hsetVerify(r, x, p, span)
		}
	}
}

func hashsetScenario(r *R) { hsetRun(r, false) }
func hashsetCopies(r *R)   { hsetRun(r, true) }

func mapsetScenario(r *R) {
	span := r.span()
	m := map[int]bool{}
	var s mapset.Set[int]
	if r.chance(50) {
		r.op("s := mapset.New()")
		s = mapset.New[int]()
	} else {
		var l []int
		n := r.n(10)
		if b := r.bulk(20000); b > 0 {
			n = b
			span = 1 + r.n(3*n)
		}
		for i := n; i > 0; i-- {
			l = append(l, r.key(span))
		}
		r.op("s := mapset.Of(%v...)", l)
		s = mapset.Of(l...)
		for _, k := range l {
			m[k] = true
		}
	}
	other := mapset.Of(1, 2)
	for i := r.steps(); i > 0; i-- {
		k := r.key(span)
		switch c := r.n(12); {
		case c < 6:
			r.op("Put(%d)", k)
			s.Put(k)
			m[k] = true
		case c < 11:
			r.op("Remove(%d)", k)
			s.Remove(k)
			delete(m, k)
		case r.chance(30):
			r.op("Clear()")
			s.Clear()
			m = map[int]bool{}
		}
		r.check(s.Size() == len(m), "Size() = %d, want %d", s.Size(), len(m))
		r.check(s.Has(k) == m[k], "Has(%d) = %v", k, !m[k])
		if len(m) > 100 && i%16 != 1 {
			continue
		}
		seen := map[int]bool{}
		s.Each(func(k int) {
			r.check(m[k] && !seen[k], "Each visits %d: member %v, visited before %v", k, m[k], seen[k])
			seen[k] = true
		})
		r.check(len(seen) == len(m), "Each visits %d values, want %d", len(seen), len(m))
		for k := 0; k < span+2 && k < 40; k++ {
			r.check(s.Has(k) == m[k], "Has(%d) = %v", k, !m[k])
		}
	}
	r.check(other.Size() == 2 && other.Has(1) && other.Has(2), "another set changed")
}

func bimapScenario(r *R) {
	span := r.span()
	type pair struct {
		b    *bimap.Bimap[int, int]
		f, v map[int]int
	}
	var ps []*pair
	mk := func() {
		if r.chance(60) {
			var x bimap.Bimap[int, int]
			if r.chance(60) {
				r.op("b%d := bimap.Bimap{}", len(ps))
			} else {
				r.op("b%d := bimap.Of({})", len(ps))
				x = bimap.Of(map[int]int{})
			}
			ps = append(ps, &pair{&x, map[int]int{}, map[int]int{}})
			return
		}
		m := map[int]int{}
		f, v := map[int]int{}, map[int]int{}
		if r.chance(10) {
			// several keys with one value: whichever order, one of them keeps it
			for i := r.n(12); i > 0; i-- {
				m[r.key(span)] = r.n(3)
			}
			r.op("b%d := bimap.Of(%v)", len(ps), m)
			x := bimap.Of(m)
			for _, b := range m {
				k, ok := x.GetReverse(b)
				w, in := m[k]
				r.check(ok && in && w == b, "GetReverse(%d) = %d, %v after Of", b, k, ok)
				f[k], v[b] = b, k
			}
			ps = append(ps, &pair{&x, f, v})
			return
		}
		n := r.n(6)
		if b := r.bulk(5000); b > 0 && len(ps) == 0 {
			n = b
			span = 1 + r.n(3*n)
		}
		for i := n; i > 0; i-- {
			a, b := r.key(span), r.key(span)
			if _, ok := f[a]; ok {
				continue
			}
			if _, ok := v[b]; ok {
				continue
			}
			m[a], f[a], v[b] = b, b, a
		}
		r.op("b%d := bimap.Of(%v)", len(ps), m)
		x := bimap.Of(m)
		ps = append(ps, &pair{&x, f, v})
		m[span+5] = 1
		delete(m, 0)
	}
	mk()
	var none *bimap.Bimap[int, int]
	r.check(none.Len() == 0, "the length of a nil bimap is %d", none.Len())
	for i := r.steps(); i > 0; i-- {
		j := r.n(len(ps))
		p := ps[j]
		k, v := r.key(span), r.key(span)
		if len(p.f) > 0 && r.spec > 0 && r.chance(40) {
			for k = range p.f {
				break
			}
			for v = range p.v {
				break
			}
		}
		switch c := r.n(14); {
		case c < 7:
			r.op("b%d.Add(%d, %d)", j, k, v)
			p.b.Add(k, v)
			if o, ok := p.f[k]; ok {
				delete(p.v, o)
			}
			if o, ok := p.v[v]; ok {
				delete(p.f, o)
			}
			p.f[k], p.v[v] = v, k
		case c < 9:
			r.op("b%d.RemoveForward(%d)", j, k)
			p.b.RemoveForward(k)
			if o, ok := p.f[k]; ok {
				delete(p.v, o)
				delete(p.f, k)
			}
		case c < 11:
			r.op("b%d.RemoveReverse(%d)", j, v)
			p.b.RemoveReverse(v)
			if o, ok := p.v[v]; ok {
				delete(p.f, o)
				delete(p.v, v)
			}
		case c == 11 && r.chance(30):
			r.op("b%d.Clear()", j)
			p.b.Clear()
			p.f, p.v = map[int]int{}, map[int]int{}
		case c == 12 && len(ps) < 5:
			r.op("b%d := b%d.Copy()", len(ps), j)
			x := p.b.Copy()
			f, v := map[int]int{}, map[int]int{}
			for a, b := range p.f {
				f[a], v[b] = b, a
			}
			ps = append(ps, &pair{&x, f, v})
		case c == 13 && len(ps) < 5:
			mk()
		}
		for x, p := range ps {
			r.check(p.b.Len() == len(p.f), "b%d.Len() = %d, want %d", x, p.b.Len(), len(p.f))
			if len(p.f) > 100 && i%16 != 1 {
				continue
			}
			n := 0
			seen := map[int]bool{}
			p.b.Each(func(k, v int) {
				n++
				w, ok := p.f[k]
				r.check(ok && w == v && !seen[k], "b%d.Each visits (%d, %d), want %d, %v, visited before %v", x, k, v, w, ok, seen[k])
				seen[k] = true
			})
			r.check(n == len(p.f), "b%d.Each visits %d pairs, want %d", x, n, len(p.f))
			for q := 0; q < span+2 && q < 30; q++ {
				z := q
				if span > 30 {
					z = r.n(span + 2)
				}
				switch q {
				case 3:
					z = k
				case 4:
					z = v
				}
				got, ok := p.b.GetForward(z)
				want, wok := p.f[z]
				r.check(ok == wok && got == want && p.b.ContainsForward(z) == wok, "b%d.GetForward(%d) = %d, %v (contains %v), want %d, %v", x, z, got, ok, p.b.ContainsForward(z), want, wok)
				got, ok = p.b.GetReverse(z)
				want, wok = p.v[z]
				r.check(ok == wok && got == want && p.b.ContainsReverse(z) == wok, "b%d.GetReverse(%d) = %d, %v (contains %v), want %d, %v", x, z, got, ok, p.b.ContainsReverse(z), want, wok)
			}
		}
	}
}

func cacheScenario(r *R) {
	span := r.span()
	capacity := []int{0, 1, 1, 2, 2, 3, 4, 5, 8, 20}[r.n(10)]
	big := r.bulk(3000)
	if big > 0 {
		capacity = big
		span = 1 + r.n(2*big)
	}
	type kv struct{ k, v int }
	r.op("c := cache.New(%d)", capacity)
	c := cache.New[int, int](capacity)
	var m, evs, want []kv // m: most recent first
	hooked := 0
	find := func(k int) int {
		for i, e := range m {
			if e.k == k {
				return i
			}
		}
		return -1
	}
	front := func(at int) {
		e := m[at]
		m = append(m[:at:at], m[at+1:]...)
		m = append([]kv{e}, m...)
	}
	nosy := false
	set := func() {
		hooked++
		h := hooked
		nosy = r.chance(30)
		if nosy {
			r.op("SetEvictCallback(record and look up entries)")
		} else {
			r.op("SetEvictCallback(record)")
		}
		c.SetEvictCallback(func(k, v int) {
			r.check(h == hooked, "a replaced callback was invoked")
			evs = append(evs, kv{k, v})
			r.check(len(m) > 0 && m[len(m)-1] == kv{k, v}, "eviction callback got %d, %d, not the least recently used entry", k, v)
			r.check(c.Size() == len(m), "Size() = %d in the eviction callback, want %d: the entry is still there", c.Size(), len(m))
			want = append(want, m[len(m)-1])
			if nosy {
				for n := r.n(3); n > 0; n-- {
					q := r.key(span)
					if r.chance(50) {
						q = k
					}
					got, ok := c.Get(q)
					at := find(q)
					r.check(ok == (at >= 0), "Get(%d) in the eviction callback reported %v", q, ok)
					if at >= 0 {
						r.check(got == m[at].v, "Get(%d) in the eviction callback = %d, want %d", q, got, m[at].v)
						front(at)
					}
				}
				var seen []kv
				c.Each(func(k, v int) { seen = append(seen, kv{k, v}) })
				r.check(eqSlice(seen, m), "Each in the eviction callback visits %v, want %v", seen, m)
			}
			at := find(k)
			m = append(m[:at:at], m[at+1:]...)
		})
	}
	if r.chance(80) {
		set()
	}
	// the entries beyond the first n were evicted: the callback saw them go
	shrunk := func(n int) {
		if hooked == 0 && len(m) > n {
			m = m[:n:n]
		}
		r.check(len(m) <= n, "the eviction callback was not invoked: %d entries were to be left, %d were not evicted", n, len(m)-n)
	}
	fill := 0
	for i := r.steps(); i > 0; i-- {
		k := r.key(span)
		evs, want = nil, nil
		if big > 0 && fill == 0 {
			fill = 1
			r.op("Put(i, i) for i in [0,%d)", big+5)
			for x := 0; x < big+5; x++ {
				full := len(m) == capacity
				c.Put(x, x)
				if capacity > 0 {
					if full {
						shrunk(capacity - 1)
					}
					m = append(m, kv{})
					copy(m[1:], m)
					m[0] = kv{x, x}
				}
			}
			r.check(eqSlice(evs, want), "eviction callback got %v, want %v", evs, want)
			evs, want = nil, nil
		}
		switch x := r.n(20); {
		case x < 9:
			r.op("Put(%d, %d)", k, i)
			full, at := len(m) == capacity, find(k)
			c.Put(k, i)
			if at >= 0 {
				r.check(len(evs) == 0, "putting the present key %d evicted %v", k, evs)
				m = append(m[:at:at], m[at+1:]...)
				m = append([]kv{{k, i}}, m...)
			} else if capacity > 0 {
				if full {
					shrunk(capacity - 1)
				} else {
					r.check(len(evs) == 0, "%v evicted although the cache is not full", evs)
				}
				m = append([]kv{{k, i}}, m...)
			}
		case x < 14:
			r.op("Get(%d)", k)
			got, ok := c.Get(k)
			at := find(k)
			r.check(ok == (at >= 0), "Get(%d) reported %v", k, ok)
			if at >= 0 {
				e := m[at]
				r.check(got == e.v, "Get(%d) = %d, want %d", k, got, e.v)
				m = append(m[:at:at], m[at+1:]...)
				m = append([]kv{e}, m...)
			}
		case x < 17:
			r.op("Remove(%d)", k)
			c.Remove(k)
			if at := find(k); at >= 0 {
				m = append(m[:at:at], m[at+1:]...)
			}
		case x < 19:
			n := r.n(6)
			if r.chance(20) {
				n = r.n(30)
			}
			if r.chance(5) {
				n = r.bulk(3000)
			}
			r.op("Resize(%d)", n)
			before := len(m)
			c.Resize(n)
			capacity = n
			shrunk(n)
			r.check(len(m) == n || before <= n && len(m) == before, "shrinking to %d left %d entries of %d", n, len(m), before)
		default:
			set()
		}
		r.check(eqSlice(evs, want), "eviction callback got %v, want %v", evs, want)
		r.check(c.Size() == len(m), "Size() = %d, want %d", c.Size(), len(m))
		r.check(c.Capacity() == capacity, "Capacity() = %d, want %d", c.Capacity(), capacity)
		r.check(c.Size() <= capacity, "Size() = %d exceeds the capacity %d", c.Size(), capacity)
		var got []kv
		c.Each(func(k, v int) { got = append(got, kv{k, v}) })
		r.check(eqSlice(got, m), "Each visits %v, want %v", got, m)
		r.check(len(evs) == len(want), "eviction callback invoked at the wrong time")
	}
}

func multimapScenario(r *R) {
	kind := r.n(4)
	span, vspan := 1+r.n(8), 1+r.n(6)
	if r.chance(15) {
		span, vspan = 40, 20
	}
	if n := r.bulk(400); n > 0 {
		span = n
		if r.chance(50) {
			span, vspan = 1+r.n(3), n
		}
	}
	less := func(a, b int) bool { return a < b }
	var mm multimap.MultiMap[int, int]
	switch kind {
	case 0:
		mm = multimap.NewAvlSlice[int, int](less)
	case 1:
		mm = multimap.NewAvlSet[int, int](less, less)
	case 2:
		mm = multimap.NewMapSlice[int, int]()
	case 3:
		mm = multimap.NewMapSet[int, int](less)
	}
	r.op("m := multimap.%s()", []string{"NewAvlSlice", "NewAvlSet", "NewMapSlice", "NewMapSet"}[kind])
	isSet, sorted := kind%2 == 1, kind < 2
	m := map[int]map[int]int{}
	norm := func(l []int) []int {
		l = clone(l)
		sort.Ints(l)
		return l
	}
	listOf := func(k int) []int {
		var l []int
		for v, c := range m[k] {
			for ; c > 0; c-- {
				l = append(l, v)
			}
		}
		sort.Ints(l)
		return l
	}
	same := func(got, want []int) bool {
		if !isSet {
			got = norm(got)
		}
		return eqSlice(got, want)
	}
	for i := r.steps(); i > 0; i-- {
		k, v := r.n(span), r.n(vspan)
		switch c := r.n(20); {
		case c < 10:
			r.op("Put(%d, %d)", k, v)
			mm.Put(k, v)
			if m[k] == nil {
				m[k] = map[int]int{}
			}
			if isSet {
				m[k][v] = 1
			} else {
				m[k][v]++
			}
		case c < 17:
			r.op("Remove(%d, %d)", k, v)
			mm.Remove(k, v)
			if m[k][v] > 0 {
				m[k][v]--
				if m[k][v] == 0 {
					delete(m[k], v)
				}
				if len(m[k]) == 0 {
					delete(m, k)
				}
			}
		case c < 19:
			r.op("RemoveAll(%d)", k)
			mm.RemoveAll(k)
			delete(m, k)
		case r.chance(20):
			r.op("Clear()")
			mm.Clear()
			m = map[int]map[int]int{}
		}
		if len(m) > 0 && (span > 100 || vspan > 100) && i%20 != 1 {
			continue
		}
		total := 0
		for k := range m {
			total += len(listOf(k))
		}
		r.check(mm.Size() == total, "Size() = %d, want %d", mm.Size(), total)
		r.check(mm.Dimension() == len(m), "Dimension() = %d, want %d", mm.Dimension(), len(m))
		if i%4 != 0 && total > 60 {
			continue
		}
		for k := -1; k <= span; k++ {
			want := listOf(k)
			r.check(mm.Count(k) == len(want), "Count(%d) = %d, want %d", k, mm.Count(k), len(want))
			r.check(mm.Has(k) == (len(want) > 0), "Has(%d) = %v", k, mm.Has(k))
			got := mm.Get(k)
			r.check(same(got, want), "Get(%d) = %v, want %v", k, got, want)
		}
		got := map[int][]int{}
		var order []int
		mm.Each(func(k, v int) {
			if len(order) == 0 || order[len(order)-1] != k {
				order = append(order, k)
			}
			got[k] = append(got[k], v)
		})
		r.check(len(order) == len(m), "Each visits the keys %v, want %d keys", order, len(m))
		r.check(!sorted || sort.IntsAreSorted(order), "Each visits the keys in the order %v", order)
		for k, l := range got {
			r.check(same(l, listOf(k)), "Each visits %v for key %d, want %v", l, k, listOf(k))
		}
		var keys []int
		mm.EachAssociation(func(k int, l []int) {
			keys = append(keys, k)
			r.check(same(l, listOf(k)), "EachAssociation lists %v for key %d, want %v", l, k, listOf(k))
		})
		r.check(len(keys) == len(m), "EachAssociation visits the keys %v, want %d keys", keys, len(m))
		r.check(!sorted || sort.IntsAreSorted(keys), "EachAssociation visits the keys in the order %v", keys)
		for _, k := range keys {
			r.check(m[k] != nil, "EachAssociation visits the absent key %d", k)
		}
	}
}
