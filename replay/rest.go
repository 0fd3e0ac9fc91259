package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/trie"
)

func init() {
	reg("G01", orderScenario)
	reg("G02", hashScenario)
	reg("A01", arrayCells)
	reg("A02", arrayRows)
	reg("R01", ropeScenario(false))
	reg("R02", ropeScenario(true))
	reg("O01", propeScenario)
	reg("O02", propeScenario)
	reg("D01", trieScenario(false))
	reg("D02", trieScenario(true))
	reg("E01", setScenario)
}

func edgeInt(r *R) int {
	if r.chance(25) {
		return r.special()
	}
	switch r.n(6) {
	case 0:
		return []int{math.MinInt, math.MinInt + 1, -1, 0, 1, math.MaxInt - 1, math.MaxInt}[r.n(7)]
	case 1:
		return int(r.Uint64())
	}
	return r.n(7) - 3
}

func edgeFloat(r *R) float64 {
	switch r.n(6) {
	case 0:
		return []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0, 0.5, 1e300}[r.n(8)]
	case 1:
		if len(fltLits) > 0 {
			return fltLits[r.n(len(fltLits))]
		}
	case 2:
		return r.NormFloat64() * math.Pow(10, float64(r.n(40)-20))
	case 3:
		return float64(edgeInt(r))
	}
	return float64(r.n(13)-6) / 2
}

func edgeString(r *R) string {
	switch r.n(6) {
	case 0:
		if len(strLits) > 0 {
			return strLits[r.n(len(strLits))]
		}
	case 1:
		n := r.n(300)
		if l := r.lit(0, 5000); l >= 0 && r.chance(30) {
			n = l
		}
		return strings.Repeat(string(rune('a'+r.n(3))), n)
	case 2:
		b := make([]byte, r.n(6))
		r.Read(b)
		return string(b)
	}
	return []string{"", "a", "ab", "b", "ba", "\xff"}[r.n(6)]
}

func orderScenario(r *R) {
	x, lo, hi := edgeInt(r), edgeInt(r), edgeInt(r)
	r.op("x=%d lo=%d hi=%d", x, lo, hi)
	r.op("compare, max, min, clamp")
	check := func(less func(a, b int) bool, max, min, clamp int, name string) {
		c := g.Compare(x, lo, less)
		want := 0
		if less(x, lo) {
			want = -1
		} else if less(lo, x) {
			want = 1
		}
		r.check(c == want, "%s: Compare(%d, %d) = %d", name, x, lo, c)
		r.check((max == x || max == lo) && !less(max, x) && !less(max, lo), "%s: Max(%d, %d) = %d", name, x, lo, max)
		r.check((min == x || min == lo) && !less(x, min) && !less(lo, min), "%s: Min(%d, %d) = %d", name, x, lo, min)
		if !less(hi, lo) {
			w := x
			if less(x, lo) {
				w = lo
			} else if less(hi, x) {
				w = hi
			}
			r.check(clamp == w, "%s: Clamp(%d, %d, %d) = %d", name, x, lo, hi, clamp)
		}
	}
	check(g.Less[int], g.Max(x, lo), g.Min(x, lo), g.Clamp(x, lo, hi), "natural order")
	r.check(g.Less(x, lo) == (x < lo) && g.Equals(x, lo) == (x == lo), "Less or Equals of %d, %d is wrong", x, lo)
	gt := func(a, b int) bool { return a > b }
	check(gt, g.MaxFunc(x, lo, gt), g.MinFunc(x, lo, gt), g.ClampFunc(x, lo, hi, gt), "reverse order")
	fx, fl, fh := edgeFloat(r), edgeFloat(r), edgeFloat(r)
	r.op("floats %v %v %v", fx, fl, fh)
	if fl <= fh {
		c := g.Clamp(fx, fl, fh)
		r.check(c == math.Max(fl, math.Min(fx, fh)), "Clamp(%v, %v, %v) = %v", fx, fl, fh, c)
	}
	r.check(g.Max(fx, fl) == math.Max(fx, fl) && g.Min(fx, fl) == math.Min(fx, fl), "Max or Min of %v and %v", fx, fl)
	r.check(g.Less(fx, fl) == (fx < fl) && g.Equals(fx, fl) == (fx == fl), "Less or Equals of %v, %v is wrong", fx, fl)
	u8, l8, h8 := uint8(x), uint8(lo), uint8(hi)
	r.check(g.Less(u8, l8) == (u8 < l8) && g.Max(u8, l8) >= u8 && g.Max(u8, l8) >= l8 && g.Min(u8, l8) <= u8 && g.Min(u8, l8) <= l8, "Less, Max or Min of %d and %d (uint8)", u8, l8)
	if l8 <= h8 {
		c := g.Clamp(u8, l8, h8)
		r.check(c == g.Max(l8, g.Min(u8, h8)) && c >= l8 && c <= h8, "Clamp(%d, %d, %d) = %d (uint8)", u8, l8, h8, c)
	}
	// ties under a weak order: the identity of the result matters
	wl := func(a, b key) bool { return a.k < b.k }
	a, b, c := key{r.n(3), 1}, key{r.n(3), 2}, key{r.n(3), 3}
	r.op("weak order: x=%v lo=%v hi=%v", a, b, c)
	m := g.MaxFunc(a, b, wl)
	r.check((m == a || m == b) && !wl(m, a) && !wl(m, b), "MaxFunc(%v, %v) = %v", a, b, m)
	m = g.MinFunc(a, b, wl)
	r.check((m == a || m == b) && !wl(a, m) && !wl(b, m), "MinFunc(%v, %v) = %v", a, b, m)
	want := a
	if !wl(c, b) {
		if wl(a, b) {
			want = b
		} else if wl(c, a) {
			want = c
		}
		m = g.ClampFunc(a, b, c, wl)
		r.check(m == want, "ClampFunc(%v, %v, %v) = %v, want %v", a, b, c, m, want)
	}
	w := 0
	if a.k < b.k {
		w = -1
	} else if a.k > b.k {
		w = 1
	}
	r.check(g.Compare(a, b, wl) == w, "Compare(%v, %v) = %d", a, b, g.Compare(a, b, wl))
	s, u := edgeString(r), edgeString(r)
	r.op("strings %q %q", s, u)
	r.check(g.Less(s, u) == (s < u) && g.Equals(s, u) == (s == u), "Less or Equals of %q, %q is wrong", s, u)
	r.check(g.Compare(s, u, g.Less[string]) == strings.Compare(s, u), "Compare(%q, %q)", s, u)
	r.check(g.Max(s, u) >= s && g.Max(s, u) >= u && g.Min(s, u) <= s && g.Min(s, u) <= u, "Max or Min of %q and %q", s, u)
}

var hashSeen = map[string]map[uint64]uint64{}

func hashScenario(r *R) {
	one := func(name string, v, h, again uint64) {
		r.check(h == again, "%s is not deterministic on %d", name, v)
		m := hashSeen[name]
		if m == nil {
			m = map[uint64]uint64{}
			hashSeen[name] = m
		}
		if o, ok := m[h]; ok {
			r.check(o == v, "%s maps %d and %d to %d", name, int64(o), int64(v), h)
		} else if len(m) < 200000 {
			m[h] = v
		}
	}
	for i := 0; i < 20; i++ {
		var v uint64
		switch r.n(7) {
		case 6:
			v = uint64(r.special())
			if r.chance(50) {
				v <<= uint(8 * r.n(8))
			}
		case 0:
			v = uint64(edgeInt(r))
		case 1:
			v = uint64(r.n(70000) - 35000)
		case 2:
			v = uint64(1) << r.n(64)
		case 3:
			v = uint64(1)<<r.n(64) ^ uint64(1)<<r.n(64)
		case 4:
			v = r.Uint64()
		case 5:
			v = uint64(r.Uint32()) << (8 * r.n(5))
		}
		r.op("v = %d", v)
		one("HashUint64", v, g.HashUint64(v), g.HashUint64(v))
		one("HashInt64", v, g.HashInt64(int64(v)), g.HashInt64(int64(v)))
		one("HashUint", v, g.HashUint(uint(v)), g.HashUint(uint(v)))
		one("HashInt", v, g.HashInt(int(v)), g.HashInt(int(v)))
		one("HashUint32", uint64(uint32(v)), g.HashUint32(uint32(v)), g.HashUint32(uint32(v)))
		one("HashInt32", uint64(int32(v)), g.HashInt32(int32(v)), g.HashInt32(int32(v)))
		one("HashUint16", uint64(uint16(v)), g.HashUint16(uint16(v)), g.HashUint16(uint16(v)))
		one("HashInt16", uint64(int16(v)), g.HashInt16(int16(v)), g.HashInt16(int16(v)))
		one("HashUint8", uint64(uint8(v)), g.HashUint8(uint8(v)), g.HashUint8(uint8(v)))
		one("HashInt8", uint64(int8(v)), g.HashInt8(int8(v)), g.HashInt8(int8(v)))
	}
	n := r.n(40)
	if r.chance(10) {
		n = r.n(3000)
	} else if l := r.lit(0, 100000); l >= 0 && r.chance(10) {
		n = l
	}
	b := make([]byte, n)
	kind := r.n(3)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(r.n(256))
		case 1:
			b[i] = byte(0x80 * r.n(2))
		case 2:
			b[i] = "a\x00\xff\xc3\xa9"[r.n(5)]
		}
	}
	if r.chance(10) {
		b = []byte(edgeString(r))
	}
	r.op("bytes %v", b)
	h := g.HashBytes(b)
	r.check(g.HashString(string(b)) == h, "HashString and HashBytes differ on %v", b)
	r.check(g.HashBytes(append([]byte{}, b...)) == h && g.HashString(string(b)) == h, "hashing %v twice gives different results", b)
}

func inR(x, n int) bool { return 0 <= x && x < n }

// wrapRow is a row far out of range whose offset y*w wraps around to c, or close.
func wrapRow(r *R, w, c int) int {
	k := 0
	for w>>k&1 == 0 {
		k++
	}
	odd := uint64(w >> k)
	inv := odd
	for i := 0; i < 6; i++ {
		inv *= 2 - odd*inv
	}
	y := inv * uint64(c>>k)
	if k > 0 {
		y += uint64(r.n(1<<k)) << (64 - k)
	}
	return int(y)
}

func arrayCells(r *R) {
	dim := func() int {
		if r.chance(10) {
			return 1 + r.n(30)
		}
		return r.n(6)
	}
	w, h := dim(), dim()
	if b := r.bulk(300); b > 0 && r.iter%3 == 0 {
		w = b
		if r.chance(50) {
			w, h = h, w
		}
		if r.chance(10) {
			w, h = 100+r.n(200), 100+r.n(200)
		}
	}
	var a array2d.Array2D[int]
	m := make([]int, w*h)
	if r.chance(50) {
		r.op("a := array2d.New(%d, %d)", w, h)
		a = array2d.New[int](w, h)
	} else {
		r.op("a := array2d.NewFilled(%d, %d, 7)", w, h)
		a = array2d.NewFilled(w, h, 7)
		for i := range m {
			m[i] = 7
		}
	}
	r.check(a.Width() == w && a.Height() == h, "Width, Height = %d, %d", a.Width(), a.Height())
	coord := func(n int) int {
		if r.chance(8) {
			return []int{-1, n, n + 1, -n, math.MinInt, math.MaxInt, r.special(), n << 1, n | 1<<32}[r.n(9)]
		}
		if r.chance(20) && n > 0 {
			return []int{0, n - 1}[r.n(2)]
		}
		return r.n(n)
	}
	next := 100
	for i := 1 + r.n(12); i > 0; i-- {
		x, y := coord(w), coord(h)
		if w > 1 && h > 0 && r.chance(4) {
			y = wrapRow(r, w, r.n(w*h))
		}
		ok := inR(x, w) && inR(y, h)
		next++
		switch r.n(4) {
		case 0, 1:
			r.op("Set(%d, %d, %d)", x, y, next)
			pan, _ := panics(func() { a.Set(x, y, next) })
			r.check(pan == !ok, "Set(%d, %d) panicked: %v", x, y, pan)
			if ok {
				m[y*w+x] = next
			}
		case 2:
			x2, y2 := coord(w), coord(h)
			ok := ok && inR(x2, w) && inR(y2, h)
			r.op("Fill(%d, %d, %d, %d, %d)", x, y, x2, y2, next)
			pan, _ := panics(func() { a.Fill(x, y, x2, y2, next) })
			r.check(pan == !ok, "Fill panicked: %v", pan)
			if ok {
				for j := g.Min(y, y2); j <= g.Max(y, y2); j++ {
					for i := g.Min(x, x2); i <= g.Max(x, x2); i++ {
						m[j*w+i] = next
					}
				}
			}
		case 3:
			r.op("Get, Row, RowSpan at %d, %d", x, y)
			var got int
			pan, _ := panics(func() { got = a.Get(x, y) })
			r.check(pan == !ok, "Get(%d, %d) panicked: %v", x, y, pan)
			if ok {
				r.check(got == m[y*w+x], "Get(%d, %d) = %d, want %d", x, y, got, m[y*w+x])
			}
			pan, _ = panics(func() { a.Row(y) })
			r.check(pan == !inR(y, h), "Row(%d) panicked: %v", y, pan)
			x2 := coord(w)
			pan, _ = panics(func() { a.RowSpan(x, x2, y) })
			r.check(pan == !(ok && inR(x2, w)), "RowSpan(%d, %d, %d) panicked: %v", x, x2, y, pan)
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				r.check(a.Get(x, y) == m[y*w+x], "Get(%d, %d) = %d, want %d", x, y, a.Get(x, y), m[y*w+x])
			}
		}
	}
}

func arrayRows(r *R) {
	w, h := r.n(6), r.n(6)
	big := 0
	if b := r.bulk(300); b > 0 && r.iter%3 == 0 {
		big = b
		w = b
		if r.chance(50) {
			w, h = h, w
		}
	}
	type pair struct {
		a array2d.Array2D[int]
		m []int
	}
	var ps []*pair
	m := make([]int, w*h)
	next := 1
	if r.chance(60) {
		var jag [][]int
		rows := r.n(8)
		if big > 0 && r.chance(60) {
			rows = h - 2 + r.n(5)
		}
		for i := rows; i > 0; i-- {
			var row []int
			n := r.n(8)
			if big > 0 && r.chance(60) {
				n = w - 2 + r.n(5)
			}
			for j := n; j > 0; j-- {
				row = append(row, next)
				next++
			}
			jag = append(jag, row)
		}
		r.op("a0 := OfJagged(%d, %d, %v)", w, h, jag)
		a := array2d.OfJagged[[][]int](w, h, jag)
		for y, row := range jag {
			for x, v := range row {
				if x < w && y < h {
					m[y*w+x] = v
				}
			}
		}
		ps = append(ps, &pair{a, m})
		for _, row := range jag {
			for x := range row {
				row[x] = -5
			}
		}
	} else {
		r.op("a0 := New(%d, %d)", w, h)
		ps = append(ps, &pair{array2d.New[int](w, h), m})
	}
	verify := func() {
		for j, p := range ps {
			r.check(p.a.Width() == w && p.a.Height() == h, "a%d: Width, Height = %d, %d", j, p.a.Width(), p.a.Height())
			for y := 0; y < h; y++ {
				row := p.a.Row(y)
				r.check(eqSlice(row, p.m[y*w:y*w+w]), "a%d.Row(%d) = %v, want %v", j, y, row, p.m[y*w:y*w+w])
				for x := 0; x < w; x++ {
					r.check(p.a.Get(x, y) == p.m[y*w+x], "a%d.Get(%d, %d) = %d, want %d", j, x, y, p.a.Get(x, y), p.m[y*w+x])
				}
			}
		}
	}
	verify()
	for i := 1 + r.n(10); i > 0 && w > 0 && h > 0; i-- {
		j := r.n(len(ps))
		p := ps[j]
		x, x2, y := r.n(w), r.n(w), r.n(h)
		next++
		switch r.n(5) {
		case 0:
			r.op("a%d.Row(%d)[%d] = %d", j, y, x, next)
			p.a.Row(y)[x] = next
			p.m[y*w+x] = next
		case 1:
			r.op("a%d.RowSpan(%d, %d, %d)", j, x, x2, y)
			sp := p.a.RowSpan(x, x2, y)
			lo, hi := g.Min(x, x2), g.Max(x, x2)
			r.check(eqSlice(sp, p.m[y*w+lo:y*w+hi+1]), "RowSpan(%d, %d, %d) = %v, want %v", x, x2, y, sp, p.m[y*w+lo:y*w+hi+1])
			k := r.n(len(sp))
			sp[k] = next
			p.m[y*w+lo+k] = next
		case 2:
			r.op("a%d.Set(%d, %d, %d)", j, x, y, next)
			row := p.a.Row(y)
			p.a.Set(x, y, next)
			p.m[y*w+x] = next
			r.check(row[x] == next, "a row slice does not see a write to its array")
		case 3:
			if len(ps) < 4 {
				r.op("a%d := a%d.Copy()", len(ps), j)
				ps = append(ps, &pair{p.a.Copy(), clone(p.m)})
			}
		case 4:
			r.op("a%d.Fill(%d, %d, %d, %d, %d)", j, x, y, x2, y, next)
			p.a.Fill(x, y, x2, y, next)
			for k := g.Min(x, x2); k <= g.Max(x, x2); k++ {
				p.m[y*w+k] = next
			}
		}
		verify()
	}
}

func thresholds(r *R, split, join *int) func() {
	a, b := *split, *join
	switch r.n(4) {
	case 0:
		*split, *join = 1+r.n(4), 1+r.n(4)
	case 1:
		*split, *join = 2+r.n(6), 1+r.n(3)
	case 2:
		*split, *join = 1+r.n(12), 1+r.n(12)
	case 3:
		if l := r.lit(1, 5000); l > 0 && r.chance(30) {
			*split = l
		}
		if l := r.lit(1, 5000); l > 0 && r.chance(30) {
			*join = l
		}
	}
	r.long = 0
	if r.chance(4) {
		r.long = 200 + r.n(4000)
		if l := r.lit(10, 10000); l > 0 && r.chance(50) {
			r.long = l
		}
	}
	r.op("SplitLength = %d, JoinLength = %d", *split, *join)
	return func() { *split, *join = a, b }
}

func insAt(m []int, at int, v []int) []int {
	out := append([]int{}, m[:at]...)
	out = append(out, v...)
	return append(out, m[at:]...)
}

func delAt(m []int, a, b int) []int { return append(append([]int{}, m[:a]...), m[b:]...) }

func (r *R) fresh(next *int) []int {
	n := r.n(6)
	if r.chance(15) {
		n = r.n(40)
	}
	if r.long > 0 && r.chance(50) {
		n = r.n(r.long + 1)
		if r.chance(30) {
			n = r.long
		}
	}
	l := make([]int, n, n+r.n(4))
	for i := range l {
		*next++
		l[i] = *next
	}
	return l
}

// ropeScenario compares ropes with plain sequences; with sizes set, it looks
// at the leaves as well, under thresholds that can both be kept.
func ropeScenario(sizes bool) func(r *R) {
	return func(r *R) { ropeRun(r, sizes) }
}

// leafSizes is what Each and Len say about the shape of a rope.
func leafSizes(r *R, name string, n *rope.Node[int], even bool) {
	var l []int
	n.Each(func(n *rope.Node[int]) { l = append(l, n.Len()) })
	for _, k := range l {
		r.check(k <= rope.SplitLength, "%s has a leaf of %d elements, more than SplitLength (%d): leaves of %v", name, k, rope.SplitLength, l)
	}
	r.check(n.Len() >= rope.JoinLength || len(l) == 1, "%s has %d elements, fewer than JoinLength (%d), in %d leaves", name, n.Len(), rope.JoinLength, len(l))
	if !even {
		return
	}
	if n.Len() <= rope.SplitLength {
		r.check(len(l) == 1, "%s has just been built from %d elements (SplitLength %d), in %d leaves", name, n.Len(), rope.SplitLength, len(l))
		return
	}
	for _, k := range l {
		r.check(2*k >= rope.SplitLength, "%s has just been built with a leaf of %d elements, fewer than half of SplitLength (%d): leaves of %v", name, k, rope.SplitLength, l)
	}
}

func ropeRun(r *R, sizes bool) {
	defer thresholds(r, &rope.SplitLength, &rope.JoinLength)()
	if sizes && rope.JoinLength > rope.SplitLength+1 {
		rope.JoinLength = 1 + r.n(rope.SplitLength+1)
		r.op("JoinLength = %d", rope.JoinLength)
	}
	rr := rope.RebalanceRatio
	defer func() { rope.RebalanceRatio = rr }()
	rope.RebalanceRatio = []float64{1, 1.2, 1.5, 3, 100}[r.n(5)]
	type pair struct {
		n *rope.Node[int]
		m []int
		// whether the rope has just been built
		built bool
	}
	var ps []*pair
	next := 0
	id := 0
	names := map[*pair]int{}
	add := func(n *rope.Node[int], m []int) *pair {
		p := &pair{n: n, m: m}
		names[p] = id
		id++
		ps = append(ps, p)
		return p
	}
	drop := func(p *pair) {
		for i := range ps {
			if ps[i] == p {
				ps = append(ps[:i:i], ps[i+1:]...)
				return
			}
		}
	}
	mk := func() {
		if r.chance(30) {
			// two ropes over neighbouring parts of one slice
			l := append(r.fresh(&next), r.fresh(&next)...)
			at := r.n(len(l) + 1)
			r.op("r%d, r%d := New(%v), New(%v) sharing one slice", id, id+1, l[:at], l[at:])
			m := clone(l)
			add(rope.New(l[:at]), m[:at:at]).built = true
			add(rope.New(l[at:]), m[at:]).built = true
			return
		}
		l := r.fresh(&next)
		r.op("r%d := New(%v)", id, l)
		add(rope.New(l), clone(l)).built = true
	}
	verify := func() {
		for _, p := range ps {
			j := names[p]
			r.check(p.n.Len() == len(p.m), "r%d.Len() = %d, want %d", j, p.n.Len(), len(p.m))
			r.check(eqSlice(p.n.Value(), p.m), "r%d.Value() = %v, want %v", j, p.n.Value(), p.m)
			var leaves []int
			p.n.Each(func(n *rope.Node[int]) { leaves = append(leaves, n.Value()...) })
			if sizes {
				leafSizes(r, fmt.Sprintf("r%d", j), p.n, p.built)
				p.built = false
			}
			r.check(eqSlice(leaves, p.m), "leaves of r%d hold %v, want %v", j, leaves, p.m)
			a := r.n(len(p.m) + 1)
			b := a + r.n(len(p.m)-a+1)
			got := p.n.Slice(a, b)
			r.check(eqSlice(got, p.m[a:b]), "r%d.Slice(%d, %d) = %v, want %v", j, a, b, got, p.m[a:b])
			if len(p.m) > 0 {
				k := r.n(len(p.m))
				r.check(p.n.At(k) == p.m[k], "r%d.At(%d) = %d, want %d", j, k, p.n.At(k), p.m[k])
			}
		}
	}
	mk()
	verify()
	steps := r.steps()
	if steps > 200 {
		steps = 200
	}
	if r.long > 0 && steps > 12 {
		steps = 12
	}
	for i := steps; i > 0; i-- {
		if len(ps) == 0 {
			mk()
		}
		p := ps[r.n(len(ps))]
		j := names[p]
		switch c := r.n(20); {
		case c < 7:
			at := r.n(len(p.m) + 1)
			if r.chance(20) {
				at = len(p.m)
			}
			if q := ps[r.n(len(ps))]; r.chance(20) && len(q.m) > 0 && len(p.m) < 4096 {
				// a part of this rope or of another one
				a := r.n(len(q.m) + 1)
				b := a + r.n(len(q.m)-a+1)
				r.op("r%d.Insert(%d, r%d.Slice(%d, %d))", j, at, names[q], a, b)
				l := clone(q.m[a:b])
				p.n.Insert(at, q.n.Slice(a, b))
				p.m = insAt(p.m, at, l)
				break
			}
			l := r.fresh(&next)
			r.op("r%d.Insert(%d, %v)", j, at, l)
			p.m = insAt(p.m, at, l)
			p.n.Insert(at, l)
		case c < 13:
			a := r.n(len(p.m) + 1)
			b := a + r.n(len(p.m)-a+1)
			if r.chance(50) && b > a+3 {
				b = a + r.n(4)
			}
			r.op("r%d.Remove(%d, %d)", j, a, b)
			p.n.Remove(a, b)
			p.m = delAt(p.m, a, b)
		case c < 15 && len(ps) < 6:
			at := r.n(len(p.m) + 1)
			r.op("r%d, r%d := r%d.SplitAt(%d)", id, id+1, j, at)
			a, b := p.n.SplitAt(at)
			drop(p)
			add(a, clone(p.m[:at]))
			add(b, clone(p.m[at:]))
		case c < 17 && len(ps) >= 2:
			q := ps[r.n(len(ps))]
			if q == p {
				continue
			}
			drop(p)
			drop(q)
			m := append(clone(p.m), q.m...)
			// any number of further operands, new ropes among them, so that a
			// Join of more than three is tried whatever the pool holds
			var more []*rope.Node[int]
			is := []string{fmt.Sprintf("r%d", j), fmt.Sprintf("r%d", names[q])}
			operands := r.n(4) - 1
			if r.chance(15) {
				operands = r.n(9)
			}
			for x := operands; x > 0; x-- {
				if len(ps) > 0 && r.chance(50) {
					o := ps[0]
					drop(o)
					is = append(is, fmt.Sprintf("r%d", names[o]))
					more, m = append(more, o.n), append(m, o.m...)
					continue
				}
				w := r.fresh(&next)
				is = append(is, fmt.Sprintf("New(%v)", w))
				more, m = append(more, rope.New(clone(w))), append(m, w...)
			}
			r.op("r%d := Join(%s)", id, strings.Join(is, ", "))
			add(rope.Join(p.n, q.n, more...), m)
		case c == 17:
			r.op("r%d.Rebalance()", j)
			p.n.Rebalance()
		case c == 18:
			r.op("r%d.Rebuild()", j)
			p.n.Rebuild()
			p.built = true
		default:
			if len(ps) < 5 {
				mk()
			}
		}
		verify()
	}
}

func propeScenario(r *R) {
	defer thresholds(r, &prope.SplitLength, &prope.JoinLength)()
	rr := prope.RebalanceRatio
	defer func() { prope.RebalanceRatio = rr }()
	prope.RebalanceRatio = []float64{1, 1.2, 1.5, 3, 100}[r.n(5)]
	type pair struct {
		n *prope.Node[int]
		m []int
	}
	var ps []*pair
	next := 0
	id := 0
	add := func(n *prope.Node[int], m []int) {
		if len(ps) < 8 || len(m) < 60 && len(ps) < 14 {
			ps = append(ps, &pair{n, m})
			id++
			return
		}
		k := r.n(len(ps))
		r.op("  (the new version is called r%d)", k)
		ps[k] = &pair{n, m}
	}
	mk := func() {
		if r.chance(20) {
			l := append(r.fresh(&next), r.fresh(&next)...)
			at := r.n(len(l) + 1)
			r.op("r%d, r%d := New(%v), New(%v) sharing one slice", id, id+1, l[:at], l[at:])
			m := clone(l)
			add(prope.New(l[:at]), m[:at:at])
			add(prope.New(l[at:]), m[at:])
			return
		}
		l := r.fresh(&next)
		r.op("r%d := New(%v)", id, l)
		add(prope.New(l), clone(l))
	}
	verify := func(all bool) {
		for j, p := range ps {
			r.check(p.n.Len() == len(p.m), "r%d.Len() = %d, want %d", j, p.n.Len(), len(p.m))
			v := p.n.Value()
			r.check(eqSlice(v, p.m), "r%d.Value() = %v, want %v", j, v, p.m)
			for i := range v {
				v[i] = -9
			}
			a := r.n(len(p.m) + 1)
			b := a + r.n(len(p.m)-a+1)
			got := p.n.Slice(a, b)
			r.check(eqSlice(got, p.m[a:b]), "r%d.Slice(%d, %d) = %v, want %v", j, a, b, got, p.m[a:b])
			for i := range got {
				got[i] = -9
			}
			got = append(got, -9)
			if len(p.m) > 0 {
				k := r.n(len(p.m))
				r.check(p.n.At(k) == p.m[k], "r%d.At(%d) = %d, want %d", j, k, p.n.At(k), p.m[k])
			}
		}
	}
	mk()
	verify(true)
	steps := r.steps()
	if steps > 150 {
		steps = 150
	}
	if r.long > 0 && steps > 12 {
		steps = 12
	}
	for i := steps; i > 0; i-- {
		j := r.n(len(ps))
		p := ps[j]
		switch c := r.n(20); {
		case c < 7:
			at := r.n(len(p.m) + 1)
			if r.chance(20) {
				at = len(p.m)
			}
			l := r.fresh(&next)
			r.op("r%d := r%d.Insert(%d, %v)", id, j, at, l)
			m := insAt(p.m, at, l)
			add(p.n.Insert(at, l), m)
			for i := range l {
				l[i] = -4
			}
		case c < 12:
			a := r.n(len(p.m) + 1)
			b := a + r.n(len(p.m)-a+1)
			if r.chance(50) && b > a+3 {
				b = a + r.n(4)
			}
			r.op("r%d := r%d.Remove(%d, %d)", id, j, a, b)
			add(p.n.Remove(a, b), delAt(p.m, a, b))
		case c < 14:
			at := r.n(len(p.m) + 1)
			r.op("r%d, r%d := r%d.SplitAt(%d)", id, id+1, j, at)
			a, b := p.n.SplitAt(at)
			m := p.m
			add(a, clone(m[:at]))
			add(b, clone(m[at:]))
		case c < 17:
			var ns []*prope.Node[int]
			var m, is []int
			operands := r.n(4)
			if r.chance(15) {
				operands = r.n(9)
			}
			for x := operands; x >= 0; x-- {
				k := r.n(len(ps))
				if len(m)+len(ps[k].m) > 400+4*r.long {
					continue
				}
				is = append(is, k)
				ns = append(ns, ps[k].n)
				m = append(m, ps[k].m...)
			}
			if r.chance(5) {
				ns, m, is = nil, nil, nil
			}
			r.op("r%d := Join(%v)", id, is)
			add(prope.Join(ns...), m)
		case c == 17:
			r.op("r%d.Rebalance()", j)
			p.n.Rebalance()
		case c == 18:
			r.op("r%d.Rebuild()", j)
			p.n.Rebuild()
		default:
			mk()
		}
		verify(false)
	}
}

func trieScenario(queries bool) scenario {
	return func(r *R) {
		alpha := []string{"ab", "abc", "a\x00\xff", "abcdefgh", "a"}[r.n(5)]
		maxLen := 1 + r.n(5)
		if alpha == "a" {
			maxLen = 1 + r.n(12)
		}
		pre := ""
		if b := r.bulk(5000); b > 0 || r.chance(5) {
			if b == 0 {
				b = r.n(300)
			}
			x := make([]byte, b)
			for i := range x {
				x[i] = alpha[r.n(len(alpha))]
			}
			pre = string(x)
		}
		word := func() string {
			if pre != "" && r.chance(40) {
				w := pre[:r.n(len(pre)+1)]
				if r.chance(50) {
					w = pre
				}
				for i := r.n(4); i > 0; i-- {
					w += alpha[:1+r.n(len(alpha))]
				}
				return w
			}
			if r.spec > 0 && r.chance(r.spec/3) {
				return edgeString(r)
			}
			n := r.n(maxLen + 1)
			b := make([]byte, n)
			for i := range b {
				b[i] = alpha[r.n(len(alpha))]
			}
			if r.chance(2) {
				for i := range b {
					b[i] = byte(r.n(256))
				}
			}
			return string(b)
		}
		r.op("t := trie.New()")
		t := trie.New[int]()
		m := map[string]int{}
		bias := 4 + r.n(5)
		steps := r.steps()
		if steps > 300 {
			steps = 300
		}
		if len(pre) > 400 && steps > 15 {
			steps = 15
		}
		pick := func() string {
			if len(m) > 0 && r.chance(40) {
				ks := sortedKeys(m)
				return ks[r.n(len(ks))]
			}
			return word()
		}
		for i := 0; i < steps; i++ {
			if r.n(10) < bias {
				w := word()
				r.op("Put(%q, %d)", w, i+1)
				t.Put(w, i+1)
				if w != "" {
					m[w] = i + 1
				}
			} else {
				w := pick()
				r.op("Remove(%q)", w)
				t.Remove(w)
				delete(m, w)
			}
			if !queries {
				r.check(t.Size() == len(m), "Size() = %d, want %d", t.Size(), len(m))
				for x := 0; x < 3; x++ {
					w := pick()
					got, ok := t.Get(w)
					want, wok := m[w]
					r.check(ok == wok && got == want && t.Contains(w) == wok, "Get(%q) = %d, %v (contains %v), want %d, %v", w, got, ok, t.Contains(w), want, wok)
				}
				if len(m) < 30 || i%10 == 0 || i == steps-1 {
					for w, v := range m {
						got, ok := t.Get(w)
						r.check(ok && got == v, "Get(%q) = %d, %v, want %d", w, got, ok, v)
						if len(w) > 1 {
							_, ok := t.Get(w[:len(w)-1])
							_, wok := m[w[:len(w)-1]]
							r.check(ok == wok, "Get(%q) reported %v", w[:len(w)-1], ok)
						}
					}
				}
				continue
			}
			ks := sortedKeys(m)
			if len(m) < 30 || i%5 == 0 {
				got := t.Keys()
				r.check(eqSlice(got, ks), "Keys() = %q, want %q", got, ks)
				got2 := t.KeysWithPrefix("")
				r.check(eqSlice(got2, ks), "KeysWithPrefix(\"\") = %q, want %q", got2, ks)
			}
			for x := 0; x < 3; x++ {
				p := pick()
				if len(p) > 1 && r.chance(50) {
					p = p[:r.n(len(p))]
				}
				var want []string
				for _, k := range ks {
					if strings.HasPrefix(k, p) {
						want = append(want, k)
					}
				}
				got := t.KeysWithPrefix(p)
				r.check(eqSlice(got, want), "KeysWithPrefix(%q) = %q, want %q", p, got, want)
				q := pick() + word()
				long := ""
				for _, k := range ks {
					if strings.HasPrefix(q, k) && len(k) > len(long) {
						long = k
					}
				}
				lp := t.LongestPrefix(q)
				r.check(lp == long, "LongestPrefix(%q) = %q, want %q", q, lp, long)
			}
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// foreignSet is an implementation of the set interface the library does not know: a value that cannot be compared.
func foreignSet(r *R, m map[int]bool) set.SetOf[int] {
	f := foreign{l: new([]int), no: func() {}}
	for k := range m {
		f.Put(k)
	}
	sort.Slice(*f.l, func(i, j int) bool { return (*f.l)[i] < (*f.l)[j] })
	for i := range *f.l {
		j := i + r.n(len(*f.l)-i)
		(*f.l)[i], (*f.l)[j] = (*f.l)[j], (*f.l)[i]
	}
	return f
}

type foreign struct {
	l  *[]int
	no func()
}

func (f foreign) Has(k int) bool {
	for _, x := range *f.l {
		if x == k {
			return true
		}
	}
	return false
}

func (f foreign) Put(k int) {
	if !f.Has(k) {
		*f.l = append(*f.l, k)
	}
}

func (f foreign) Remove(k int) {
	var l []int
	for _, x := range *f.l {
		if x != k {
			l = append(l, x)
		}
	}
	*f.l = l
}

func (f foreign) Clear()    { *f.l = nil }
func (f foreign) Size() int { return len(*f.l) }
func (f foreign) Each(fn func(int)) {
	for _, x := range append([]int(nil), *f.l...) {
		fn(x)
	}
}

func setScenario(r *R) {
	span := 1 + r.n(8)
	if r.chance(15) {
		span = 40
	}
	if b := r.bulk(1500); b > 0 && r.iter%3 == 0 {
		span = b
	}
	type pair struct {
		s set.Set[int]
		m map[int]bool
	}
	h := []func(int) uint64{g.HashInt, func(int) uint64 { return 5 }, func(k int) uint64 { return uint64(k % 2) }, func(k int) uint64 { return uint64(k) }}[r.n(4)]
	var ps []*pair
	rnd := func() ([]int, map[int]bool) {
		var l []int
		m := map[int]bool{}
		for i := r.n(span + 3); i > 0; i-- {
			k := r.key(span)
			l = append(l, k)
			m[k] = true
		}
		return l, m
	}
	mk := func() {
		l, m := rnd()
		var s set.Set[int]
		switch r.n(4) {
		case 0:
			r.op("s%d := set.NewMapset(%v...)", len(ps), l)
			s = set.NewMapset(l...)
		case 1:
			r.op("s%d := set.NewHashset(1, equals, hash, %v...)", len(ps), l)
			s = set.NewHashset(uint64(r.n(5)), g.Equals[int], h, l...)
		case 2:
			r.op("s%d := set.NewSet(mapset.New, %v...)", len(ps), l)
			s = set.NewSet(func() set.SetOf[int] { return mapset.New[int]() }, l...)
		case 3:
			r.op("s%d := set.NewSet(hashset.New, %v...)", len(ps), l)
			s = set.NewSet(func() set.SetOf[int] { return hashset.New(2, g.Equals[int], h) }, l...)
		}
		ps = append(ps, &pair{s, m})
	}
	same := func(s interface {
		Size() int
		Has(int) bool
		Each(func(int))
	}, m map[int]bool) bool {
		if s.Size() != len(m) {
			return false
		}
		n := 0
		seen := map[int]bool{}
		s.Each(func(k int) {
			if m[k] && !seen[k] {
				n++
				seen[k] = true
			} else {
				n = -1 << 30
			}
		})
		if n != len(m) {
			return false
		}
		for k := range m {
			if !s.Has(k) {
				return false
			}
		}
		for k := 0; k < span+2; k++ {
			if s.Has(k) != m[k] {
				return false
			}
		}
		return true
	}
	listed := func(s set.Set[int]) []int {
		l := s.Keys()
		sort.Ints(l)
		return l
	}
	verify := func() {
		for j, p := range ps {
			r.check(same(p.s, p.m), "s%d = %v, want %v", j, listed(p.s), p.m)
			l := listed(p.s)
			r.check(len(l) == len(p.m), "s%d.Keys() = %v, want %v", j, l, p.m)
			for i, k := range l {
				r.check(p.m[k] && (i == 0 || l[i-1] != k), "s%d.Keys() = %v, want %v", j, l, p.m)
			}
			mm := p.s.Map()
			r.check(len(mm) == len(p.m), "s%d.Map() = %v, want %v", j, mm, p.m)
			for k := range mm {
				r.check(p.m[k], "s%d.Map() = %v, want %v", j, mm, p.m)
			}
			mm[999] = struct{}{}
		}
	}
	for i := 2 + r.n(3); i > 0; i-- {
		mk()
	}
	verify()
	copyOf := func(m map[int]bool) map[int]bool {
		o := map[int]bool{}
		for k := range m {
			o[k] = true
		}
		return o
	}
	symFold := func(a map[int]bool, others []map[int]bool) map[int]bool {
		// elements in exactly one of the operands
		cnt := map[int]int{}
		for k := range a {
			cnt[k]++
		}
		for _, o := range others {
			for k := range o {
				cnt[k]++
			}
		}
		res := map[int]bool{}
		for k, c := range cnt {
			if c == 1 {
				res[k] = true
			}
		}
		return res
	}
	for i := 1 + r.n(8); i > 0; i-- {
		j := r.n(len(ps))
		p := ps[j]
		var os []set.SetOf[int]
		var ms []map[int]bool
		var is []int
		operands := r.n(4)
		if r.chance(20) {
			operands = r.n(9)
		}
		for n := operands; n > 0; n-- {
			k := r.n(len(ps))
			ms = append(ms, copyOf(ps[k].m))
			if r.chance(15) {
				// an implementation of the caller's
				is = append(is, -1)
				os = append(os, foreignSet(r, ps[k].m))
				continue
			}
			is = append(is, k)
			if r.chance(50) {
				os = append(os, ps[k].s)
			} else {
				os = append(os, ps[k].s.SetOf)
			}
		}
		union := func() map[int]bool {
			m := copyOf(p.m)
			for _, o := range ms {
				for k := range o {
					m[k] = true
				}
			}
			return m
		}
		inter := func() map[int]bool {
			m := copyOf(p.m)
			for _, o := range ms {
				for k := range m {
					if !o[k] {
						delete(m, k)
					}
				}
			}
			return m
		}
		diff := func() map[int]bool {
			m := copyOf(p.m)
			for _, o := range ms {
				for k := range o {
					delete(m, k)
				}
			}
			return m
		}
		given, held := append([]set.SetOf[int](nil), os...), ms
		expect := func(name string, s set.Set[int], want map[int]bool) {
			for n := range given {
				a, b := given[n], os[n]
				av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
				r.check(av.Type() == bv.Type() && (!av.Comparable() || !bv.Comparable() || a == b), "s%d.%s changed the operands it was given", j, name)
				r.check(same(b, held[n]) || is[n] >= 0 && ps[is[n]] == p, "s%d.%s changed operand %d", j, name, n)
			}
			r.check(same(s, want), "s%d.%s(%v) = %v, want %v", j, name, is, listed(s), want)
		}
		other, ok := func() (*pair, int) { k := r.n(len(ps)); return ps[k], k }()
		switch c := r.n(16); c {
		case 0:
			r.op("s%d.Union(%v)", j, is)
			x := p.s.Union(os...)
			expect("Union", x, union())
			x.Put(77)
		case 1:
			r.op("s%d.Intersection(%v)", j, is)
			x := p.s.Intersection(os...)
			expect("Intersection", x, inter())
			x.Put(77)
		case 2:
			r.op("s%d.Difference(%v)", j, is)
			x := p.s.Difference(os...)
			expect("Difference", x, diff())
			x.Put(77)
		case 3:
			r.op("s%d.SymmetricDifference(%v)", j, is)
			expect("SymmetricDifference", p.s.SymmetricDifference(os...), symFold(p.m, ms))
		case 4, 5, 6:
			name := []string{"InPlaceUnion", "InPlaceIntersection", "InPlaceDifference"}[c-4]
			r.op("s%d.%s(%v)", j, name, is)
			// an operand that is the receiver changes while it is read: several
			// operands are applied one after the other
			w := copyOf(p.m)
			for n, k := range is {
				o := ms[n]
				if k >= 0 && ps[k] == p {
					o = copyOf(w)
				}
				switch c {
				case 4:
					for k := range o {
						w[k] = true
					}
				case 5:
					for k := range w {
						if !o[k] {
							delete(w, k)
						}
					}
				case 6:
					for k := range o {
						delete(w, k)
					}
				}
			}
			var x set.Set[int]
			switch c {
			case 4:
				x = p.s.InPlaceUnion(os...)
			case 5:
				x = p.s.InPlaceIntersection(os...)
			case 6:
				x = p.s.InPlaceDifference(os...)
			}
			p.m = w
			expect(name, x, w)
		case 7, 8, 9, 10:
			l, m := rnd()
			if len(l) > 0 && r.chance(40) {
				l = append(l, l[0])
			}
			ms = []map[int]bool{m}
			switch c {
			case 7:
				r.op("s%d.ConstUnion(%v)", j, l)
				expect("ConstUnion", p.s.ConstUnion(l...), union())
			case 8:
				r.op("s%d.ConstIntersection(%v)", j, l)
				expect("ConstIntersection", p.s.ConstIntersection(l...), inter())
			case 9:
				r.op("s%d.ConstDifference(%v)", j, l)
				expect("ConstDifference", p.s.ConstDifference(l...), diff())
			case 10:
				r.op("s%d.ConstSymmetricDifference(%v)", j, l)
				expect("ConstSymmetricDifference", p.s.ConstSymmetricDifference(l...), symFold(p.m, ms))
			}
		case 11, 12:
			a, b := p.m, other.m
			sub, sup, dis := true, true, true
			for k := range a {
				if !b[k] {
					sub = false
				} else {
					dis = false
				}
			}
			for k := range b {
				if !a[k] {
					sup = false
				}
			}
			eq := sub && sup
			r.op("relations of s%d and s%d", j, ok)
			var o set.SetOf[int] = other.s
			switch r.n(4) {
			case 0:
				o = other.s.SetOf
			case 1:
				o = foreignSet(r, other.m)
			case 2:
				t := mapset.New[int]()
				for k := range other.m {
					t.Put(k)
				}
				o = t
			}
			r.check(p.s.IsSubset(o) == sub, "IsSubset = %v", !sub)
			r.check(p.s.IsSuperset(o) == sup, "IsSuperset = %v", !sup)
			r.check(p.s.Equal(o) == eq, "Equal = %v", !eq)
			r.check(p.s.IsProperSubset(o) == (sub && !eq), "IsProperSubset = %v", !(sub && !eq))
			r.check(p.s.IsProperSuperset(o) == (sup && !eq), "IsProperSuperset = %v", !(sup && !eq))
			r.check(p.s.IsDisjoint(o) == dis, "IsDisjoint = %v", !dis)
		case 13:
			if len(ps) < 7 {
				r.op("s%d := s%d.Clone()", len(ps), j)
				ps = append(ps, &pair{p.s.Clone(), copyOf(p.m)})
			}
		default:
			k := r.n(span)
			if r.chance(50) {
				r.op("s%d.Put(%d)", j, k)
				p.s.Put(k)
				p.m[k] = true
			} else {
				r.op("s%d.Remove(%d)", j, k)
				p.s.Remove(k)
				delete(p.m, k)
			}
		}
		verify()
	}
	_ = hashset.New[int]
}
