package main

import (
	"fmt"
	"reflect"

	"github.com/zyedidia/generic/btree"
)

func init() {
	reg("T02", btreeShape)
}

// btreeLevels is the greatest number of levels of a B-tree of n entries whose
// nodes, the root apart, hold 32 entries or more.
func btreeLevels(n int) int {
	h := 1
	for c := 64; c <= n; c *= 32 {
		h++
	}
	return h
}

// btreeShape looks at the comparisons an operation makes and, where the nodes
// have the fields this program knows, at the nodes.
func btreeShape(r *R) {
	calls := 0
	t := btree.New[int, int](func(a, b int) bool { calls++; return a < b })
	ever := map[int]bool{}
	n := r.n(300)
	switch {
	case r.iter%50 == 20:
		n = 60000 + r.n(20000)
	case r.chance(30):
		n = r.n(6000)
	case r.lit(1, 100000) > 0 && r.chance(20):
		n = r.lit(1, 100000)
	}
	mode := r.n(6)
	again, gone := 0, 0
	if r.chance(50) {
		again, gone = r.n(30), r.n(60)
	}
	r.op("t := New")
	r.op("Put of %d keys, order %d (0 up, 1 down, 2 from both ends, 3 random, 4 from the middle, 5 blocks), %d%% put again, %d%% removed meanwhile", n, mode, again, gone)
	key := func(i int) int {
		switch mode {
		case 0:
			return i
		case 1:
			return n - i
		case 2:
			if i%2 == 0 {
				return i
			}
			return 2*n - i
		case 4:
			if i%2 == 0 {
				return i
			}
			return -i
		case 5:
			return (i%7)*n + i
		}
		return r.n(4*n + 1)
	}
	bound := func(what string, k, per int) {
		max := per * 126 * btreeLevels(len(ever))
		r.check(calls <= max, "%s(%d) compared %d times, want at most %d for %d keys", what, k, calls, max, len(ever))
	}
	var keys []int
	for i := 0; i < n; i++ {
		k := key(i)
		if len(keys) > 0 && r.chance(again) {
			k = keys[r.n(len(keys))]
		}
		if !ever[k] {
			ever[k] = true
			keys = append(keys, k)
		}
		calls = 0
		t.Put(k, i)
		bound("Put", k, 3)
		if r.chance(gone) {
			k = keys[r.n(len(keys))]
			calls = 0
			t.Remove(k)
			bound("Remove", k, 3)
		}
		if n < 400 && r.chance(5) {
			nodesFull(r, t, len(ever))
		}
	}
	if n < 6000 && r.chance(30) {
		// empty the tree, and use it again
		r.op("all keys removed, %d put again, %d more keys", len(keys)/2, n/3)
		for _, k := range keys {
			t.Remove(k)
		}
		r.check(t.Size() == 0, "%d keys are left", t.Size())
		nodesFull(r, t, len(ever))
		for _, k := range keys[:len(keys)/2] {
			t.Put(k, k)
		}
		for i := n; i < n+n/3; i++ {
			k := key(i)
			if !ever[k] {
				ever[k] = true
				keys = append(keys, k)
			}
			t.Put(k, i)
		}
	}
	for i := 0; i < 30 && len(keys) > 0; i++ {
		k := keys[r.n(len(keys))] + r.n(2)
		calls = 0
		t.Get(k)
		bound("Get", k, 1)
	}
	nodesFull(r, t, len(ever))
}

func nodesFull(r *R, t any, n int) {
	v := reflect.ValueOf(t).Elem()
	root, hf := v.FieldByName("root"), v.FieldByName("height")
	if !root.IsValid() || !hf.IsValid() || root.Kind() != reflect.Ptr || !hf.CanInt() {
		return
	}
	h := int(hf.Int())
	entries, known := 0, true
	var walk func(x reflect.Value, left int) string
	walk = func(x reflect.Value, left int) string {
		if x.Kind() != reflect.Ptr || x.IsNil() || x.Elem().Kind() != reflect.Struct {
			known = false
			return ""
		}
		m, c := x.Elem().FieldByName("m"), x.Elem().FieldByName("children")
		if !m.IsValid() || !c.IsValid() || !m.CanInt() || c.Kind() != reflect.Array && c.Kind() != reflect.Slice || int(m.Int()) > c.Len() {
			known = false
			return ""
		}
		k := int(m.Int())
		switch {
		case left < h && k < 32:
			return fmt.Sprintf("a node %d levels below the root has %d entries, fewer than half of its 64 places", h-left, k)
		case left == h && h > 0 && k < 2:
			return fmt.Sprintf("the root has %d children", k)
		case k > 64:
			return fmt.Sprintf("a node has %d entries", k)
		}
		if left == 0 {
			entries += k
			return ""
		}
		for i := 0; i < k && known; i++ {
			e := c.Index(i)
			if e.Kind() == reflect.Ptr && !e.IsNil() {
				e = e.Elem()
			}
			if e.Kind() != reflect.Struct || !e.FieldByName("next").IsValid() {
				known = false
				return ""
			}
			if s := walk(e.FieldByName("next"), left-1); s != "" {
				return s
			}
		}
		return ""
	}
	s := walk(root, h)
	if !known {
		return
	}
	r.check(s == "", "%s", s)
	r.check(entries == n, "the leaves hold %d entries, want one for each of the %d keys ever put", entries, n)
	r.check(h < btreeLevels(n), "%d levels for %d keys, want at most %d", h+1, n, btreeLevels(n))
}
