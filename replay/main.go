// Command replay searches for a concrete failing input of a property on the
// real code. It is the counterexample half of a check: the verifier decides,
// this program looks for an input that shows the failure.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type failure struct{ msg string }

// R is one run of a scenario.
type R struct {
	*rand.Rand
	mu   sync.Mutex
	ops  []string
	tick int64
	iter int
	long int // a length for ropes, or 0
	spec int // how often key draws a special value, in percent
}

func (r *R) op(format string, a ...any) {
	atomic.AddInt64(&r.tick, 1)
	r.mu.Lock()
	r.ops = append(r.ops, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func (r *R) fail(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

func (r *R) check(c bool, format string, a ...any) {
	if !c {
		r.fail(format, a...)
	}
}

// n draws from [0,k).
func (r *R) n(k int) int {
	if k <= 0 {
		return 0
	}
	return r.Intn(k)
}

// chance is true p percent of the time.
func (r *R) chance(p int) bool { return r.Intn(100) < p }

// steps is the number of operations of this scenario: mostly short, at times long.
func (r *R) steps() int {
	switch {
	case r.iter < 500:
		return 1 + r.n(6)
	case r.iter%50 == 7:
		return 300 + r.n(1500)
	case r.iter%5 == 1:
		return 1 + r.n(120)
	}
	return 1 + r.n(25)
}

// literals of the code under test: thresholds hide behind them
var (
	intLits []int
	fltLits []float64
	strLits []string
)

func readLiterals(dirs []string) {
	ints, flts, strs := map[int]bool{}, map[float64]bool{}, map[string]bool{}
	var files []string
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		files = append(files, fs...)
	}
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				// 1 << 12, 4 * 1024
				l, ok := x.X.(*ast.BasicLit)
				m, ok2 := x.Y.(*ast.BasicLit)
				if ok && ok2 && l.Kind == token.INT && m.Kind == token.INT {
					a, e1 := strconv.ParseInt(l.Value, 0, 64)
					b, e2 := strconv.ParseInt(m.Value, 0, 64)
					if e1 == nil && e2 == nil {
						switch x.Op {
						case token.SHL:
							if b < 63 {
								ints[int(a<<uint(b))] = true
							}
						case token.MUL:
							ints[int(a*b)] = true
						case token.ADD:
							ints[int(a+b)] = true
						case token.SUB:
							ints[int(a-b)] = true
						}
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						ints[int(v)] = true
					} else if v, err := strconv.ParseUint(x.Value, 0, 64); err == nil {
						ints[int(v)] = true
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\''); err == nil {
						ints[int(v)] = true
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
						flts[v] = true
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil {
						strs[v] = true
					}
				}
			}
			return true
		})
	}
	for v := range ints {
		intLits = append(intLits, v)
	}
	sort.Ints(intLits)
	for v := range flts {
		fltLits = append(fltLits, v)
	}
	sort.Float64s(fltLits)
	for v := range strs {
		strLits = append(strLits, v)
	}
	sort.Strings(strLits)
}

// lit draws a number next to a literal of the code within [lo,hi], or -1.
func (r *R) lit(lo, hi int) int {
	i, j := sort.SearchInts(intLits, lo), sort.SearchInts(intLits, hi+1)
	if i >= j {
		return -1
	}
	v := intLits[i+r.n(j-i)] + r.n(3) - 1
	if v < lo || v > hi {
		return -1
	}
	return v
}

// special draws an unusual number.
func (r *R) special() int {
	switch r.n(5) {
	case 0:
		return []int{math.MinInt, math.MinInt + 1, -1, 0, 1, math.MaxInt - 1, math.MaxInt}[r.n(7)]
	case 1:
		v := 1<<uint(r.n(63)) + r.n(3) - 1
		if r.chance(50) {
			return -v
		}
		return v
	case 2:
		return int(r.Uint64())
	case 3:
		return r.n(70000) - 35000
	}
	if len(intLits) == 0 {
		return 0
	}
	v := intLits[r.n(len(intLits))] + r.n(3) - 1
	if r.chance(15) {
		return -v
	}
	return v
}

// key draws a key, mostly from [0,span).
func (r *R) key(span int) int {
	if r.spec > 0 && r.chance(r.spec) {
		return r.special()
	}
	return r.n(span)
}

// bulk is the number of entries a scenario starts with: mostly none, at times many.
func (r *R) bulk(max int) int {
	n := 0
	switch {
	case r.iter%40 == 9:
		n = 1000 + r.n(4000)
	case r.iter%20 == 3:
		n = 60 + r.n(600)
	case r.iter%10 == 6:
		n = r.lit(9, max)
	case r.iter%250 == 17:
		n = 66000 + r.n(9000)
	}
	if n < 0 {
		return 0
	}
	if n > max {
		return max/2 + r.n(max/2+1)
	}
	return n
}

// span is the number of different keys of this scenario.
func (r *R) span() int {
	return []int{2, 3, 4, 6, 10, 20, 50, 300, 2000}[r.n(9)]
}

// panics reports whether f panics.
func panics(f func()) (p bool, v any) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(failure); ok {
				panic(x)
			}
			p, v = true, e
		}
	}()
	f()
	return
}

type scenario func(r *R)

var props = map[string][]scenario{}

func reg(id string, s ...scenario) { props[id] = append(props[id], s...) }

type report struct {
	Property string   `json:"property"`
	Failed   bool     `json:"failed"`
	Reason   string   `json:"reason,omitempty"`
	Scenario int      `json:"scenario"`
	Iter     int      `json:"iter"`
	Seed     int64    `json:"seed"`
	Ops      []string `json:"operations,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Cases    int      `json:"cases"`
	Distinct int      `json:"distinct"`
	Samples  []string `json:"samples,omitempty"`
	WallS    float64  `json:"wall_s"`
}

func main() {
	id := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("time", 10, "seconds to search")
	out := flag.String("out", "", "report file")
	only := flag.Int("scenario", -1, "run this scenario only")
	iter := flag.Int("iter", -1, "run this iteration only")
	src := flag.String("src", "/repo", "source directories of the code under test, separated by commas")
	flag.Parse()
	ss := props[*id]
	if len(ss) == 0 {
		fmt.Println("no scenario for", *id)
		os.Exit(2)
	}
	readLiterals(strings.Split(*src, ","))
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(8 << 30)
	rep := &report{Property: *id, Seed: *seed}
	start := time.Now()
	finish := func() {
		rep.WallS = time.Since(start).Seconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, append(b, '\n'), 0o644)
		} else {
			fmt.Println(string(b))
		}
		if rep.Failed {
			os.Exit(1)
		}
		os.Exit(0)
	}
	seen := map[string]bool{}
	for i := 0; ; i++ {
		if time.Since(start).Seconds() > *secs && i >= len(ss) {
			break
		}
		if *iter >= 0 {
			i = *iter
		}
		k := i % len(ss)
		if *only >= 0 && k != *only {
			continue
		}
		r := &R{Rand: rand.New(rand.NewSource(*seed*1000003 + int64(i))), iter: i / len(ss)}
		if r.iter > 50 && r.chance(25) {
			r.spec = 5 + r.n(40)
		}
		done := make(chan *failure, 1)
		var stack string
		go func() {
			defer func() {
				e := recover()
				if e == nil {
					done <- nil
					return
				}
				if f, ok := e.(failure); ok {
					done <- &f
					return
				}
				if x, ok := e.(runtime.Error); ok {
					stack = string(debug.Stack())
					done <- &failure{"unexpected run-time panic: " + x.Error()}
					return
				}
				stack = string(debug.Stack())
				done <- &failure{fmt.Sprintf("unexpected panic: %v", e)}
			}()
			ss[k](r)
		}()
		last, at := int64(-1), time.Now()
		var f *failure
	wait:
		for {
			select {
			case f = <-done:
				break wait
			case <-time.After(500 * time.Millisecond):
				t := atomic.LoadInt64(&r.tick)
				if t != last {
					last, at = t, time.Now()
				} else if time.Since(at) > 20*time.Second {
					r.mu.Lock()
					rep.Failed, rep.Reason, rep.Ops, rep.Scenario, rep.Iter = true, "the last operation did not terminate within 20 s", r.ops, k, i
					finish()
				}
			}
		}
		rep.Cases++
		key := strings.Join(r.ops, ";")
		if len(r.ops) > 1 && len(seen) < 200000 && !seen[key] {
			seen[key] = true
			rep.Distinct++
		}
		if len(rep.Samples) < 2 && len(r.ops) > 3 && len(r.ops) < 12 {
			rep.Samples = append(rep.Samples, key)
		}
		if f != nil {
			rep.Failed, rep.Reason, rep.Ops, rep.Scenario, rep.Iter = true, f.msg, r.ops, k, i
			if len(stack) > 3000 {
				stack = stack[:3000]
			}
			rep.Stack = stack
			finish()
		}
		if *iter >= 0 {
			break
		}
	}
	finish()
}
