package main

// Proof text follows the code it is about: hints and invariants name locals of
// the function as it was when the contract was written. contracts/locals.json
// records these names; where the working tree calls a local differently, or
// runs a loop in another form, the proof text is adapted. Only proof text is: the
// requires and ensures clauses name parameters by position.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

type LoopRec struct {
	Kind string `json:"kind"`
	Var  string `json:"var,omitempty"`
	Elem string `json:"elem,omitempty"`
}

type FnRec struct {
	Params int             `json:"params"`
	Locals [][2]string     `json:"locals"`
	Loops  map[int]LoopRec `json:"loops,omitempty"`
}

func loadLocals(dir string) map[string]*FnRec {
	m := map[string]*FnRec{}
	if b, err := os.ReadFile(filepath.Join(dir, "locals.json")); err == nil {
		if err := json.Unmarshal(b, &m); err != nil {
			fatal("locals.json: %v", err)
		}
	}
	return m
}

func (f *FT) record(name, rty string) {
	for _, d := range f.decls {
		if d[0] == name {
			return
		}
	}
	f.decls = append(f.decls, [2]string{name, rty})
}

func (f *FT) rec() *FnRec { return f.g.locals[f.fn.pkg.name+"."+f.fn.key] }

var localRe = regexp.MustCompile(`\bv_\w+\b`)
var letRe = regexp.MustCompile(`\blet (?:mut )?(v_\w+)`)

func eachText(c *Contract, fn func(string) string) *Contract {
	n := *c
	n.entry, n.exit = fn(c.entry), fn(c.exit)
	n.hints = nil
	for _, h := range c.hints {
		h.name, h.text = fn(h.name), fn(h.text)
		n.hints = append(n.hints, h)
	}
	n.loops = map[int]*LoopSpec{}
	for k, l := range c.loops {
		n.loops[k] = eachLoop(l, fn)
	}
	return &n
}

func eachLoop(l *LoopSpec, fn func(string) string) *LoopSpec {
	cl := func(cs []Clause) []Clause {
		var out []Clause
		for _, c := range cs {
			c.text = fn(c.text)
			out = append(out, c)
		}
		return out
	}
	return &LoopSpec{inv: cl(l.inv), dec: cl(l.dec), entry: fn(l.entry), body: fn(l.body), end: fn(l.end), exit: fn(l.exit), before: fn(l.before)}
}

// renames maps names the proof text uses but the function no longer has to what they are called now.
func (f *FT) renames(c *Contract) map[string]string {
	rec := f.rec()
	if rec == nil {
		return nil
	}
	want := map[string]bool{}
	eachText(c, func(s string) string {
		for _, m := range localRe.FindAllString(s, -1) {
			want[m] = true
		}
		return s
	})
	eachText(c, func(s string) string {
		for _, m := range letRe.FindAllStringSubmatch(s, -1) {
			delete(want, m[1])
		}
		return s
	})
	have := map[string]string{}
	for _, d := range f.decls {
		have[d[0]] = d[1]
	}
	orig := map[string]string{}
	for _, d := range rec.Locals {
		orig[d[0]] = d[1]
	}
	sub := map[string]string{}
	used := map[string]bool{}
	// parameters by position
	for i := 0; i < rec.Params && i < f.nparams && i < len(f.decls) && i < len(rec.Locals); i++ {
		o, n := rec.Locals[i][0], f.decls[i][0]
		if want[o] && have[o] == "" && o != n {
			sub[o] = n
			used[n] = true
		}
	}
	take := func(o, rty string, ok func(n string) bool) bool {
		for _, d := range f.decls {
			if d[1] == rty && !used[d[0]] && ok(d[0]) {
				sub[o] = d[0]
				used[d[0]] = true
				return true
			}
		}
		return false
	}
	var missing [][2]string
	for _, d := range rec.Locals {
		if have[d[0]] == "" && sub[d[0]] == "" {
			missing = append(missing, d)
		}
	}
	var left [][2]string
	for _, d := range missing {
		// a new local of the type, in order
		if !take(d[0], d[1], func(n string) bool { return orig[n] == "" }) && want[d[0]] {
			left = append(left, d)
		}
	}
	for _, d := range left {
		// a local or parameter the proof text does not speak about
		take(d[0], d[1], func(n string) bool { return !want[n] })
	}
	return sub
}

func substWords(sub map[string]string) func(string) string {
	return func(s string) string {
		return localRe.ReplaceAllStringFunc(s, func(m string) string {
			if r := sub[m]; r != "" {
				return r
			}
			return m
		})
	}
}

// adapt gives the specification of loop k for the form it has now: a loop over a slice by index
// in place of range, or the other way round.
func (f *FT) adaptFor(sp *LoopSpec, k int, x *ast.ForStmt) (*LoopSpec, []Clause, string) {
	f.loopRec(k, LoopRec{Kind: "for", Var: f.indexVar(x)})
	rec := f.rec()
	if rec == nil || rec.Loops[k].Kind != "range" {
		return sp, nil, ""
	}
	be, ok := x.Cond.(*ast.BinaryExpr)
	if !ok || be.Op != token.LSS && be.Op != token.NEQ {
		return sp, nil, ""
	}
	id, ok := ast.Unparen(be.X).(*ast.Ident)
	if !ok {
		return sp, nil, ""
	}
	v := f.env.vars[f.env.pkg.info.Uses[id]]
	if v == nil || v.boxed {
		return sp, nil, ""
	}
	it, rs := fmt.Sprintf("it%d", k), fmt.Sprintf("rs%d", k)
	sl := ""
	elem := ""
	y := ast.Unparen(be.Y)
	if yid, ok := y.(*ast.Ident); ok {
		// n := len(X)
		if def := f.lenDefs[f.env.pkg.info.Uses[yid]]; def != nil {
			y = def
		}
	}
	if c, ok := y.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if fn, ok := c.Fun.(*ast.Ident); ok && fn.Name == "len" {
			if u, ok := under(f.typ(c.Args[0])).(*types.Slice); ok {
				if sv, ok := f.pureEx(c.Args[0]); ok {
					sl = sv
					f.emit("let %s: Slice = %s;", rs, sl)
					f.loopName(rs, true)
					if e := rec.Loops[k].Elem; e != "" && !f.has(e) {
						elem = fmt.Sprintf("let %s = %s[%s.arr][%s.off + %s];", e, f.sread(f.arrPath(u.Elem())), rs, rs, v.name)
					}
				}
			}
		}
	}
	re := regexp.MustCompile(`\b` + it + `\b`)
	fn := func(s string) string { return re.ReplaceAllString(s, v.name) }
	n := eachLoop(sp, fn)
	if rv := rec.Loops[k].Var; rv != "" && !f.has(rv) {
		re := regexp.MustCompile(`\b` + rv + `\b`)
		n = eachLoop(n, func(s string) string { return re.ReplaceAllString(s, v.name) })
	}
	var auto []Clause
	if sl != "" {
		auto = append(auto, Clause{text: fmt.Sprintf("0 <= %s && (%s <= %s.len || %s == 0)", v.name, v.name, rs, v.name)})
		if elem != "" {
			n.entry = elem + "\n" + n.entry
		}
		return n, auto, fmt.Sprintf("%s.len - %s", rs, v.name)
	}
	return n, auto, ""
}

func (f *FT) adaptRange(sp *LoopSpec, k int, x *ast.RangeStmt) *LoopSpec {
	name := func(e ast.Expr) string {
		if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
			return "v_" + id.Name
		}
		return ""
	}
	kind := "range"
	if _, ok := under(f.typ(x.X)).(*types.Slice); !ok {
		kind = "range-other"
	}
	f.loopRec(k, LoopRec{Kind: kind, Var: name(x.Key), Elem: name(x.Value)})
	rec := f.rec()
	if rec == nil || rec.Loops[k].Kind != "for" || rec.Loops[k].Var == "" {
		return sp
	}
	re := regexp.MustCompile(`\b` + rec.Loops[k].Var + `\b`)
	return eachLoop(sp, func(s string) string { return re.ReplaceAllString(s, fmt.Sprintf("it%d", k)) })
}

func (f *FT) has(name string) bool {
	for _, v := range f.scopeVars {
		if v == name {
			return true
		}
	}
	return f.inAll[name]
}

func (f *FT) loopRec(k int, r LoopRec) {
	if f.loopsSeen == nil {
		f.loopsSeen = map[int]LoopRec{}
	}
	f.loopsSeen[k] = r
}

// indexVar: i of 'for i := a; i < b; i++'
func (f *FT) indexVar(x *ast.ForStmt) string {
	as, ok := x.Init.(*ast.AssignStmt)
	if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 {
		return ""
	}
	inc, ok := x.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return ""
	}
	id := as.Lhs[0].(*ast.Ident)
	if v := f.env.vars[f.env.pkg.info.Defs[id]]; v != nil {
		return v.name
	}
	return ""
}

// dumpLocals writes the table for the functions of this run, keeping the others'.
func (g *Gen) dumpLocals(file string) {
	m := map[string]*FnRec{}
	for k, r := range g.locals {
		m[k] = r
	}
	for k, r := range g.recs {
		m[k] = r
	}
	b, _ := json.Marshal(m)
	s := strings.ReplaceAll(string(b), "},\"", "},\n\"")
	if err := os.WriteFile(file, []byte(s+"\n"), 0o644); err != nil {
		fatal("%v", err)
	}
}

func (f *FT) findLenDefs(fn *Fn) map[types.Object]ast.Expr {
	m := map[types.Object]ast.Expr{}
	info := fn.pkg.info
	ast.Inspect(fn.decl.Body, func(n ast.Node) bool {
		as, ok := n.(*ast.AssignStmt)
		if !ok || as.Tok != token.DEFINE || len(as.Lhs) != len(as.Rhs) {
			return true
		}
		for i, l := range as.Lhs {
			id, ok := l.(*ast.Ident)
			c, ok2 := as.Rhs[i].(*ast.CallExpr)
			if !ok || !ok2 || len(c.Args) != 1 {
				continue
			}
			if fi, ok := c.Fun.(*ast.Ident); ok && fi.Name == "len" && info.Defs[id] != nil {
				m[info.Defs[id]] = c
			}
		}
		return true
	})
	return m
}

// condMeasure reads a termination measure off a comparison in the loop condition.
func (f *FT) condMeasure(x *ast.ForStmt) string {
	var find func(e ast.Expr) string
	find = func(e ast.Expr) string {
		be, ok := ast.Unparen(e).(*ast.BinaryExpr)
		if !ok {
			return ""
		}
		switch be.Op {
		case token.LAND:
			if r := find(be.X); r != "" {
				return r
			}
			return find(be.Y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return ""
		}
		if !isInt(f.typ(be.X)) && !isInt(f.typ(be.Y)) {
			return ""
		}
		a, ok1 := f.pureEx(be.X)
		b, ok2 := f.pureEx(be.Y)
		if !ok1 || !ok2 {
			return ""
		}
		switch be.Op {
		case token.LSS:
			return fmt.Sprintf("(%s) - (%s)", b, a)
		case token.LEQ:
			return fmt.Sprintf("(%s) + 1 - (%s)", b, a)
		case token.GTR:
			return fmt.Sprintf("(%s) - (%s)", a, b)
		}
		return fmt.Sprintf("(%s) + 1 - (%s)", a, b)
	}
	return find(x.Cond)
}

// pureEx is the value of an expression whose evaluation has no effect (the obligations of evaluating
// it arise where the program does).
func (f *FT) pureEx(e ast.Expr) (v string, ok bool) {
	im, nob, tmp := f.impure, f.nob, f.tmp
	out := f.sub(func() { v = f.ex(e) })
	f.nob = nob
	if f.impure != im {
		return "", false
	}
	for _, l := range out {
		if l := strings.TrimSpace(l); !strings.HasPrefix(l, "assert(") && !strings.HasPrefix(l, "assume(i") {
			f.tmp = tmp
			return "", false
		}
	}
	f.tmp = tmp
	return v, true
}

var nameRe = regexp.MustCompile(`\b(?:v_\w+|(?:it|rs|ctr)[0-9]+)\b`)
var anyLet = regexp.MustCompile(`\blet (?:mut )?(\w+)`)

// unknown finds a name in proof text that the function, as it is now, does not have there.
func (f *FT) unknown(text string) string {
	if f.g.locals == nil {
		return ""
	}
	for _, m := range nameRe.FindAllString(text, -1) {
		if f.ghosts()[m] {
			continue
		}
		ok := false
		if strings.HasPrefix(m, "v_") {
			for _, v := range f.scopeVars {
				ok = ok || v == m
			}
		} else {
			ok = f.loopNames[m]
		}
		if !ok {
			return m
		}
	}
	return ""
}

func (f *FT) ghosts() map[string]bool {
	if f.ghostSet == nil {
		f.ghostSet = map[string]bool{}
		eachText(f.con, func(s string) string {
			for _, m := range anyLet.FindAllStringSubmatch(s, -1) {
				f.ghostSet[m[1]] = true
			}
			// bound variables
			for _, m := range boundRe.FindAllStringSubmatch(s, -1) {
				for _, v := range nameRe.FindAllString(m[1], -1) {
					f.ghostSet[v] = true
				}
			}
			return s
		})
	}
	return f.ghostSet
}

var boundRe = regexp.MustCompile(`\|([^|]*)\|`)

// dropUnknown leaves out the statements of a hint that speak of names the function no longer has.
func (f *FT) dropUnknown(l string) string {
	if f.con == nil || f.unknown(l) == "" {
		return l
	}
	out := ""
	depth, start := 0, 0
	flush := func(end int) {
		st := l[start:end]
		start = end
		if f.unknown(st) == "" {
			out += st
		}
	}
	for i, c := range l {
		switch c {
		case '(', '{', '[':
			depth++
		case ')', '}', ']':
			depth--
			if c == '}' && depth == 0 {
				rest := strings.TrimSpace(l[i+1:])
				if !strings.HasPrefix(rest, ";") && !strings.HasPrefix(rest, "else") && !strings.HasPrefix(rest, ")") && !strings.HasPrefix(rest, "=") {
					flush(i + 1)
				}
			}
		case ';':
			if depth == 0 {
				flush(i + 1)
			}
		}
	}
	flush(len(l))
	if strings.TrimSpace(out) == "" {
		return ""
	}
	return out
}

func (f *FT) loopName(n string, on bool) {
	if f.loopNames == nil {
		f.loopNames = map[string]bool{}
	}
	f.loopNames[n] = on
}
