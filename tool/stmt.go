package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

func (f *FT) newName(goName string) string {
	b := "v_" + goName
	f.names[b]++
	n := b
	if f.names[b] > 1 {
		n = fmt.Sprintf("%s_%d", b, f.names[b])
	}
	f.scopeVars = append(f.scopeVars, n)
	return n
}

func (f *FT) newFlag(prefix string) string {
	f.flagN++
	n := fmt.Sprintf("%s%d", prefix, f.flagN)
	f.emit("let mut %s: bool = false;", n)
	return n
}

func (f *FT) setflag(n string) {
	f.impure++
	f.emit("%s = true;", n)
}

type flags map[string]bool

func (a flags) add(b flags) {
	for k := range b {
		a[k] = true
	}
}

func (a flags) list() []string {
	var r []string
	for k := range a {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// stmts translates a statement list; it returns the control flags that may be set.
func (f *FT) stmts(list []ast.Stmt) flags {
	all := flags{}
	closers := 0
	for i, st := range list {
		fl := f.stmt(st)
		all.add(fl)
		if len(fl) > 0 && i+1 < len(list) {
			f.emit("if !(%s) {", strings.Join(fl.list(), " || "))
			f.ind++
			closers++
		}
	}
	for ; closers > 0; closers-- {
		f.ind--
		f.emit("}")
	}
	return all
}

func (f *FT) block(list []ast.Stmt) flags {
	n := len(f.scopeVars)
	fl := f.stmts(list)
	f.scopeVars = f.scopeVars[:n]
	return fl
}

func (f *FT) declare(id *ast.Ident, val string) {
	o := f.env.pkg.info.Defs[id]
	f.declareObj(o, id.Name, val)
}

func (f *FT) declareObj(o types.Object, name, val string) {
	t := f.objType(o)
	if f.env.boxed[o] {
		n := f.newName(name)
		path := f.objPath(t)
		f.impure++
		f.emit("let %s: int = fresh(%s);", n, f.sread(path))
		f.swrite(path, fmt.Sprintf("s.%s.insert(%s, %s)", path, n, val))
		f.env.vars[o] = &Var{name: n, rty: "int", boxed: true, path: path}
		f.record(n, "box "+f.rty(t))
		return
	}
	rt := f.rty(t)
	n := f.newName(name)
	f.record(n, rt)
	f.emit("let mut %s: %s = %s;", n, rt, val)
	f.vtypes[n] = rt
	f.env.vars[o] = &Var{name: n, rty: rt}
	f.hintAt(n, false)
}

func (f *FT) hintAt(name string, pre bool) {
	key := name
	if pre {
		key = "<" + name
	}
	f.callN[key]++
	k := f.callN[key]
	if f.con == nil {
		return
	}
	for _, h := range f.con.hints {
		if h.name == name && h.pre == pre && (h.nth == 0 || h.nth == k) {
			f.hint(h.text)
		}
	}
}

func (f *FT) hint(text string) {
	if f.g.nohints[f.fn.pkg.name+"."+f.fn.key] {
		return
	}
	for _, l := range strings.Split(strings.Trim(text, "\n"), "\n") {
		if strings.TrimSpace(l) != "" {
			l = f.argHint(f.dropUnknown(l))
			if l == "" {
				continue
			}
			if strings.Contains(l, "assert") && !strings.Contains(l, "//@") {
				f.emit("%s", l+" //@ob "+f.g.posOf(f.fn.decl.Pos())+" proof-step")
				f.nob++
			} else {
				f.emit("%s", l)
			}
		}
	}
}

var letMut = regexp.MustCompile(`let mut (\w+)`)

// ghostVars lists the ghost variables that the hints of this function may
// assign and that are in scope at a loop: like the program's variables, they
// hold an arbitrary value at the start of an iteration.
func (f *FT) ghostVars(sp *LoopSpec) []string {
	c := f.con
	if c == nil || f.g.nohints[f.fn.pkg.name+"."+f.fn.key] {
		return nil
	}
	all := c.entry + c.exit
	for _, h := range c.hints {
		all += h.text
	}
	for _, l := range c.loops {
		all += l.before + l.entry + l.body + l.end + l.exit
	}
	var out []string
	for _, m := range letMut.FindAllStringSubmatch(c.entry+sp.before, -1) {
		if regexp.MustCompile(`(^|[^\w.])` + m[1] + `\s*=[^=]`).MatchString(strings.ReplaceAll(all, m[0], "")) {
			out = append(out, m[1])
		}
	}
	for _, h := range c.hints {
		for _, m := range letMut.FindAllStringSubmatch(h.text, -1) {
			fatal("%s: ghost variable %s must be declared in @entry or @loopbefore", c.key, m[1])
		}
	}
	return out
}

var argRef = regexp.MustCompile(`\$[1-9]`)

// argHint puts the operands of the call a hint stands at in for $1, $2, ...
func (f *FT) argHint(l string) string {
	return argRef.ReplaceAllStringFunc(l, func(m string) string {
		i := int(m[1] - '1')
		if i < len(f.hintArgs) {
			return "(" + f.hintArgs[i] + ")"
		}
		return m
	})
}

func (f *FT) stmt(st ast.Stmt) flags {
	f.now = st
	switch x := st.(type) {
	case *ast.EmptyStmt:
		return nil
	case *ast.BlockStmt:
		f.emit("{")
		f.ind++
		fl := f.block(x.List)
		f.ind--
		f.emit("}")
		return fl
	case *ast.ExprStmt:
		e := ast.Unparen(x.X)
		if c, ok := e.(*ast.CallExpr); ok {
			f.call(c)
			return nil
		}
		f.fail(st, "expression statement")
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok == token.CONST || gd.Tok == token.TYPE {
			return nil
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := f.env.pkg.info.Defs[n]
					if n.Name == "_" || o == nil {
						continue
					}
					f.declare(n, f.zero(f.objType(o)))
				}
				continue
			}
			f.assign(identExprs(vs.Names), vs.Values, true, st)
		}
		return nil
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE || x.Tok == token.ASSIGN {
			f.assign(x.Lhs, x.Rhs, x.Tok == token.DEFINE, st)
			return nil
		}
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
		f.opAssign(x.Lhs[0], op, func() string { return f.ex(x.Rhs[0]) }, st)
		return nil
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		f.opAssign(x.X, op, func() string { return "1int" }, st)
		return nil
	case *ast.ReturnStmt:
		return f.ret(x)
	case *ast.IfStmt:
		wrap := x.Init != nil
		n := len(f.scopeVars)
		if wrap {
			f.emit("{")
			f.ind++
			f.stmt(x.Init)
		}
		c := f.ex(x.Cond)
		all := flags{}
		f.emit("if %s {", c)
		f.ind++
		all.add(f.block(x.Body.List))
		f.ind--
		if x.Else != nil {
			f.emit("} else {")
			f.ind++
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				all.add(f.block(b.List))
			} else {
				all.add(f.block([]ast.Stmt{x.Else}))
			}
			f.ind--
		}
		f.emit("}")
		if wrap {
			f.ind--
			f.emit("}")
			f.scopeVars = f.scopeVars[:n]
		}
		return all
	case *ast.SwitchStmt:
		return f.switchStmt(x, "")
	case *ast.ForStmt:
		return f.forStmt(x, "")
	case *ast.RangeStmt:
		return f.rangeStmt(x, "")
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.ForStmt:
			return f.forStmt(y, x.Label.Name)
		case *ast.RangeStmt:
			return f.rangeStmt(y, x.Label.Name)
		case *ast.SwitchStmt:
			return f.switchStmt(y, x.Label.Name)
		}
		f.fail(st, "label")
	case *ast.BranchStmt:
		for i := len(f.env.regions) - 1; i >= 0; i-- {
			r := f.env.regions[i]
			if x.Label != nil && r.label != x.Label.Name {
				continue
			}
			if x.Tok == token.BREAK && (r.loop || x.Label != nil || r.brk != "") {
				f.setflag(r.brk)
				return flags{r.brk: true}
			}
			if x.Tok == token.CONTINUE && r.loop {
				f.setflag(r.cont)
				return flags{r.cont: true}
			}
		}
		f.fail(st, "branch %s", x.Tok)
	}
	f.fail(st, "statement %T", st)
	return nil
}

func identExprs(ids []*ast.Ident) []ast.Expr {
	r := make([]ast.Expr, len(ids))
	for i := range ids {
		r[i] = ids[i]
	}
	return r
}

func (f *FT) isNew(e ast.Expr, define bool) *ast.Ident {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name == "_" || !define {
		return nil
	}
	if f.env.pkg.info.Defs[id] != nil {
		return id
	}
	return nil
}

func (f *FT) lhsType(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" {
			return nil
		}
		if o := f.env.pkg.info.Defs[id]; o != nil {
			return f.objType(o)
		}
	}
	return f.typ(e)
}

// lplace is an assignment target.
type lplace struct {
	id  *ast.Ident // newly declared
	p   *Place
	m   string // map handle
	mk  string
	mt  *types.Map
	lhs ast.Expr
}

func (f *FT) lplaceOf(e ast.Expr, define bool) lplace {
	if id := f.isNew(e, define); id != nil {
		return lplace{id: id, lhs: e}
	}
	e = ast.Unparen(e)
	if ix, ok := e.(*ast.IndexExpr); ok {
		if mt, ok := under(f.typ(ix.X)).(*types.Map); ok {
			vs := f.exs([]ast.Expr{ix.X, ix.Index})
			return lplace{m: vs[0], mk: vs[1], mt: mt, lhs: e}
		}
	}
	return lplace{p: f.place(e), lhs: e}
}

func (f *FT) store(l lplace, val string) {
	switch {
	case l.id != nil:
		f.declare(l.id, val)
	case l.mt != nil:
		f.ob("assignment-to-nil-map", l.m+" != 0", l.lhs, true)
		path := f.mapPath(l.mt)
		f.swrite(path, fmt.Sprintf("s.%s.insert(%s, s.%s[%s].insert(%s, %s))", path, l.m, path, l.m, l.mk, val))
	default:
		if l.p.kind == "val" {
			f.fail(l.lhs, "assignment target")
		}
		if l.p.t != nil && f.g.hasRef(l.p.t) {
			f.fail(l.lhs, "assignment of a %s, parts of which have an address of their own", l.p.t)
		}
		f.write(l.p, val)
		if l.p.kind == "var" {
			f.hintAt(l.p.name, false)
		}
	}
}

func (f *FT) bindL(l *lplace, o *order) {
	if l.p != nil {
		f.bindPlace(l.p, o)
	}
	if l.mt != nil {
		m, mk := l.m, l.mk
		l.m = f.tmpv("int", l.m)
		o.add(l.m, m, len(f.out))
		l.mk = f.tmpv("", l.mk)
		o.add(l.mk, mk, len(f.out))
	}
}

func (f *FT) assign(lhs, rhs []ast.Expr, define bool, st ast.Node) {
	if len(lhs) == 1 && len(rhs) == 1 {
		// closure bound to a local variable
		if id, ok := lhs[0].(*ast.Ident); ok && define {
			if fl, ok := ast.Unparen(rhs[0]).(*ast.FuncLit); ok {
				if o := f.env.pkg.info.Defs[id]; o != nil && !(under(f.objType(o)).(*types.Signature).Params().Len() == 0 && under(f.objType(o)).(*types.Signature).Results().Len() > 0) {
					f.env.vars[o] = &Var{lit: fl, litEnv: f.env}
					return
				}
			}
		}
		if id := f.isNew(lhs[0], define); id != nil {
			if u, ok := ast.Unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.AND && define && f.localAlias(id, u) {
				return
			}
			v := f.exAs(rhs[0], f.lhsType(lhs[0]))
			f.declare(id, v)
			return
		}
		if id, ok := lhs[0].(*ast.Ident); ok && id.Name == "_" {
			f.ex(rhs[0])
			return
		}
		var l lplace
		lb := f.sub(func() { l = f.lplaceOf(lhs[0], define) })
		im := f.impure
		var v string
		rb := f.sub(func() { v = f.exAs(rhs[0], f.lhsType(lhs[0])) })
		f.out = append(f.out, lb...)
		var o order
		if im != f.impure {
			f.bindL(&l, &o)
		}
		f.out = append(f.out, rb...)
		f.inOrder(o, st)
		f.store(l, v)
		return
	}
	if len(rhs) == 1 && len(lhs) > 1 {
		// comma ok or multi-value call
		r := ast.Unparen(rhs[0])
		var vals []string
		switch y := r.(type) {
		case *ast.CallExpr:
			var ls []lplace
			var o order
			for _, e := range lhs {
				l := f.lplaceOf(e, define)
				f.bindL(&l, &o)
				ls = append(ls, l)
			}
			vals = f.call(y)
			f.inOrder(o, st)
			if len(vals) != len(lhs) {
				f.fail(st, "assignment count")
			}
			for i := range ls {
				f.store(ls[i], vals[i])
			}
			return
		case *ast.IndexExpr:
			u, ok := under(f.typ(y.X)).(*types.Map)
			if !ok {
				f.fail(st, "comma ok")
			}
			mv := f.tmpv("", f.mapRead(y.X, u))
			kk := f.tmpv("", f.ex(y.Index))
			v := f.tmpv("", fmt.Sprintf("if %s.dom().contains(%s) { %s[%s] } else { %s }", mv, kk, mv, kk, f.zero(u.Elem())))
			ok2 := f.tmpv("bool", fmt.Sprintf("%s.dom().contains(%s)", mv, kk))
			f.store(f.lplaceOf(lhs[0], define), v)
			f.store(f.lplaceOf(lhs[1], define), ok2)
			return
		}
		f.fail(st, "tuple assignment")
	}
	ls := make([]lplace, len(lhs))
	var o order
	for i := range lhs {
		ls[i] = f.lplaceOf(lhs[i], define)
		f.bindL(&ls[i], &o)
	}
	vals := make([]string, len(rhs))
	for i := range rhs {
		t := f.lhsType(lhs[i])
		if t == nil {
			t = f.typ(rhs[i])
		}
		v := f.exAs(rhs[i], t)
		vals[i] = f.tmpv(f.rty(t), v)
		o.add(vals[i], v, len(f.out))
	}
	f.inOrder(o, st)
	for i := range ls {
		f.store(ls[i], vals[i])
	}
}

func (f *FT) opAssign(lhs ast.Expr, op token.Token, rhs func() string, st ast.Node) {
	l := f.lplaceOf(lhs, false)
	im := f.impure
	var v string
	rb := f.sub(func() { v = rhs() })
	t := f.typ(lhs)
	var o order
	if im != f.impure {
		f.bindL(&l, &o)
	}
	var cur string
	if l.mt != nil {
		mv := fmt.Sprintf("mget(%s, %s)", f.sread(f.mapPath(l.mt)), l.m)
		cur = fmt.Sprintf("(if %s.dom().contains(%s) { %s[%s] } else { %s })", mv, l.mk, mv, l.mk, f.zero(l.mt.Elem()))
	} else {
		cur = f.read(l.p)
	}
	if im != f.impure {
		text := cur
		cur = f.tmpv("", cur)
		o.add(cur, text, len(f.out))
	}
	f.out = append(f.out, rb...)
	f.inOrder(o, st)
	f.counter = f.isCounter(lhs) || v == "1int" && f.isLocal(lhs)
	nv := f.arith(op, cur, v, t, st)
	f.counter = false
	f.store(l, nv)
}

func (f *FT) ret(x *ast.ReturnStmt) flags {
	sig := f.env.sig
	var vals []string
	n := sig.Results().Len()
	if len(x.Results) == 0 && n > 0 {
		for i := 0; i < n; i++ {
			o := f.env.results[i]
			v := f.env.vars[o]
			vals = append(vals, f.read(f.placeOfVar(v, f.objType(o))))
		}
	} else if len(x.Results) == 1 && n > 1 {
		c, ok := ast.Unparen(x.Results[0]).(*ast.CallExpr)
		if !ok {
			f.fail(x, "return")
		}
		vals = f.call(c)
	} else {
		vals = f.ordered(len(x.Results), func(i int) string {
			return f.exAs(x.Results[i], subst(sig.Results().At(i).Type(), f.env.tsub))
		})
	}
	return f.doReturn(vals)
}

func (f *FT) doReturn(vals []string) flags {
	if rt := f.env.ret; rt != nil {
		for i, v := range vals {
			f.impure++
			f.emit("%s = %s;", rt.vars[i], v)
		}
		if rt.flag == "" {
			return nil
		}
		f.setflag(rt.flag)
		return flags{rt.flag: true}
	}
	sig := f.fn.sig
	for i, v := range vals {
		f.emit("let %s: %s = %s;", sig.results[i].name, sig.results[i].rty, v)
	}
	if f.con != nil && f.con.exit != "" {
		f.hint(f.con.exit)
	}
	if f.g.vacuity && !f.panMode {
		f.emit("assert(false); //@ob vacuity vacuity")
	}
	f.emit("return %s; //@ret", f.retTuple())
	return nil
}

func (f *FT) retTuple() string {
	sig := f.fn.sig
	var xs []string
	if f.fn.retsS() {
		xs = append(xs, "s")
	}
	for _, r := range sig.results {
		xs = append(xs, r.name)
	}
	if sig.trace != "" {
		xs = append(xs, "tr")
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return "(" + strings.Join(xs, ", ") + ")"
}

func (f *FT) switchStmt(x *ast.SwitchStmt, label string) flags {
	n := len(f.scopeVars)
	f.emit("{")
	f.ind++
	if x.Init != nil {
		f.stmt(x.Init)
	}
	tag := ""
	var tt types.Type
	if x.Tag != nil {
		tag = f.tmpv("", f.ex(x.Tag))
		tt = f.typ(x.Tag)
	}
	brk := f.newFlag("brk")
	f.env.regions = append(f.env.regions, &Region{label: label, brk: brk})
	all := flags{}
	var def *ast.CaseClause
	depth := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []string
		for _, e := range cc.List {
			im := f.impure
			v := f.exAs(e, f.typ(e))
			if im != f.impure {
				f.fail(e, "case with effects")
			}
			if tag != "" {
				if isFloat(tt) {
					f.fail(e, "float case")
				}
				v = fmt.Sprintf("%s == %s", tag, v)
			}
			conds = append(conds, "("+v+")")
		}
		f.emit("if %s {", strings.Join(conds, " || "))
		f.ind++
		all.add(f.block(cc.Body))
		f.ind--
		f.emit("} else {")
		f.ind++
		depth++
	}
	if def != nil {
		all.add(f.block(def.Body))
	}
	for ; depth > 0; depth-- {
		f.ind--
		f.emit("}")
	}
	f.env.regions = f.env.regions[:len(f.env.regions)-1]
	f.ind--
	f.emit("}")
	f.scopeVars = f.scopeVars[:n]
	delete(all, brk)
	return all
}

// ---- loops

type snapshot struct {
	names  map[string]int
	tmp    int
	impure int
	loopN  int
	callN  map[string]int
	nob    int
	flagN  int
	scope  int
	vars   map[types.Object]*Var
	envs   *Env
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// dry runs body and reports the variables and components it assigns.
func (f *FT) dry(body func()) (vars []string, comps []string, trace bool) {
	sn := snapshot{copyMap(f.names), f.tmp, f.impure, f.loopN, copyMap(f.callN), f.nob, f.flagN, len(f.scopeVars), copyMap(f.env.vars), f.env}
	sa, sm := f.assigned, f.modset
	inscope := map[string]bool{}
	for _, v := range f.scopeVars {
		inscope[v] = true
	}
	f.assigned, f.modset = map[string]bool{}, map[string]bool{}
	nreg := len(f.env.regions)
	f.sub(body)
	for v := range f.assigned {
		if v == "tr" {
			trace = true
		} else if inscope[v] {
			vars = append(vars, v)
		}
	}
	for m := range f.modset {
		comps = append(comps, m)
		sm[m] = true
	}
	for v := range f.assigned {
		sa[v] = true
	}
	f.assigned, f.modset = sa, sm
	f.names, f.tmp, f.impure, f.loopN, f.callN, f.nob, f.flagN = sn.names, sn.tmp, sn.impure, sn.loopN, sn.callN, sn.nob, sn.flagN
	f.scopeVars = f.scopeVars[:sn.scope]
	f.env = sn.envs
	f.env.vars = sn.vars
	f.env.regions = f.env.regions[:nreg]
	sort.Strings(vars)
	sort.Strings(comps)
	return
}

func (f *FT) loopSpec() (*LoopSpec, int) {
	f.loopN++
	k := f.loopN
	if f.con != nil {
		if l := f.con.loops[k]; l != nil {
			return l, k
		}
	}
	return &LoopSpec{}, k
}

func (f *FT) assertInv(invs []Clause, kind string, n ast.Node) {
	for _, c := range invs {
		f.nob++
		tag := ""
		if c.tag != "" {
			tag = " [" + c.tag + "]"
		}
		f.emit("assert(%s); //@ob %s %s%s", strings.ReplaceAll(c.text, "\n", " "), f.g.posOf(n.Pos()), kind, tag)
	}
}

func (f *FT) assumeInv(invs []Clause) {
	for _, c := range invs {
		f.emit("assume(%s);", strings.ReplaceAll(c.text, "\n", " "))
	}
}

// genLoop emits a loop: cond returns the loop condition (may emit statements), body the body, post the post statement.
func (f *FT) genLoop(n ast.Node, label string, sp *LoopSpec, k int, auto []Clause, autodec string, havocExtra []string, cond func() string, body func() flags, post func()) flags {
	brk := f.newFlag("brk")
	cont := f.newFlag("cnt")
	reg := &Region{label: label, brk: brk, cont: cont, loop: true}
	run := func() flags {
		f.env.regions = append(f.env.regions, reg)
		fl := body()
		f.env.regions = f.env.regions[:len(f.env.regions)-1]
		return fl
	}
	vars, comps, tr := f.dry(func() {
		cond()
		run()
		if post != nil {
			post()
		}
	})
	if sp.before != "" {
		f.hint(sp.before)
	}
	invs := append([]Clause{}, auto...)
	for _, c := range sp.inv {
		if f.unknown(c.text) == "" {
			invs = append(invs, c)
		}
	}
	f.assertInv(invs, "loop-invariant-holds-on-entry", n)
	if len(vars) > 0 || len(comps) > 0 || tr {
		f.impure++
	}
	for _, v := range vars {
		f.assigned[v] = true
		f.emit("%s = havoc();", v)
	}
	for _, v := range havocExtra {
		f.emit("%s = havoc();", v)
	}
	for _, v := range f.ghostVars(sp) {
		f.emit("%s = havoc();", v)
	}
	for _, c := range comps {
		f.modset[c] = true
		f.readset[c] = true
		f.emit("s.%s = havoc();", c)
	}
	if tr {
		f.assigned["tr"] = true
		f.emit("tr = havoc();")
	}
	f.assumeInv(invs)
	c := cond()
	f.emit("if %s {", c)
	f.ind++
	if sp.entry != "" {
		f.hint(sp.entry)
	}
	var decs []string
	if len(sp.dec) > 0 && f.unknown(sp.dec[0].text) == "" {
		for i, d := range sp.dec {
			f.emit("let dec%d_%d: int = (%s) as int;", k, i, d.text)
			decs = append(decs, d.text)
		}
	} else if autodec != "" {
		f.emit("let dec%d_0: int = %s;", k, autodec)
		decs = []string{autodec}
	}
	fl := run()
	delete(fl, cont)
	closes := 1
	if len(fl) > 0 {
		f.emit("if !(%s) {", strings.Join(fl.list(), " || "))
		f.ind++
		closes++
	}
	if sp.body != "" {
		f.hint(sp.body)
	}
	if post != nil {
		post()
	}
	if sp.end != "" {
		f.hint(sp.end)
	}
	f.assertInv(invs, "loop-invariant-preserved", n)
	if len(decs) == 0 {
		f.nob++
		f.emit("assert(false); //@ob %s loop-termination (no measure)", f.g.posOf(n.Pos()))
	} else {
		// lexicographic
		cs := []string{}
		for i, d := range decs {
			c := ""
			for j := 0; j < i; j++ {
				c += fmt.Sprintf("dec%d_%d == ((%s) as int) && ", k, j, decs[j])
			}
			cs = append(cs, fmt.Sprintf("(%s0 <= dec%d_%d && ((%s) as int) < dec%d_%d)", c, k, i, d, k, i))
		}
		f.nob++
		f.emit("assert(%s); //@ob %s loop-termination", strings.Join(cs, " || "), f.g.posOf(n.Pos()))
	}
	f.emit("assume(false);")
	for ; closes > 0; closes-- {
		f.ind--
		f.emit("}")
	}
	delete(fl, brk)
	if sp.exit != "" {
		if len(fl) > 0 {
			f.emit("if !(%s) {", strings.Join(fl.list(), " || "))
			f.hint(sp.exit)
			f.emit("}")
		} else {
			f.hint(sp.exit)
		}
	}
	return fl
}

func (f *FT) forStmt(x *ast.ForStmt, label string) flags {
	n := len(f.scopeVars)
	// without an init statement there is nothing to scope, and the bindings of
	// @loopbefore stay visible after the loop
	if x.Init != nil {
		f.emit("{")
		f.ind++
		f.stmt(x.Init)
	}
	sp, k := f.loopSpec()
	sp, auto, autodec := f.adaptFor(sp, k, x)
	if autodec == "" && x.Cond != nil {
		autodec = f.condMeasure(x)
	}
	// for i := a; i < b; i++ with i not assigned in the body
	if as, ok := x.Init.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 {
		id := as.Lhs[0].(*ast.Ident)
		o := f.env.pkg.info.Defs[id]
		v := f.env.vars[o]
		if inc, ok := x.Post.(*ast.IncDecStmt); ok && v != nil && !v.boxed && isInt(f.objType(o)) {
			if pid, ok := inc.X.(*ast.Ident); ok && f.env.pkg.info.Uses[pid] == o && !assignsTo(f.env.pkg.info, x.Body, o) {
				init := f.tmpv("int", v.name)
				if inc.Tok == token.INC {
					auto = append(auto, Clause{text: fmt.Sprintf("%s <= %s", init, v.name)})
				} else {
					auto = append(auto, Clause{text: fmt.Sprintf("%s >= %s", init, v.name)})
				}
				if be, ok := x.Cond.(*ast.BinaryExpr); ok {
					if bid, ok := be.X.(*ast.Ident); ok && f.env.pkg.info.Uses[bid] == o {
						if bv, ok := f.pureEx(be.Y); ok {
							switch {
							case be.Op == token.LSS && inc.Tok == token.INC:
								autodec = fmt.Sprintf("(%s) - %s", bv, v.name)
							case be.Op == token.LEQ && inc.Tok == token.INC:
								autodec = fmt.Sprintf("(%s) + 1 - %s", bv, v.name)
							case be.Op == token.GEQ && inc.Tok == token.DEC:
								autodec = fmt.Sprintf("%s - (%s) + 1", v.name, bv)
							case be.Op == token.GTR && inc.Tok == token.DEC:
								autodec = fmt.Sprintf("%s - (%s)", v.name, bv)
							}
						}
					}
				}
			}
		}
	}
	var post func()
	if x.Post != nil {
		post = func() { f.stmt(x.Post) }
	}
	fl := f.genLoop(x, label, sp, k, auto, autodec, nil, func() string {
		if x.Cond == nil {
			return "true"
		}
		return f.ex(x.Cond)
	}, func() flags { return f.block(x.Body.List) }, post)
	if x.Init != nil {
		f.ind--
		f.emit("}")
		f.loopName(fmt.Sprintf("rs%d", k), false)
	}
	f.scopeVars = f.scopeVars[:n]
	return fl
}

func assignsTo(info *types.Info, body ast.Node, o types.Object) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := ast.Unparen(l).(*ast.Ident); ok && info.Uses[id] == o {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := ast.Unparen(x.X).(*ast.Ident); ok && info.Uses[id] == o {
				found = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id, ok := ast.Unparen(x.X).(*ast.Ident); ok && info.Uses[id] == o {
					found = true
				}
			}
		}
		return true
	})
	return found
}

// clearLoop recognises for k := range m { delete(m, k) }, which empties m.
func (f *FT) clearLoop(x *ast.RangeStmt) bool {
	if x.Tok != token.DEFINE || x.Value != nil || len(x.Body.List) != 1 {
		return false
	}
	if _, ok := under(f.typ(x.X)).(*types.Map); !ok {
		return false
	}
	switch ast.Unparen(x.X).(type) {
	case *ast.Ident, *ast.SelectorExpr:
	default:
		return false
	}
	key, ok := x.Key.(*ast.Ident)
	es, ok2 := x.Body.List[0].(*ast.ExprStmt)
	if !ok || !ok2 {
		return false
	}
	c, ok := es.X.(*ast.CallExpr)
	if !ok || len(c.Args) != 2 {
		return false
	}
	fn, ok := c.Fun.(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := f.env.pkg.info.Uses[fn].(*types.Builtin)
	if !ok || b.Name() != "delete" {
		return false
	}
	k, ok := ast.Unparen(c.Args[1]).(*ast.Ident)
	return ok && f.env.pkg.info.Uses[k] == f.env.pkg.info.Defs[key] && types.ExprString(c.Args[0]) == types.ExprString(x.X)
}

func (f *FT) rangeStmt(x *ast.RangeStmt, label string) flags {
	if fl, ok := f.rangeLit(x, label); ok {
		return fl
	}
	if f.clearLoop(x) && (f.con == nil || f.con.loops[f.loopN+1] == nil) {
		f.loopN++
		u := under(f.typ(x.X)).(*types.Map)
		m := f.tmpv("int", f.ex(x.X))
		path := f.mapPath(u)
		f.ob("map-allocated", fmt.Sprintf("%s == 0 || s.%s.dom().contains(%s)", m, path, m), x, false)
		f.clearMap(m, path, u)
		return nil
	}
	n := len(f.scopeVars)
	f.emit("{")
	f.ind++
	defer func() {
		f.ind--
		f.emit("}")
		f.scopeVars = f.scopeVars[:n]
	}()
	sp, k := f.loopSpec()
	sp = f.adaptRange(sp, k, x)
	it := fmt.Sprintf("it%d", k)
	f.loopName(it, true)
	f.loopName(fmt.Sprintf("rs%d", k), true)
	defer f.loopName(it, false)
	defer f.loopName(fmt.Sprintf("rs%d", k), false)
	bind := func(e ast.Expr, val string) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if id := f.isNew(e, x.Tok == token.DEFINE); id != nil {
			f.declare(id, val)
			return
		}
		f.store(f.lplaceOf(e, false), val)
	}
	post := func() { f.emit("%s = %s + 1;", it, it) }
	if base, lo, hi, ok := f.arraySlice(x.X); ok {
		lo, hi = f.tmpv("int", lo), f.tmpv("int", hi)
		f.emit("let mut %s: int = 0;", it)
		auto := []Clause{{text: fmt.Sprintf("0 <= %s && %s <= %s - %s", it, it, hi, lo)}}
		return f.genLoop(x, label, sp, k, auto, fmt.Sprintf("%s - %s - %s", hi, lo, it), []string{it},
			func() string { return fmt.Sprintf("%s < %s - %s", it, hi, lo) },
			func() flags {
				m := len(f.scopeVars)
				bind(x.Key, it)
				if x.Value != nil {
					bind(x.Value, fmt.Sprintf("%s[%s + %s]", f.read(base), lo, it))
				}
				fl := f.stmts(x.Body.List)
				f.scopeVars = f.scopeVars[:m]
				return fl
			}, post)
	}
	switch u := under(f.typ(x.X)).(type) {
	case *types.Slice:
		sl := fmt.Sprintf("rs%d", k)
		v := f.ex(x.X)
		f.emit("let %s: Slice = %s;", sl, v)
		f.emit("let mut %s: int = 0;", it)
		auto := []Clause{{text: fmt.Sprintf("0 <= %s && (%s <= %s.len || %s == 0)", it, it, sl, it)}}
		path := f.arrPath(u.Elem())
		return f.genLoop(x, label, sp, k, auto, fmt.Sprintf("%s.len - %s", sl, it), []string{it},
			func() string { return fmt.Sprintf("%s < %s.len", it, sl) },
			func() flags {
				m := len(f.scopeVars)
				bind(x.Key, it)
				if x.Value != nil {
					bind(x.Value, fmt.Sprintf("%s[%s.arr][%s.off + %s]", f.sread(path), sl, sl, it))
				}
				if sp.entry != "" && strings.Contains(sp.entry, "//bound") {
					f.hint(sp.entry)
				}
				fl := f.stmts(x.Body.List)
				f.scopeVars = f.scopeVars[:m]
				return fl
			}, post)
	case *types.Map:
		ks := fmt.Sprintf("ks%d", k)
		path := f.mapPath(u)
		m := f.tmpv("int", f.ex(x.X))
		f.impure++
		f.emit("let %s: Seq<%s> = havoc();", ks, f.rty(u.Key()))
		f.emit("let rm%d: Map<%s, %s> = mget(%s, %s);", k, f.rty(u.Key()), f.rty(u.Elem()), f.sread(path), m)
		f.emit("assume(%s.no_duplicates() && %s.to_set() =~= rm%d.dom());", ks, ks, k)
		f.emit("let mut %s: int = 0;", it)
		// the loop variables live outside so that skipped (deleted) keys can be handled
		auto := []Clause{{text: fmt.Sprintf("0 <= %s && %s <= %s.len()", it, it, ks)}}
		mm := false
		_, comps, _ := f.dry(func() {
			m0 := len(f.scopeVars)
			bind(x.Key, ks+"["+it+"]")
			if x.Value != nil {
				bind(x.Value, fmt.Sprintf("mget(s.%s, %s)[%s[%s]]", path, m, ks, it))
			}
			f.env.regions = append(f.env.regions, &Region{label: label, brk: "brk_", cont: "cnt_", loop: true})
			f.stmts(x.Body.List)
			f.env.regions = f.env.regions[:len(f.env.regions)-1]
			f.scopeVars = f.scopeVars[:m0]
		})
		for _, c := range comps {
			if c == path {
				mm = true
			}
		}
		return f.genLoop(x, label, sp, k, auto, fmt.Sprintf("%s.len() - %s", ks, it), []string{it},
			func() string { return fmt.Sprintf("%s < %s.len()", it, ks) },
			func() flags {
				m0 := len(f.scopeVars)
				if mm {
					f.emit("if mget(s.%s, %s).dom().contains(%s[%s]) {", path, m, ks, it)
					f.ind++
				}
				bind(x.Key, ks+"["+it+"]")
				if x.Value != nil {
					bind(x.Value, fmt.Sprintf("mget(%s, %s)[%s[%s]]", f.sread(path), m, ks, it))
				}
				fl := f.stmts(x.Body.List)
				if mm {
					f.ob("range-no-insertion", fmt.Sprintf("mget(s.%s, %s).dom().subset_of(rm%d.dom())", path, m, k), x, false)
					f.ind--
					f.emit("}")
				}
				f.scopeVars = f.scopeVars[:m0]
				return fl
			}, post)
	case *types.Basic:
		if isInt(u) && x.Value == nil {
			bound := f.tmpv("int", f.ex(x.X))
			f.emit("let mut %s: int = 0;", it)
			auto := []Clause{{text: fmt.Sprintf("0 <= %s", it)}}
			return f.genLoop(x, label, sp, k, auto, fmt.Sprintf("%s - %s", bound, it), []string{it},
				func() string { return fmt.Sprintf("%s < %s", it, bound) },
				func() flags {
					m0 := len(f.scopeVars)
					bind(x.Key, it)
					fl := f.stmts(x.Body.List)
					f.scopeVars = f.scopeVars[:m0]
					return fl
				}, post)
		}
	}
	f.fail(x, "range over %s", f.typ(x.X))
	return nil
}
