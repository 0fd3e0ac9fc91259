package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

func (f *FT) emit(s string, a ...any) {
	if len(a) > 0 {
		s = fmt.Sprintf(s, a...)
	}
	f.out = append(f.out, strings.Repeat("  ", f.ind)+s)
}

// ob emits a proof obligation; a failing condition is a Go run-time panic when pan is true.
func (f *FT) ob(kind, cond string, n ast.Node, pan bool) {
	if cond == "true" {
		return
	}
	f.nob++
	pos := ""
	if n != nil {
		pos = f.g.posOf(n.Pos())
	}
	if f.panMode && pan {
		f.emit("if !(%s) { assert(s == s0); return havoc(); } //@ob %s panic-frame %s", cond, pos, kind)
		return
	}
	f.emit("assert(%s); //@ob %s %s", cond, pos, kind)
}

func (f *FT) tmpv(rty, val string) string {
	f.tmp++
	n := fmt.Sprintf("t%d", f.tmp)
	if rty == "" {
		f.emit("let %s = %s;", n, val)
	} else {
		f.emit("let %s: %s = %s;", n, rty, val)
	}
	return n
}

func (f *FT) sread(path string) string {
	f.readset[path] = true
	return "s." + path
}

func (f *FT) swrite(path, val string) {
	f.impure++
	f.modset[path] = true
	f.readset[path] = true
	f.emit("s.%s = %s;", path, val)
}

func (f *FT) setvar(name, val string) {
	f.impure++
	f.assigned[name] = true
	f.emit("%s = %s;", name, val)
}

func isAtom(s string) bool {
	for _, c := range s {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return s != ""
}

// sub evaluates fn into a separate buffer.
func (f *FT) sub(fn func()) []string {
	save := f.out
	f.out = nil
	fn()
	r := f.out
	f.out = save
	return r
}

// ordered evaluates the expressions left to right, binding earlier values when a later one has effects.
func (f *FT) ordered(n int, eval func(i int) string) []string {
	type part struct {
		buf    []string
		val    string
		impure bool
	}
	ps := make([]part, n)
	for i := 0; i < n; i++ {
		im := f.impure
		i := i
		var v string
		b := f.sub(func() { v = eval(i) })
		ps[i] = part{b, v, f.impure != im}
	}
	later := false
	bind := make([]bool, n)
	for i := n - 1; i >= 0; i-- {
		bind[i] = later
		later = later || ps[i].impure
	}
	res := make([]string, n)
	var o order
	for i := range ps {
		f.out = append(f.out, ps[i].buf...)
		res[i] = ps[i].val
		if bind[i] && ps[i].val != "" {
			res[i] = f.tmpv("", ps[i].val)
			o.add(res[i], ps[i].val, len(f.out))
		}
	}
	f.inOrder(o, f.now)
	return res
}

// order holds operands that are evaluated before a call of the same expression or statement.
type order []struct {
	val, text string
	from      int
}

func (o *order) add(val, text string, from int) {
	*o = append(*o, struct {
		val, text string
		from      int
	}{val, text, from})
}

var stateWrite = regexp.MustCompile(`^\s*s(\.\w+)? = `)
var varWrite = regexp.MustCompile(`^\s*(v_\w+) = `)
var varUse = regexp.MustCompile(`\bv_\w+`)

// inOrder asserts that it makes no difference whether those operands are read before or after the
// calls: the language leaves that open, and the compiler reads variables and fields after them.
func (f *FT) inOrder(o order, n ast.Node) {
	for _, p := range o {
		us, vs := strings.Contains(p.text, "s."), varUse.FindAllString(p.text, -1)
		hit := false
		for _, l := range f.out[p.from:] {
			if us && stateWrite.MatchString(l) {
				hit = true
			}
			if m := varWrite.FindStringSubmatch(l); m != nil {
				for _, v := range vs {
					hit = hit || v == m[1]
				}
			}
		}
		if hit {
			f.ob("evaluation-order", p.val+" == "+p.text, n, false)
		}
	}
}

func (f *FT) exs(es []ast.Expr) []string {
	return f.ordered(len(es), func(i int) string { return f.ex(es[i]) })
}

func intLit(v constant.Value) string {
	s := v.ExactString()
	if strings.HasPrefix(s, "-") {
		return "(" + s + "int)"
	}
	return s + "int"
}

func (f *FT) constant(t types.Type, v constant.Value, n ast.Node) string {
	switch {
	case isInt(t):
		return intLit(constant.ToInt(v))
	case isStr(t):
		s := constant.StringVal(v)
		if s == "" {
			return "Seq::<int>::empty()"
		}
		var bs []string
		for i := 0; i < len(s); i++ {
			bs = append(bs, fmt.Sprintf("%dint", s[i]))
		}
		return "seq![" + strings.Join(bs, ", ") + "]"
	case isFloat(t):
		return fmt.Sprintf("f64_const(%s)", intLit(constant.MakeInt64(int64(f.g.floatID(v.ExactString())))))
	}
	if v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return "true"
		}
		return "false"
	}
	if v.Kind() == constant.Int {
		return intLit(v)
	}
	f.fail(n, "constant of type %s", t)
	return ""
}

func (g *Gen) floatID(s string) int {
	if g.floats == nil {
		g.floats = map[string]int{}
	}
	if id, ok := g.floats[s]; ok {
		return id
	}
	g.floats[s] = len(g.floats) + 1
	return len(g.floats)
}

func (f *FT) zero(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok {
			if st.NumFields() == 0 {
				return "()"
			}
			var fs []string
			q := f.g.pkgOf(n.Obj().Pkg())
			if q == nil {
				f.fail(nil, "zero value of %s", t)
			}
			for i := 0; i < st.NumFields(); i++ {
				ft := f.fieldType(n, i)
				if f.g.refField(ft) {
					fs = append(fs, fieldName(st.Field(i).Name())+": "+f.alloc(ft, f.zero(ft)))
				} else {
					fs = append(fs, fieldName(st.Field(i).Name())+": "+f.zero(ft))
				}
			}
			return q.name + "::" + rustName(n.Obj().Name()) + "{" + strings.Join(fs, ", ") + "}"
		}
	}
	if it := f.g.itype(t); it != nil {
		return it[1]
	}
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "false"
		case x.Info()&types.IsInteger != 0:
			return "0int"
		case x.Info()&types.IsString != 0:
			return "Seq::<int>::empty()"
		case x.Info()&types.IsFloat != 0:
			return "f64_const(0)"
		}
	case *types.TypeParam:
		return "zero::<" + f.rty(x) + ">()"
	case *types.Pointer, *types.Map, *types.Interface:
		return "0int"
	case *types.Slice:
		return "nil_slice()"
	case *types.Array:
		return fmt.Sprintf("Seq::new(%d as nat, |i: int| %s)", x.Len(), f.zero(x.Elem()))
	case *types.Struct:
		if x.NumFields() == 0 {
			return "()"
		}
	case *types.Signature:
		if x.Results().Len() == 0 || x.Params().Len() == 0 {
			return "0int"
		}
		return "zero::<" + f.rty(t) + ">()"
	}
	f.fail(nil, "zero value of %s", t)
	return ""
}

// fieldType is the (substituted) type of field i of the named struct n.
func (f *FT) fieldType(n *types.Named, i int) types.Type {
	return n.Underlying().(*types.Struct).Field(i).Type()
}

func (f *FT) alloc(t types.Type, val string) string {
	path := f.objPath(t)
	r := f.tmpvFresh(path)
	f.swrite(path, fmt.Sprintf("s.%s.insert(%s, %s)", path, r, val))
	return r
}

func (f *FT) tmpvFresh(path string) string {
	f.impure++
	f.tmp++
	n := fmt.Sprintf("t%d", f.tmp)
	f.emit("let %s: int = fresh(%s);", n, f.sread(path))
	return n
}

// ---- places

type Place struct {
	kind  string // var heap field elem slice
	name  string
	path  string
	ref   string
	base  *Place
	field string
	sty   string
	idx   string
	sl    string
	val   string
	t     types.Type
}

func (f *FT) read(p *Place) string {
	switch p.kind {
	case "val":
		return p.val
	case "var":
		return p.name
	case "heap":
		return fmt.Sprintf("%s[%s]", f.sread(p.path), p.ref)
	case "field":
		return f.read(p.base) + "." + p.field
	case "elem":
		return fmt.Sprintf("%s[%s]", f.read(p.base), p.idx)
	case "slice":
		return fmt.Sprintf("%s[%s.arr][%s.off + %s]", f.sread(p.path), p.sl, p.sl, p.idx)
	}
	panic("place")
}

func (f *FT) write(p *Place, val string) {
	switch p.kind {
	case "var":
		f.setvar(p.name, val)
	case "heap":
		f.swrite(p.path, fmt.Sprintf("s.%s.insert(%s, %s)", p.path, p.ref, val))
	case "field":
		f.write(p.base, fmt.Sprintf("%s{%s: %s, ..%s}", p.sty, p.field, val, f.read(p.base)))
	case "elem":
		f.write(p.base, fmt.Sprintf("%s.update(%s, %s)", f.read(p.base), p.idx, val))
	case "slice":
		f.swrite(p.path, fmt.Sprintf("s.%s.insert(%s.arr, s.%s[%s.arr].update(%s.off + %s, %s))", p.path, p.sl, p.path, p.sl, p.sl, p.idx, val))
	case "blank":
		f.emit("let _ = %s;", val)
	default:
		panic(Unsupported{"write to value"})
	}
}

// bindPlace freezes index/ref operands into temporaries.
func (f *FT) bindPlace(p *Place, o *order) {
	bind := func(ty, text string) string {
		t := f.tmpv(ty, text)
		o.add(t, text, len(f.out))
		return t
	}
	switch p.kind {
	case "heap":
		if !isAtom(p.ref) || strings.HasPrefix(p.ref, "v_") {
			p.ref = bind("int", p.ref)
		}
	case "field":
		f.bindPlace(p.base, o)
	case "elem":
		f.bindPlace(p.base, o)
		p.idx = bind("int", p.idx)
	case "slice":
		p.sl = bind("Slice", p.sl)
		p.idx = bind("int", p.idx)
	}
}

func (f *FT) nilCheck(ref string, n ast.Node) {
	f.ob("nil-dereference", ref+" != 0", n, true)
}

// deref gives the place of *ref where ref has pointer type pt.
func (f *FT) deref(ref string, pt types.Type, n ast.Node) *Place {
	el := under(pt).(*types.Pointer).Elem()
	f.nilCheck(ref, n)
	return &Place{kind: "heap", path: f.objPath(el), ref: ref, t: el}
}

func (f *FT) placeOfVar(v *Var, t types.Type) *Place {
	if v.boxed {
		return &Place{kind: "heap", path: v.path, ref: v.name, t: t}
	}
	return &Place{kind: "var", name: v.name, t: t}
}

func (f *FT) lookupVar(id *ast.Ident) (*Var, types.Object) {
	o := f.env.pkg.info.Uses[id]
	if o == nil {
		o = f.env.pkg.info.Defs[id]
	}
	if o == nil {
		return nil, nil
	}
	for e := f.env; e != nil; e = e.parent {
		if v, ok := e.vars[o]; ok {
			return v, o
		}
	}
	return nil, o
}

func (f *FT) place(e ast.Expr) *Place {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.place(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return &Place{kind: "blank"}
		}
		v, o := f.lookupVar(x)
		if v != nil {
			return f.placeOfVar(v, f.objType(o))
		}
		return &Place{kind: "val", val: f.ex(e), t: f.typ(e)}
	case *ast.StarExpr:
		if p := f.aliasOf(x.X); p != nil {
			return p
		}
		return f.deref(f.ex(x.X), f.typ(x.X), x)
	case *ast.SelectorExpr:
		sel := f.env.pkg.info.Selections[x]
		if sel == nil {
			return &Place{kind: "val", val: f.ex(e), t: f.typ(e)}
		}
		if sel.Kind() != types.FieldVal {
			f.fail(e, "method value")
		}
		return f.selPlace(x, f.selIndex(x), len(f.selIndex(x)))
	case *ast.IndexExpr:
		bt := f.typ(x.X)
		if p, ok := under(bt).(*types.Pointer); ok {
			bt = p.Elem() // pointer to array
			al := f.aliasOf(x.X)
			au, isArr := under(bt).(*types.Array)
			if al == nil || !isArr {
				f.fail(e, "pointer to array")
			}
			idx := f.ex(x.Index)
			if !isAtom(idx) && !strings.HasSuffix(idx, "int") {
				idx = "(" + idx + ")"
			}
			f.ob("index-in-range", fmt.Sprintf("0 <= %s && %s < %d", idx, idx, au.Len()), e, true)
			return &Place{kind: "elem", base: al, idx: idx, t: au.Elem()}
		}
		switch u := under(bt).(type) {
		case *types.Array:
			base := f.place(x.X)
			idx := f.ex(x.Index)
			if !isAtom(idx) && !strings.HasSuffix(idx, "int") {
				idx = "(" + idx + ")"
			}
			f.ob("index-in-range", fmt.Sprintf("0 <= %s && %s < %d", idx, idx, u.Len()), e, true)
			return &Place{kind: "elem", base: base, idx: idx, t: u.Elem()}
		case *types.Slice:
			vs := f.exs([]ast.Expr{x.X, x.Index})
			sl, idx := vs[0], vs[1]
			if !isAtom(idx) {
				idx = "(" + idx + ")"
			}
			f.ob("index-in-range", fmt.Sprintf("0 <= %s && %s < %s.len", idx, idx, sl), e, true)
			return &Place{kind: "slice", path: f.arrPath(u.Elem()), sl: sl, idx: idx, t: u.Elem()}
		}
	}
	return &Place{kind: "val", val: f.ex(e), t: f.typ(e)}
}

// aliasOf returns the place a pointer-valued inlined parameter stands for.
func (f *FT) aliasOf(e ast.Expr) *Place {
	if p, ok := e.(*ast.ParenExpr); ok {
		return f.aliasOf(p.X)
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return nil
	}
	v, _ := f.lookupVar(id)
	if v != nil && v.alias != nil {
		return v.alias
	}
	return nil
}

// selIndex is the field path of a selector, recomputed when the receiver type was substituted.
func (f *FT) selIndex(x *ast.SelectorExpr) []int {
	return f.env.pkg.info.Selections[x].Index()
}

// selPlace walks the first n steps of the field path of x.X.
func (f *FT) selPlace(x *ast.SelectorExpr, index []int, n int) *Place {
	var p *Place
	t := f.typ(x.X)
	if al := f.aliasOf(x.X); al != nil {
		p = al
		t = al.t
	} else if pt, ok := under(t).(*types.Pointer); ok {
		p = f.deref(f.ex(x.X), t, x)
		t = pt.Elem()
	} else {
		p = f.place(x.X)
	}
	for k := 0; k < n; k++ {
		if k > 0 {
			if pt, ok := under(t).(*types.Pointer); ok {
				p = f.deref(f.read(p), t, x)
				t = pt.Elem()
			}
		}
		nm, ok := types.Unalias(t).(*types.Named)
		if !ok {
			f.fail(x, "field of %s", t)
		}
		st, ok := nm.Underlying().(*types.Struct)
		if !ok {
			f.fail(x, "field of %s", t)
		}
		q := f.g.pkgOf(nm.Obj().Pkg())
		if q == nil {
			f.fail(x, "field of external struct %s", t)
		}
		fd := st.Field(index[k])
		ft := fd.Type()
		np := &Place{kind: "field", base: p, field: fieldName(fd.Name()), sty: q.name + "::" + rustName(nm.Obj().Name()), t: ft}
		if f.g.refField(ft) {
			np = &Place{kind: "heap", path: f.objPath(ft), ref: f.read(np), t: ft}
		}
		p = np
		t = ft
	}
	return p
}

// addr gives the address of a place that has one.
func (f *FT) addr(p *Place, n ast.Node) string {
	if p.kind == "heap" {
		return p.ref
	}
	f.fail(n, "address of a %s", p.kind)
	return ""
}

// ---- expressions

func (f *FT) ex(e ast.Expr) string {
	tv := f.env.pkg.info.Types[e]
	if tv.Value != nil {
		return f.constant(f.typ(e), tv.Value, e)
	}
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if tv.IsValue() && f.g.hasRef(f.typ(e)) {
			f.fail(e, "copy of a %s, parts of which have an address of their own", f.typ(e))
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.ex(x.X)
	case *ast.Ident:
		if x.Name == "nil" {
			if _, ok := f.env.pkg.info.Uses[x].(*types.Nil); ok {
				t := tv.Type
				if t != nil {
					if _, ok := under(t).(*types.Slice); ok {
						return "nil_slice()"
					}
				}
				return "0int"
			}
		}
		v, o := f.lookupVar(x)
		if v != nil {
			if v.alias != nil {
				if v.alias.kind == "heap" {
					return v.alias.ref
				}
				f.fail(e, "pointer to a %s escapes", v.alias.kind)
			}
			if v.cb || v.lit != nil {
				f.fail(e, "callback used as a value")
			}
			return f.read(f.placeOfVar(v, f.objType(o)))
		}
		if gv, ok := o.(*types.Var); ok && gv.Pkg() != nil && gv.Parent() == gv.Pkg().Scope() {
			return f.global(gv)
		}
		if fo, ok := o.(*types.Func); ok {
			return f.funcValue(fo, e)
		}
		f.fail(e, "identifier %s", x.Name)
	case *ast.SelectorExpr:
		sel := f.env.pkg.info.Selections[x]
		if sel == nil {
			o := f.env.pkg.info.Uses[x.Sel]
			if gv, ok := o.(*types.Var); ok {
				return f.global(gv)
			}
			if fo, ok := o.(*types.Func); ok {
				return f.funcValue(fo, e)
			}
			f.fail(e, "selector %s", x.Sel.Name)
		}
		v := f.read(f.place(e))
		if isInt(f.typ(x)) && !isUnsigned(f.typ(x)) {
			if f.isCounter(x) {
				f.emit("assume(is_count(%s));", v)
			} else {
				f.emit("assume(ib%d(%s));", bits(f.typ(x)), v)
			}
		}
		return v
	case *ast.StarExpr:
		return f.read(f.place(e))
	case *ast.IndexExpr:
		bt := under(f.typ(x.X))
		switch u := bt.(type) {
		case *types.Map:
			mv := f.mapRead(x.X, u)
			kk := f.ex(x.Index)
			return fmt.Sprintf("(if %s.dom().contains(%s) { %s[%s] } else { %s })", mv, kk, mv, kk, f.zero(u.Elem()))
		case *types.Basic:
			if isStr(u) {
				vs := f.exs([]ast.Expr{x.X, x.Index})
				f.ob("index-in-range", fmt.Sprintf("0 <= %s && %s < %s.len()", vs[1], vs[1], vs[0]), e, true)
				return fmt.Sprintf("%s[%s]", vs[0], vs[1])
			}
		case *types.Signature:
			// explicit instantiation
			return f.ex(x.X)
		}
		return f.read(f.place(e))
	case *ast.IndexListExpr:
		return f.ex(x.X)
	case *ast.BasicLit:
		f.fail(e, "literal")
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "!(" + f.ex(x.X) + ")"
		case token.SUB:
			return "(-(" + f.ex(x.X) + "))"
		case token.ADD:
			return f.ex(x.X)
		case token.XOR:
			if isUnsigned(f.typ(x.X)) {
				return "bnot(" + f.ex(x.X) + ")"
			}
			return "(-1 - (" + f.ex(x.X) + "))"
		case token.AND:
			return f.addrOf(x.X)
		}
		f.fail(e, "unary %s", x.Op)
	case *ast.BinaryExpr:
		return f.binary(x)
	case *ast.CallExpr:
		rs := f.call(x)
		if len(rs) != 1 {
			f.fail(e, "call with %d results used as a value", len(rs))
		}
		return rs[0]
	case *ast.CompositeLit:
		return f.composite(x, f.typ(x))
	case *ast.SliceExpr:
		return f.sliceExpr(x)
	case *ast.FuncLit:
		return f.pureLit(x)
	case *ast.TypeAssertExpr:
		f.fail(e, "type assertion")
	}
	f.fail(e, "expression %T", e)
	return ""
}

func (f *FT) global(v *types.Var) string {
	q := f.g.pkgOf(v.Pkg())
	if q == nil {
		f.fail(nil, "external variable %s", v.Name())
	}
	f.g.globals[q.name+"::g_"+v.Name()] = f.rty(v.Type())
	return q.name + "::g_" + v.Name() + "()"
}

func (f *FT) funcValue(fo *types.Func, e ast.Expr) string {
	// only simple pure functions: Less, Equals
	full := ""
	if fo.Pkg() != nil {
		full = fo.Pkg().Path() + "." + fo.Name()
	}
	switch full {
	case f.g.l.modpath + ".Less":
		return "|a: _, b: _| olt(a, b)"
	case f.g.l.modpath + ".Equals":
		return "|a: _, b: _| a == b"
	}
	f.fail(e, "function value %s", fo.Name())
	return ""
}

func (f *FT) pureLit(x *ast.FuncLit) string {
	t := f.typ(x)
	if sig := under(t).(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() > 0 {
		return f.ctorLit(x)
	}
	if len(x.Body.List) == 1 {
		if r, ok := x.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
			env := &Env{pkg: f.env.pkg, tsub: f.env.tsub, vars: map[types.Object]*Var{}, parent: f.env, fnkey: f.env.fnkey}
			save := f.env
			f.env = env
			var ps []string
			for _, fl := range x.Type.Params.List {
				for _, nm := range fl.Names {
					o := f.env.pkg.info.Defs[nm]
					rn := f.newName(nm.Name)
					env.vars[o] = &Var{name: rn, rty: f.rty(f.objType(o))}
					ps = append(ps, rn+": "+f.rty(f.objType(o)))
				}
			}
			var val string
			n := f.impure
			b := f.sub(func() { val = f.ex(r.Results[0]) })
			f.env = save
			if len(b) == 0 && n == f.impure {
				return "|" + strings.Join(ps, ", ") + "| " + val
			}
		}
	}
	f.fail(x, "function literal as a value")
	return ""
}

func (f *FT) addrOf(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.addrOf(x.X)
	case *ast.CompositeLit:
		t := f.typ(x)
		v := f.composite(x, t)
		return f.alloc(t, v)
	}
	p := f.place(e)
	return f.addr(p, e)
}

func (f *FT) composite(x *ast.CompositeLit, t types.Type) string {
	if pt, ok := under(t).(*types.Pointer); ok { // elided &T in nested literal
		v := f.composite(x, pt.Elem())
		return f.alloc(pt.Elem(), v)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if u.NumFields() == 0 {
			return "()"
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok {
			f.fail(x, "anonymous struct")
		}
		q := f.g.pkgOf(n.Obj().Pkg())
		if q == nil {
			f.fail(x, "external struct")
		}
		given := map[int]ast.Expr{}
		var order []int
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						given[j] = kv.Value
						order = append(order, j)
					}
				}
			} else {
				given[i] = el
				order = append(order, i)
			}
		}
		vals := f.ordered(len(order), func(k int) string {
			j := order[k]
			return f.exAs(given[j], f.fieldType(n, j))
		})
		got := map[int]string{}
		for k, j := range order {
			got[j] = vals[k]
		}
		var fs []string
		for j := 0; j < u.NumFields(); j++ {
			v, ok := got[j]
			ft := f.fieldType(n, j)
			if !ok {
				v = f.zero(ft)
			}
			if f.g.refField(ft) {
				v = f.alloc(ft, v)
			}
			fs = append(fs, fieldName(u.Field(j).Name())+": "+v)
		}
		return q.name + "::" + rustName(n.Obj().Name()) + "{" + strings.Join(fs, ", ") + "}"
	case *types.Map:
		if len(x.Elts) != 0 {
			f.fail(x, "map literal with elements")
		}
		return f.allocMap(u)
	case *types.Slice:
		var es []ast.Expr
		for _, el := range x.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				f.fail(x, "keyed slice literal")
			}
			es = append(es, el)
		}
		vs := f.ordered(len(es), func(i int) string { return f.exAs(es[i], u.Elem()) })
		return f.newSlice(u.Elem(), vs)
	case *types.Array:
		if len(x.Elts) == 0 {
			return f.zero(t)
		}
	}
	f.fail(x, "composite literal of %s", t)
	return ""
}

func (f *FT) newSlice(el types.Type, vs []string) string {
	path := f.arrPath(el)
	er := f.rty(el)
	seq := "Seq::<" + er + ">::empty()"
	if len(vs) > 0 {
		seq = "seq![" + strings.Join(vs, ", ") + "]"
	}
	r := f.tmpvFresh(path)
	f.swrite(path, fmt.Sprintf("s.%s.insert(%s, %s)", path, r, seq))
	return f.tmpv("Slice", fmt.Sprintf("Slice{arr: %s, off: 0, len: %d, cap: %d}", r, len(vs), len(vs)))
}

func (f *FT) allocMap(u *types.Map) string {
	path := f.mapPath(u)
	r := f.tmpvFresh(path)
	f.swrite(path, fmt.Sprintf("s.%s.insert(%s, Map::<%s,%s>::empty())", path, r, f.rty(u.Key()), f.rty(u.Elem())))
	return r
}

// exAs evaluates e for assignment to type t (composite literals with elided types, nil).
func (f *FT) exAs(e ast.Expr, t types.Type) string {
	if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
		return f.composite(c, t)
	}
	if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
		if _, ok := f.env.pkg.info.Uses[id].(*types.Nil); ok {
			if _, ok := under(t).(*types.Slice); ok {
				return "nil_slice()"
			}
			if it := f.g.itype(t); it != nil {
				return it[1]
			}
			return "0int"
		}
	}
	if _, ok := under(t).(*types.Interface); ok {
		return f.toIface(e, t)
	}
	return f.ex(e)
}

// toIface converts a value to an interface handle.
func (f *FT) toIface(e ast.Expr, t types.Type) string {
	et := f.typ(e)
	if _, ok := under(et).(*types.Interface); ok {
		return f.ex(e)
	}
	if it := f.g.itype(t); it != nil {
		tn := types.Unalias(t).(*types.Named)
		q := f.g.pkgOf(tn.Obj().Pkg())
		key := types.TypeString(et, func(p *types.Package) string { return p.Name() })
		if i := strings.Index(key, "["); i >= 0 {
			key = key[:i]
		}
		if c, ok := q.spec.convs[key]; ok {
			return strings.ReplaceAll(c, "$", f.ex(e))
		}
	} else if _, ok := under(et).(*types.Pointer); ok {
		return f.ex(e)
	}
	// struct embedding the interface (set.Set): the handle of the embedded interface
	if n, ok := types.Unalias(et).(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() {
					if _, ok := under(f.fieldType(n, i)).(*types.Interface); ok {
						// every method of the interface must be the promoted one
						it := under(t).(*types.Interface)
						for m := 0; m < it.NumMethods(); m++ {
							_, ix, _ := types.LookupFieldOrMethod(et, false, f.env.pkg.tpkg, it.Method(m).Name())
							if len(ix) != 2 || ix[0] != i {
								f.fail(e, "%s overrides method %s of the embedded interface", et, it.Method(m).Name())
							}
						}
						return f.ex(e) + "." + fieldName(st.Field(i).Name())
					}
				}
			}
		}
	}
	f.fail(e, "conversion of %s to an interface", et)
	return ""
}

func (f *FT) mapRead(e ast.Expr, u *types.Map) string {
	m := f.ex(e)
	return fmt.Sprintf("mget(%s, %s)", f.sread(f.mapPath(u)), m)
}

func (f *FT) sliceExpr(x *ast.SliceExpr) string {
	t := f.typ(x.X)
	var es []ast.Expr
	es = append(es, x.X)
	for _, b := range []ast.Expr{x.Low, x.High, x.Max} {
		if b != nil {
			es = append(es, b)
		}
	}
	vs := f.exs(es)
	base := vs[0]
	k := 1
	next := func(b ast.Expr, def string) string {
		if b == nil {
			return def
		}
		v := vs[k]
		k++
		return v
	}
	if isStr(t) {
		lo := next(x.Low, "0int")
		hi := next(x.High, base+".len() as int")
		f.ob("slice-in-range", fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s.len()", lo, lo, hi, hi, base), x, true)
		return fmt.Sprintf("%s.subrange(%s, %s)", base, lo, hi)
	}
	if _, ok := under(t).(*types.Slice); !ok {
		f.fail(x, "slicing of %s", t)
	}
	if !isAtom(base) {
		base = f.tmpv("Slice", base)
	}
	lo := next(x.Low, "0int")
	hi := next(x.High, base+".len")
	mx := next(x.Max, base+".cap")
	f.ob("slice-in-range", fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s && %s <= %s.cap", lo, lo, hi, hi, mx, mx, base), x, true)
	return fmt.Sprintf("Slice{arr: %s.arr, off: %s.off + (%s), len: %s - (%s), cap: %s - (%s)}", base, base, lo, hi, lo, mx, lo)
}

func (f *FT) binary(x *ast.BinaryExpr) string {
	switch x.Op {
	case token.LAND, token.LOR:
		l := f.ex(x.X)
		var r string
		im := f.impure
		b := f.sub(func() { f.ind++; r = f.ex(x.Y); f.ind-- })
		if len(b) == 0 && im == f.impure {
			op := "&&"
			if x.Op == token.LOR {
				op = "||"
			}
			return fmt.Sprintf("(%s %s %s)", l, op, r)
		}
		f.tmp++
		t := fmt.Sprintf("t%d", f.tmp)
		f.emit("let mut %s: bool = %s;", t, l)
		if x.Op == token.LAND {
			f.emit("if %s {", t)
		} else {
			f.emit("if !%s {", t)
		}
		f.out = append(f.out, b...)
		f.emit("  %s = %s;", t, r)
		f.emit("}")
		return t
	}
	lt := f.typ(x.X)
	if x.Op == token.EQL || x.Op == token.NEQ {
		// nil comparisons
		l, r := x.X, x.Y
		if f.isNil(l) {
			l, r = r, l
			lt = f.typ(l)
		}
		if f.isNil(r) {
			v := ""
			if id, ok := l.(*ast.Ident); ok {
				if vr, _ := f.lookupVar(id); vr != nil && vr.cb {
					f.fail(x, "nil test of a callback parameter")
				}
			}
			v = f.ex(l)
			if _, ok := under(lt).(*types.Slice); ok {
				v += ".arr"
			}
			if x.Op == token.EQL {
				return fmt.Sprintf("(%s == 0)", v)
			}
			return fmt.Sprintf("(%s != 0)", v)
		}
	}
	vs := f.exs([]ast.Expr{x.X, x.Y})
	if x.Op == token.EQL || x.Op == token.NEQ {
		op := "=="
		if x.Op == token.NEQ {
			op = "!="
		}
		if isFloat(lt) {
			f.fail(x, "float equality")
		}
		if hasIface(lt) || hasIface(f.typ(x.Y)) {
			f.fail(x, "comparison of interface values") // may panic, and depends on the dynamic types
		}
		return fmt.Sprintf("(%s %s %s)", vs[0], op, vs[1])
	}
	return f.arith(x.Op, vs[0], vs[1], lt, x)
}

// hasIface tells whether comparing two values of type t compares interface values or floats inside them.
func hasIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	switch u := under(t).(type) {
	case *types.Interface:
		return true
	case *types.Array:
		return isFloat(u.Elem()) || hasIface(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isFloat(u.Field(i).Type()) || hasIface(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (f *FT) isNil(e ast.Expr) bool {
	if p, ok := e.(*ast.ParenExpr); ok {
		return f.isNil(p.X)
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	_, ok = f.env.pkg.info.Uses[id].(*types.Nil)
	return ok
}

func bits(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// isLocal tells whether e is a local variable that is not a parameter: it counts
// up or down by one from a value of the program.
func (f *FT) isLocal(e ast.Expr) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := f.env.pkg.info.Uses[id].(*types.Var)
	return ok && v.Kind() == types.LocalVar
}

// isCounter tells whether e is a field that counts stored elements or levels: the
// contracts prove what it counts, and memory bounds that number.
func (f *FT) isCounter(e ast.Expr) bool {
	x, ok := ast.Unparen(e).(*ast.SelectorExpr)
	if !ok || !isInt(f.typ(x)) {
		return false
	}
	sel := f.env.pkg.info.Selections[x]
	return sel != nil && sel.Kind() == types.FieldVal && f.p.spec.flags["counter "+x.Sel.Name]
}

func (f *FT) arith(op token.Token, a, b string, t types.Type, n ast.Node) string {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt(t) {
			return fmt.Sprintf("(%s %s %s)", a, op, b)
		}
		switch op {
		case token.LSS:
			return fmt.Sprintf("olt(%s, %s)", a, b)
		case token.GTR:
			return fmt.Sprintf("olt(%s, %s)", b, a)
		case token.LEQ:
			return fmt.Sprintf("ole(%s, %s)", a, b)
		case token.GEQ:
			return fmt.Sprintf("ole(%s, %s)", b, a)
		}
	}
	if isStr(t) && op == token.ADD {
		return fmt.Sprintf("(%s + %s)", a, b)
	}
	if isFloat(t) {
		m := map[token.Token]string{token.ADD: "f64_add", token.SUB: "f64_sub", token.MUL: "f64_mul", token.QUO: "f64_div"}
		if m[op] != "" {
			return fmt.Sprintf("%s(%s, %s)", m[op], a, b)
		}
		f.fail(n, "float operator %s", op)
	}
	if !isInt(t) {
		f.fail(n, "operator %s on %s", op, t)
	}
	uns := isUnsigned(t)
	bt := bits(t)
	var r string
	switch op {
	case token.ADD:
		r = fmt.Sprintf("(%s + %s)", a, b)
	case token.SUB:
		r = fmt.Sprintf("(%s - %s)", a, b)
	case token.MUL:
		r = fmt.Sprintf("(%s * %s)", a, b)
	case token.QUO:
		f.ob("division-by-zero", fmt.Sprintf("%s != 0", b), n, true)
		return fmt.Sprintf("gdiv(%s, %s)", a, b)
	case token.REM:
		f.ob("division-by-zero", fmt.Sprintf("%s != 0", b), n, true)
		return fmt.Sprintf("gmod(%s, %s)", a, b)
	case token.AND:
		return fmt.Sprintf("band(%s, %s)", a, b)
	case token.OR:
		return fmt.Sprintf("bor(%s, %s)", a, b)
	case token.XOR:
		return fmt.Sprintf("bxor(%s, %s)", a, b)
	case token.SHL:
		if k, ok := shiftBy(b, bt); ok {
			return f.arith(token.MUL, a, pow2s(k), t, n)
		}
		if !uns {
			r := fmt.Sprintf("(%s * pow2n(%s))", a, b)
			f.ob("no-overflow", fmt.Sprintf("ib%d(%s)", bt, r), n, false)
			return r
		}
		return fmt.Sprintf("(%s * pow2n(%s)) %% pow2n(%d)", a, b, bt)
	case token.SHR:
		if uns && bt == 64 {
			if k, ok := shiftBy(b, bt); ok && k > 0 && k < 9 {
				f.emit("assert(0 <= %s < %s ==> shr64(%s, %s) == gdiv(%s, %s)) by { let y = (%s) as u64; assert(y >> %du64 == y / %su64) by(bit_vector); }", a, pow2s(64), a, b, a, pow2s(k), a, k, pow2s(k))
			}
			return fmt.Sprintf("shr64(%s, %s)", a, b)
		}
		if k, ok := shiftBy(b, bt); ok {
			// an arithmetic shift rounds down, as / of the logic does
			return fmt.Sprintf("(%s / %s)", a, pow2s(k))
		}
		return fmt.Sprintf("shr(%s, %s)", a, b)
	case token.AND_NOT:
		return fmt.Sprintf("band(%s, bnot(%s))", a, b)
	default:
		f.fail(n, "operator %s", op)
	}
	if uns {
		if op == token.SUB {
			f.ob("no-unsigned-underflow", fmt.Sprintf("%s >= 0", r), n, false)
			return r
		}
		if f.con != nil && f.con.flags["checked"] != "" {
			f.ob("no-overflow", fmt.Sprintf("%s < %s", r, pow2s(bt)), n, false)
			return r
		}
		if bt == 64 {
			if op == token.MUL {
				return fmt.Sprintf("mul64(%s, %s)", a, b)
			}
			return fmt.Sprintf("add64(%s, %s)", a, b)
		}
		return fmt.Sprintf("(%s %% %s)", r, pow2s(bt))
	}
	if !f.counter && !isLit(a) {
		// the operands are values of their type
		f.emit("assume(ib%d(%s) && ib%d(%s));", bt, a, bt, b)
		f.ob("no-overflow", fmt.Sprintf("ib%d(%s)", bt, r), n, false)
	}
	return r
}

// shiftBy reads a constant shift that keeps the power of two in range.
func shiftBy(b string, bt int) (int, bool) {
	k, err := strconv.Atoi(strings.TrimSuffix(b, "int"))
	return k, err == nil && k >= 0 && k < bt-1
}

func isLit(a string) bool {
	_, err := strconv.Atoi(strings.TrimSuffix(a, "int"))
	return err == nil
}

func pow2s(n int) string {
	v := constant.Shift(constant.MakeInt64(1), token.SHL, uint(n))
	return v.ExactString()
}

func (f *FT) convert(e ast.Expr, to types.Type) string {
	from := f.typ(e)
	tv := f.env.pkg.info.Types[e]
	if tv.IsNil() {
		return f.zero(to)
	}
	switch {
	case isInt(to) && (isInt(from) || (tv.Value != nil)):
		v := f.ex(e)
		fb, tb := bits(from), bits(to)
		fu, tu := isUnsigned(from), isUnsigned(to)
		switch {
		case fu == tu && tb >= fb:
			return v
		case fu && !tu && tb > fb:
			return v
		case tu:
			if tb == 64 {
				return fmt.Sprintf("to_u64(%s)", v)
			}
			return fmt.Sprintf("((%s) %% %s)", v, pow2s(tb))
		default:
			if fu && fb == 64 && tb == 64 {
				return fmt.Sprintf("to_i64(%s)", v)
			}
			if tb < 64 && (!fu || fb < 64) {
				return fmt.Sprintf("(((%s) + %s) %% %s - %s)", v, pow2s(tb-1), pow2s(tb), pow2s(tb-1))
			}
			f.fail(e, "conversion %s to %s", from, to)
		}
	case isFloat(to) && isInt(from):
		return fmt.Sprintf("f64_of(%s)", f.ex(e))
	case isStr(to):
		if s, ok := under(from).(*types.Slice); ok && isInt(s.Elem()) && bits(s.Elem()) == 8 {
			v := f.ex(e)
			return fmt.Sprintf("sv(%s, %s)", f.sread(f.arrPath(s.Elem())), v)
		}
		if isStr(from) {
			return f.ex(e)
		}
	}
	if s, ok := under(to).(*types.Slice); ok && isStr(from) && isInt(s.Elem()) && bits(s.Elem()) == 8 {
		v := f.ex(e)
		path := f.arrPath(s.Elem())
		r := f.tmpvFresh(path)
		v = f.tmpv("Seq<int>", v)
		f.emit("assume(%s.len() <= 0x1_0000_0000_0000);", v)
		f.swrite(path, fmt.Sprintf("s.%s.insert(%s, %s)", path, r, v))
		return f.tmpv("Slice", fmt.Sprintf("Slice{arr: %s, off: 0, len: %s.len() as int, cap: %s.len() as int}", r, v, v))
	}
	if f.rty(from) == f.rty(to) && !isInt(to) {
		return f.exAs(e, to)
	}
	f.fail(e, "conversion %s to %s", from, to)
	return ""
}
