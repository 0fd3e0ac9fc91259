package main

// Slices of arrays and other forms the code may be rewritten to.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// arraySliceOf recognises a[lo:hi] of an array a.
func (f *FT) arraySliceOf(e ast.Expr) (sx *ast.SliceExpr, at *types.Array, _ any, ok bool) {
	sx, ok = ast.Unparen(e).(*ast.SliceExpr)
	if !ok || sx.Max != nil {
		return nil, nil, nil, false
	}
	at, ok = under(f.typ(sx.X)).(*types.Array)
	return sx, at, nil, ok
}

func (f *FT) arraySlice(e ast.Expr) (base *Place, lo, hi string, ok bool) {
	sx, at, _, ok := f.arraySliceOf(e)
	if !ok {
		return nil, "", "", false
	}
	base = f.place(sx.X)
	f.bindPlace(base, &order{})
	lo, hi = "0int", fmt.Sprintf("%dint", at.Len())
	if sx.Low != nil {
		lo = f.tmpv("int", f.ex(sx.Low))
	}
	if sx.High != nil {
		hi = f.tmpv("int", f.ex(sx.High))
	}
	f.ob("slice-in-range", fmt.Sprintf("0 <= %s && %s <= %s && %s <= %d", lo, lo, hi, hi, at.Len()), e, true)
	return base, lo, hi, true
}

// copyToArray is copy(a[lo:hi], src) where a is an array.
func (f *FT) copyToArray(x *ast.CallExpr) string {
	sx, at, _, _ := f.arraySliceOf(x.Args[0])
	_ = sx
	base, lo, hi, _ := f.arraySlice(x.Args[0])
	el := f.rty(at.Elem())
	var src string
	if b2, lo2, hi2, ok := f.arraySlice(x.Args[1]); ok {
		src = fmt.Sprintf("%s.subrange(%s, %s)", f.read(b2), lo2, hi2)
	} else {
		st := under(f.typ(x.Args[1])).(*types.Slice)
		src = fmt.Sprintf("sv(%s, %s)", f.sread(f.arrPath(st.Elem())), f.ex(x.Args[1]))
	}
	src = f.tmpv("Seq<"+el+">", src)
	n := f.tmpv("int", fmt.Sprintf("if %s.len() < %s - %s { %s.len() as int } else { %s - %s }", src, hi, lo, src, hi, lo))
	old := f.tmpv("Seq<"+el+">", f.read(base))
	f.hintAt("copy", true)
	f.write(base, fmt.Sprintf("Seq::new(%s.len(), |i: int| if %s <= i < %s + %s { %s[i - %s] } else { %s[i] })", old, lo, lo, n, src, lo, old))
	f.hintAt("copy", false)
	return n
}

// localAlias: p := &place, where p is only ever dereferenced, stands for that place.
func (f *FT) localAlias(id *ast.Ident, u *ast.UnaryExpr) bool {
	switch ast.Unparen(u.X).(type) {
	case *ast.IndexExpr, *ast.SelectorExpr:
	default:
		return false
	}
	info := f.env.pkg.info
	o := info.Defs[id]
	if o == nil || f.env.boxed[o] {
		return false
	}
	ok := true
	uses := map[*ast.Ident]bool{}
	for _, file := range f.env.pkg.files {
		if file.Pos() <= id.Pos() && id.Pos() < file.End() {
			ast.Inspect(file, func(n ast.Node) bool {
				switch y := n.(type) {
				case *ast.SelectorExpr:
					if i, isId := y.X.(*ast.Ident); isId && info.Uses[i] == o {
						if s := info.Selections[y]; s != nil && s.Kind() == types.FieldVal {
							uses[i] = true
						}
					}
				case *ast.IndexExpr:
					if i, isId := ast.Unparen(y.X).(*ast.Ident); isId && info.Uses[i] == o {
						uses[i] = true
					}
				case *ast.StarExpr:
					if i, isId := ast.Unparen(y.X).(*ast.Ident); isId && info.Uses[i] == o {
						uses[i] = true
					}
				case *ast.Ident:
					if info.Uses[y] == o && !uses[y] {
						ok = false
					}
				}
				return true
			})
		}
	}
	if !ok {
		return false
	}
	var p *Place
	im := f.impure
	out := f.sub(func() { p = f.place(ast.Unparen(u.X)) })
	if p.kind != "elem" && p.kind != "slice" && p.kind != "field" {
		f.impure = im
		return false
	}
	f.out = append(f.out, out...)
	f.bindPlace(p, &order{})
	f.env.vars[o] = &Var{alias: p}
	return true
}

// rangeLit runs a loop over a literal list once per element.
func (f *FT) rangeLit(x *ast.RangeStmt, label string) (flags, bool) {
	cl, ok := ast.Unparen(x.X).(*ast.CompositeLit)
	if !ok || len(cl.Elts) == 0 || len(cl.Elts) > 8 || x.Tok != token.DEFINE {
		return nil, false
	}
	var el types.Type
	switch u := under(f.typ(x.X)).(type) {
	case *types.Slice:
		el = u.Elem()
	case *types.Array:
		if int(u.Len()) != len(cl.Elts) {
			return nil, false
		}
		el = u.Elem()
	default:
		return nil, false
	}
	var vals []string
	for _, e := range cl.Elts {
		if _, kv := e.(*ast.KeyValueExpr); kv {
			return nil, false
		}
		if c, isLit := e.(*ast.CompositeLit); isLit && c.Type == nil {
			return nil, false
		}
	}
	for _, e := range cl.Elts {
		vals = append(vals, f.tmpv(f.rty(el), f.exAs(e, el)))
	}
	n := len(f.scopeVars)
	f.emit("{")
	f.ind++
	brk := f.newFlag("brk")
	all := flags{}
	closers := 0
	for i, v := range vals {
		cont := f.newFlag("cnt")
		f.env.regions = append(f.env.regions, &Region{label: label, brk: brk, cont: cont, loop: true})
		f.emit("{")
		f.ind++
		m := len(f.scopeVars)
		if kid, ok := x.Key.(*ast.Ident); ok && kid.Name != "_" {
			f.declare(kid, fmt.Sprintf("%dint", i))
		}
		if vid, ok := x.Value.(*ast.Ident); ok && vid.Name != "_" {
			f.declare(vid, v)
		}
		fl := f.stmts(x.Body.List)
		f.scopeVars = f.scopeVars[:m]
		f.ind--
		f.emit("}")
		f.env.regions = f.env.regions[:len(f.env.regions)-1]
		delete(fl, cont)
		all.add(fl)
		if len(fl) > 0 && i+1 < len(vals) {
			f.emit("if !(%s) {", joinOr(fl))
			f.ind++
			closers++
		}
	}
	for ; closers > 0; closers-- {
		f.ind--
		f.emit("}")
	}
	f.ind--
	f.emit("}")
	f.scopeVars = f.scopeVars[:n]
	delete(all, brk)
	return all, true
}

func joinOr(fl flags) string {
	s := ""
	for i, x := range fl.list() {
		if i > 0 {
			s += " || "
		}
		s += x
	}
	return s
}
