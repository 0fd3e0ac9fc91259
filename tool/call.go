package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// operand is one evaluated operand of a call.
type operand struct {
	ev    func() string
	alias *Place
	cb    *Var         // callback passed through or literal
	lit   *ast.FuncLit // closure literal
	env   *Env
}

func (f *FT) evalOps(ops []*operand) []string {
	return f.ordered(len(ops), func(i int) string {
		if ops[i].ev == nil {
			return ""
		}
		return ops[i].ev()
	})
}

func (f *FT) call(x *ast.CallExpr) []string {
	info := f.env.pkg.info
	fun := ast.Unparen(x.Fun)
	if tv := info.Types[fun]; tv.IsType() {
		return []string{f.convert(x.Args[0], subst(tv.Type, f.env.tsub))}
	}
	inst := fun
	switch y := fun.(type) {
	case *ast.IndexExpr:
		if tv := info.Types[y.X]; tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Signature); ok {
				inst = ast.Unparen(y.X)
			}
		}
	case *ast.IndexListExpr:
		inst = ast.Unparen(y.X)
	}
	switch y := inst.(type) {
	case *ast.FuncLit:
		return f.callLit(y, f.env, x)
	case *ast.Ident:
		if b, ok := info.Uses[y].(*types.Builtin); ok {
			return f.builtin(b.Name(), x)
		}
		if v, _ := f.lookupVar(y); v != nil {
			return f.callVar(v, y, x)
		}
		if fo, ok := info.Uses[y].(*types.Func); ok {
			return f.callFunc(fo, y, nil, x)
		}
	case *ast.SelectorExpr:
		sel := info.Selections[y]
		if sel == nil {
			if fo, ok := info.Uses[y.Sel].(*types.Func); ok {
				return f.callFunc(fo, y.Sel, nil, x)
			}
			f.fail(x, "call of %s", y.Sel.Name)
		}
		if sel.Kind() == types.FieldVal {
			// function stored in a field
			ft := f.typ(y)
			return f.callValue(func() string { return f.ex(y) }, ft, x)
		}
		if fo, ok := sel.Obj().(*types.Func); ok {
			return f.callMethod(fo, y, x)
		}
	}
	// computed function value
	return f.callValue(func() string { return f.ex(fun) }, f.typ(fun), x)
}

func (f *FT) callVar(v *Var, id *ast.Ident, x *ast.CallExpr) []string {
	if v.lit != nil {
		return f.callLit(v.lit, v.litEnv, x)
	}
	if v.cb {
		if v.name != "" && v.name != "tr" {
			// another trace
		}
		vs := f.exs(x.Args)
		val := vs[0]
		if len(vs) > 1 {
			val = "(" + strings.Join(vs, ", ") + ")"
		}
		f.setvar("tr", fmt.Sprintf("tr.push(%s)", val))
		return nil
	}
	_, o := f.lookupVar(id)
	return f.callValue(func() string { return f.ex(id) }, f.objType(o), x)
}

// callValue calls a function value: pure functions are spec functions, constructors have a contract, others log an event.
func (f *FT) callValue(fn func() string, t types.Type, x *ast.CallExpr) []string {
	sig := under(t).(*types.Signature)
	np, nr := sig.Params().Len(), sig.Results().Len()
	vs := f.ordered(np+1, func(i int) string {
		if i == 0 {
			return fn()
		}
		return f.exAs(x.Args[i-1], sig.Params().At(i-1).Type())
	})
	if nr > 0 && np > 0 {
		r := "(" + vs[0] + ")(" + strings.Join(vs[1:], ", ") + ")"
		if nr == 1 {
			return []string{r}
		}
		t := f.tmpv("", r)
		var out []string
		for i := 0; i < nr; i++ {
			out = append(out, fmt.Sprintf("%s.%d", t, i))
		}
		return out
	}
	if nr == 0 {
		f.ob("call-of-nil-function", vs[0]+" != 0", x, true)
		path := f.eventPath(sig)
		pre := f.p.spec.prelude
		args := strings.Join(vs, ", ")
		if strings.Contains(pre, "fn callback_ok<") {
			// what holds whenever a callback is invoked
			f.ob("precondition-of-callback", fmt.Sprintf("callback_ok(s, %s)", args), x, false)
		}
		f.swrite(path, fmt.Sprintf("s.%s.push((%s))", path, args))
		if strings.Contains(pre, "fn callback_may<") {
			// what the callback itself may do: it leaves any state the relation allows, doing nothing included
			f.ob("callback-may-do-nothing", fmt.Sprintf("callback_may(s, s, %s)", args), x, false)
			f.tmp++
			c := fmt.Sprintf("cb%d", f.tmp)
			f.emit("let %s = choose|x: %s| callback_may(s, x, %s);", c, f.g.stype(f.p), args)
			for _, m := range f.p.modsOf(strings.Fields(f.p.spec.callbackMods)) {
				f.swrite(m, c+"."+m)
			}
			f.hintAt("callback", false)
		}
		return nil
	}
	// constructor value
	rt := sig.Results().At(0).Type()
	name, con := f.ctorFor(rt, x)
	f.ob("call-of-nil-function", vs[0]+" != 0", x, true)
	return f.callIface(name, con, vs, []string{f.rty(rt)}, x)
}

func (f *FT) callIface(name string, con *Contract, vs []string, rts []string, x ast.Node) []string {
	f.impure++
	f.tmp++
	c := fmt.Sprintf("c%d", f.tmp)
	rn := mangle(name)
	f.hintArgs = vs
	f.hintAt(name, true)
	f.hintArgs = vs
	f.nob++
	f.emit("let %s = %s::%s(s, %s); //@ob %s precondition-of %s", c, f.p.name, rn, strings.Join(vs, ", "), f.g.posOf(x.Pos()), name)
	con.used = true
	f.g.ifaceUse(f.p, name, con)
	n := len(con.results)
	tot := n
	k := 0
	if len(con.mods) > 0 {
		tot++
		k = 1
	}
	get := func(i int) string {
		if tot == 1 {
			return c
		}
		return fmt.Sprintf("%s.%d", c, i)
	}
	if len(con.mods) > 0 {
		for _, m := range f.p.modsOf(con.mods) {
			f.modset[m] = true
			f.readset[m] = true
		}
		f.emit("s = %s;", get(0))
	}
	f.hintAt(name, false)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, get(k+i))
	}
	return out
}

func (f *FT) callFunc(fo *types.Func, id *ast.Ident, recv *operand, x *ast.CallExpr) []string {
	fo = fo.Origin()
	var callee *Fn
	if q := f.g.pkgOf(fo.Pkg()); q != nil {
		callee = q.decls[fo]
	}
	var targs []types.Type
	if ins, ok := f.env.pkg.info.Instances[id]; ok {
		for i := 0; i < ins.TypeArgs.Len(); i++ {
			targs = append(targs, subst(ins.TypeArgs.At(i), f.env.tsub))
		}
	}
	if callee == nil {
		return f.external(fo, targs, x)
	}
	tp := fo.Type().(*types.Signature).TypeParams()
	ts := map[*types.TypeParam]types.Type{}
	for i := range targs {
		ts[tp.At(i)] = targs[i]
	}
	return f.callFn(callee, nil, ts, x)
}

func (f *FT) callMethod(fo *types.Func, y *ast.SelectorExpr, x *ast.CallExpr) []string {
	info := f.env.pkg.info
	sel := info.Selections[y]
	rt := f.typ(y.X)
	index := sel.Index()
	if _, ok := types.Unalias(sel.Recv()).(*types.TypeParam); ok || isTParamPtr(sel.Recv()) {
		// method of a type parameter: resolve on the substituted type
		if _, still := types.Unalias(rt).(*types.TypeParam); still {
			f.fail(x, "method %s of a type parameter", fo.Name())
		}
		obj, ix, _ := types.LookupFieldOrMethod(rt, true, f.env.pkg.tpkg, fo.Name())
		m, ok := obj.(*types.Func)
		if !ok {
			f.fail(x, "method %s of %s", fo.Name(), rt)
		}
		fo = m
		index = ix
	}
	recvT := fo.Type().(*types.Signature).Recv().Type()
	// walk to the embedded receiver
	if _, ok := recvT.Underlying().(*types.Interface); ok {
		return f.ifaceMethod(fo, y, index, x)
	}
	fo = fo.Origin()
	n := recvNamed(fo.Type().(*types.Signature).Recv().Type())
	q := f.g.pkgOf(fo.Pkg())
	if q == nil || q.decls[fo] == nil {
		return f.externalMethod(fo, y, index, x)
	}
	callee := q.decls[fo]
	_, ptrRecv := fo.Type().(*types.Signature).Recv().Type().(*types.Pointer)
	// static type of the receiver expression after the embedding path
	cur := rt
	for k := 0; k < len(index)-1; k++ {
		if p, ok := under(cur).(*types.Pointer); ok {
			cur = p.Elem()
		}
		cur = under(cur).(*types.Struct).Field(index[k]).Type()
	}
	base := cur
	isPtr := false
	if p, ok := types.Unalias(cur).(*types.Pointer); ok {
		base = p.Elem()
		isPtr = true
	}
	ts := map[*types.TypeParam]types.Type{}
	if bn, ok := types.Unalias(base).(*types.Named); ok && n != nil {
		rtp := fo.Type().(*types.Signature).RecvTypeParams()
		for i := 0; rtp != nil && i < rtp.Len(); i++ {
			ts[rtp.At(i)] = bn.TypeArgs().At(i)
		}
	}
	op := &operand{}
	simple := len(index) == 1
	inl := f.inlined(callee, ts)
	switch {
	case ptrRecv && isPtr:
		if simple {
			if al := f.aliasOf(y.X); al != nil && inl {
				op.alias = al
			}
			op.ev = func() string { return f.ex(y.X) }
		} else {
			op.ev = func() string { return f.read(f.selPlace(y, index, len(index)-1)) }
		}
		if op.alias != nil {
			op.ev = nil
		}
	case ptrRecv:
		pl := func() *Place {
			if simple {
				return f.place(y.X)
			}
			return f.selPlace(y, index, len(index)-1)
		}
		op.ev = func() string {
			p := pl()
			if p.kind != "heap" {
				if inl {
					f.bindPlace(p, &order{})
					op.alias = p
					return ""
				}
				return f.addr(p, y)
			}
			return p.ref
		}
	case isPtr:
		op.ev = func() string {
			if simple {
				return f.read(f.derefE(y.X))
			}
			p := f.selPlace(y, index, len(index)-1)
			return f.read(f.deref(f.read(p), cur, y))
		}
	default:
		op.ev = func() string {
			if simple {
				return f.ex(y.X)
			}
			return f.read(f.selPlace(y, index, len(index)-1))
		}
	}
	return f.callFn(callee, op, ts, x)
}

func (f *FT) derefE(e ast.Expr) *Place {
	if al := f.aliasOf(e); al != nil {
		return al
	}
	return f.deref(f.ex(e), f.typ(e), e)
}

func isTParamPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = types.Unalias(p.Elem()).(*types.TypeParam)
	return ok
}

func (f *FT) ifaceMethod(fo *types.Func, y *ast.SelectorExpr, index []int, x *ast.CallExpr) []string {
	sig := fo.Type().(*types.Signature)
	name := ""
	if n := recvNamed(sig.Recv().Type()); n != nil {
		name = n.Obj().Name() + "." + fo.Name()
	}
	con := f.p.spec.ifaces[name]
	if con == nil {
		f.fail(x, "no contract for interface method %s", name)
	}
	ops := []*operand{{ev: func() string {
		if len(index) == 1 {
			return f.ex(y.X)
		}
		return f.read(f.selPlace(y, index, len(index)-1))
	}}}
	var litIdx = -1
	for i := 0; i < sig.Params().Len(); i++ {
		i := i
		pt := sig.Params().At(i).Type()
		if isCallbackSig(pt) {
			litIdx = i
			continue
		}
		if sig.Variadic() && i == sig.Params().Len()-1 && !x.Ellipsis.IsValid() {
			ops = append(ops, &operand{ev: func() string { return f.variadic(x.Args[i:], pt) }})
			continue
		}
		ops = append(ops, &operand{ev: func() string { return f.exAs(x.Args[i], pt) }})
	}
	vs := f.evalOps(ops)
	nilv := "0"
	if it := f.g.itype(sig.Recv().Type()); it != nil {
		nilv = it[1]
	}
	f.ob("nil-interface", vs[0]+" != "+nilv, x, true)
	if litIdx >= 0 {
		// iteration: the contract yields the sequence of calls
		rs := f.callIface(name, con, vs, nil, x)
		f.iterate(x.Args[litIdx], rs[0], vs, con, x)
		return nil
	}
	return f.callIface(name, con, vs, nil, x)
}

func (f *FT) variadic(args []ast.Expr, pt types.Type) string {
	el := under(pt).(*types.Slice).Elem()
	if len(args) == 0 {
		return "nil_slice()"
	}
	vs := f.ordered(len(args), func(i int) string { return f.exAs(args[i], el) })
	return f.newSlice(el, vs)
}

func (f *FT) inlined(callee *Fn, ts map[*types.TypeParam]types.Type) bool {
	return f.contractOf(callee, ts) == nil
}

func (f *FT) contractOf(callee *Fn, ts map[*types.TypeParam]types.Type) *Fn {
	if len(callee.pkg.spec.monos) > 0 {
		if mf := f.g.monoFn(callee, ts, f); mf != nil {
			callee = mf
		}
	}
	if callee.con == nil {
		return nil
	}
	return callee
}

func (f *FT) callFn(callee *Fn, recv *operand, ts map[*types.TypeParam]types.Type, x *ast.CallExpr) []string {
	sig := callee.obj.Type().(*types.Signature)
	cf := f.contractOf(callee, ts)
	var ops []*operand
	if recv != nil {
		ops = append(ops, recv)
	}
	np := sig.Params().Len()
	if len(x.Args) == 1 && np > 1 && !sig.Variadic() {
		// f(g()) with a multi-value g
		c, ok := ast.Unparen(x.Args[0]).(*ast.CallExpr)
		if !ok {
			f.fail(x, "argument count")
		}
		vals := f.call(c)
		for i := range vals {
			v := vals[i]
			ops = append(ops, &operand{ev: func() string { return v }})
		}
	} else {
		for i := 0; i < np; i++ {
			i := i
			pt := subst(sig.Params().At(i).Type(), ts)
			if sig.Variadic() && i == np-1 && !x.Ellipsis.IsValid() {
				ops = append(ops, &operand{ev: func() string { return f.variadic(x.Args[i:], pt) }})
				continue
			}
			a := ast.Unparen(x.Args[i])
			if isCallbackSig(pt) && callee.cbParam(i) {
				if fl, ok := a.(*ast.FuncLit); ok {
					ops = append(ops, &operand{lit: fl, env: f.env})
					continue
				}
				if id, ok := a.(*ast.Ident); ok {
					if v, _ := f.lookupVar(id); v != nil && (v.cb || v.lit != nil) {
						if v.lit != nil {
							ops = append(ops, &operand{lit: v.lit, env: v.litEnv})
						} else {
							ops = append(ops, &operand{cb: v})
						}
						continue
					}
				}
				if cf == nil {
					if fl, ok := a.(*ast.FuncLit); ok {
						_ = fl
					}
				}
				f.fail(a, "callback argument")
			}
			if cf == nil {
				if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
					if _, isLit := ast.Unparen(u.X).(*ast.CompositeLit); !isLit {
						op := &operand{}
						op.ev = func() string {
							p := f.place(u.X)
							if p.kind == "heap" {
								return p.ref
							}
							f.bindPlace(p, &order{})
							op.alias = p
							return ""
						}
						ops = append(ops, op)
						continue
					}
				}
				if al := f.aliasOf(a); al != nil && al.kind != "heap" {
					ops = append(ops, &operand{alias: al})
					continue
				}
			}
			ops = append(ops, &operand{ev: func() string { return f.exAs(a, pt) }})
		}
	}
	vs := f.evalOps(ops)
	if cf == nil {
		return f.inline(callee, ops, vs, ts, x)
	}
	return f.callContract(cf, ops, vs, ts, x)
}

// cbParam: parameter i is used only as a callback that is called or passed on.
func (fn *Fn) cbParam(i int) bool {
	sig := fn.obj.Type().(*types.Signature)
	o := sig.Params().At(i)
	if !isCallbackSig(o.Type()) {
		return false
	}
	ok := true
	allowed := map[*ast.Ident]bool{}
	ast.Inspect(fn.decl.Body, func(n ast.Node) bool {
		if c, is := n.(*ast.CallExpr); is {
			if id, is := ast.Unparen(c.Fun).(*ast.Ident); is {
				allowed[id] = true
			}
			for _, a := range c.Args {
				if id, is := ast.Unparen(a).(*ast.Ident); is {
					allowed[id] = true
				}
			}
		}
		return true
	})
	ast.Inspect(fn.decl.Body, func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is && fn.pkg.info.Uses[id] == o && !allowed[id] {
			ok = false
		}
		return true
	})
	return ok
}

func (f *FT) callContract(cf *Fn, ops []*operand, vs []string, ts map[*types.TypeParam]types.Type, x *ast.CallExpr) []string {
	q := cf.pkg
	sig := f.g.sigOf(cf)
	prefix := q.name + "::"
	path := ""
	var args []string
	sarg := "s"
	if cf.usesS() {
		if q != f.p {
			sub := f.subFor(q, f.stateArgs(cf, ts), x)
			path = sub.name + "."
			sarg = "s." + sub.name
			f.crossSlices(cf, x)
		}
		args = append(args, sarg)
	}
	var cb *operand
	if sig.trace != "" {
		for _, o := range ops {
			if o.cb != nil || o.lit != nil {
				cb = o
			}
		}
		if cb == nil {
			f.fail(x, "callback missing")
		}
		if cb.cb != nil {
			args = append(args, "tr")
		} else {
			args = append(args, "Seq::empty()")
		}
	}
	for i, o := range ops {
		if o.cb != nil || o.lit != nil {
			continue
		}
		if o.alias != nil {
			f.fail(x, "pointer to a local passed to %s", cf.key)
		}
		args = append(args, vs[i])
	}
	f.hintArgs = vs
	f.hintAt(cf.key, true)
	f.impure++
	f.tmp++
	c := fmt.Sprintf("c%d", f.tmp)
	for r := range cf.reads {
		f.readset[path+r] = true
	}
	f.nob++
	f.emit("let %s = %s%s(%s); //@ob %s precondition-of %s.%s", c, prefix, sig.name, strings.Join(args, ", "), f.g.posOf(x.Pos()), q.name, cf.key)
	f.g.callees[f.fn] = append(f.g.callees[f.fn], cf)
	rets := cf.retsS()
	tot := len(sig.results)
	if rets {
		tot++
	}
	if sig.trace != "" {
		tot++
	}
	get := func(i int) string {
		if tot == 1 {
			return c
		}
		return fmt.Sprintf("%s.%d", c, i)
	}
	k := 0
	if rets {
		if path == "" {
			f.emit("s = %s;", get(0))
		} else {
			f.emit("%s = %s;", sarg, get(0))
		}
		for m := range cf.mod {
			f.modset[path+m] = true
			f.readset[path+m] = true
		}
		k = 1
	}
	var out []string
	for range sig.results {
		out = append(out, get(k))
		k++
	}
	if cf.con.flags["counts"] != "" {
		f.emit("assume(is_count(%s));", out[0])
	}
	if sig.trace != "" {
		if cb.cb != nil {
			f.setvar("tr", get(k))
			f.hintAt(cf.key, false)
		} else {
			f.hintAt(cf.key, false)
			f.replay(cb.lit, cb.env, get(k), cf, path, args, x)
		}
	} else {
		f.hintAt(cf.key, false)
	}
	return out
}

// crossSlices refuses slices that would cross between two packages' array heaps.
func (f *FT) crossSlices(cf *Fn, x ast.Node) {
	sig := cf.obj.Type().(*types.Signature)
	chk := func(t types.Type) {
		if _, ok := under(t).(*types.Slice); ok {
			f.fail(x, "slice passed between packages")
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		chk(sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		chk(sig.Results().At(i).Type())
	}
}

// iterate replays a closure over the sequence of calls given by an interface contract.
func (f *FT) iterate(a ast.Expr, seq string, vs []string, con *Contract, x *ast.CallExpr) {
	a = ast.Unparen(a)
	if id, ok := a.(*ast.Ident); ok {
		if v, _ := f.lookupVar(id); v != nil {
			if v.cb {
				f.setvar("tr", fmt.Sprintf("tr + %s", seq))
				return
			}
			if v.lit != nil {
				pre := fmt.Sprintf("itpre%d", f.loopN+1)
				if len(con.stable) > 0 {
					f.emit("let %s = s;", pre)
				}
				f.replayG(v.lit, v.litEnv, seq, x, func() { f.stableIface(con, vs, pre, x) })
				return
			}
		}
	}
	fl, ok := a.(*ast.FuncLit)
	if !ok {
		f.fail(a, "callback argument")
	}
	pre := fmt.Sprintf("itpre%d", f.loopN+1)
	if len(con.stable) > 0 {
		f.emit("let %s = s;", pre)
	}
	f.replayG(fl, f.env, seq, x, func() { f.stableIface(con, vs, pre, x) })
}

// stableIface asserts that the closure did not disturb the iteration.
func (f *FT) stableIface(con *Contract, vs []string, pre string, x ast.Node) {
	for _, c := range con.stable {
		t := replaceIdent(c.text, "s0", pre)
		for i, p := range con.params {
			if i < len(vs) {
				t = replaceIdent(t, p, vs[i])
			}
		}
		f.ob("iteration-undisturbed", strings.ReplaceAll(t, "\n", " "), x, false)
	}
}

func replaceIdent(t, name, val string) string {
	return identRe.ReplaceAllStringFunc(t, func(m string) string {
		if m == name {
			return val
		}
		return m
	})
}

// replay runs a closure literal over the trace returned by a contracted iteration function.
func (f *FT) replay(fl *ast.FuncLit, env *Env, seq string, cf *Fn, path string, args []string, x ast.Node) {
	k := f.loopN + 1
	pre := fmt.Sprintf("itpre%d", k)
	if len(cf.con.stable) > 0 {
		f.emit("let %s = s;", pre)
	}
	f.replayG(fl, env, seq, x, func() {
		sig := f.g.sigOf(cf)
		for _, c := range cf.con.stable {
			t := c.text
			off := 0
			if cf.usesS() {
				off = 1
			}
			if sig.trace != "" {
				off++
			}
			t = replaceIdent(t, "s", strings.TrimSuffix("s."+path, "."))
			t = replaceIdent(t, "s0", strings.TrimSuffix(pre+"."+path, "."))
			for i, p := range sig.params {
				t = replaceIdent(t, p.name, args[off+i])
			}
			f.ob("iteration-undisturbed", strings.ReplaceAll(t, "\n", " "), x, false)
		}
	})
	if len(cf.con.stable) == 0 {
		// the closure must not touch what the iteration reads
		for m := range f.lastReplayMods {
			for r := range cf.reads {
				if m == path+r {
					f.fail(x, "the callback modifies %s, which the iteration reads", m)
				}
			}
		}
	}
	if len(cf.mod) > 0 && (len(f.lastReplayMods) > 0 || len(f.lastReplayReads) > 0) {
		for m := range cf.mod {
			if f.lastReplayMods[path+m] || f.lastReplayReads[path+m] {
				f.fail(x, "the iteration modifies %s, which the callback uses", m)
			}
		}
	}
}

func (f *FT) replayG(fl *ast.FuncLit, env *Env, seq string, x ast.Node, after func()) {
	sp, k := f.loopSpec()
	it := fmt.Sprintf("it%d", k)
	ctr := fmt.Sprintf("ctr%d", k)
	sig := under(f.env.pkg.typeOfLit(fl, env)).(*types.Signature)
	np := sig.Params().Len()
	var els []string
	for i := 0; i < np; i++ {
		els = append(els, f.rty(subst(sig.Params().At(i).Type(), env.tsub)))
	}
	et := els[0]
	if np > 1 {
		et = "(" + strings.Join(els, ", ") + ")"
	}
	f.emit("let %s: Seq<%s> = %s;", ctr, et, seq)
	f.emit("let mut %s: int = 0;", it)
	f.loopName(ctr, true)
	f.loopName(it, true)
	sm, sr := f.modset, f.readset
	f.modset, f.readset = map[string]bool{}, map[string]bool{}
	auto := []Clause{{text: fmt.Sprintf("0 <= %s && %s <= %s.len()", it, it, ctr)}}
	fl2 := f.genLoop(x, "", sp, k, auto, fmt.Sprintf("%s.len() - %s", ctr, it), []string{it},
		func() string { return fmt.Sprintf("%s < %s.len()", it, ctr) },
		func() flags {
			var vs []string
			for i := 0; i < np; i++ {
				if np == 1 {
					vs = append(vs, fmt.Sprintf("%s[%s]", ctr, it))
				} else {
					vs = append(vs, fmt.Sprintf("%s[%s].%d", ctr, it, i))
				}
			}
			f.callLitVals(fl, env, vs)
			if after != nil {
				after()
			}
			return nil
		}, func() { f.emit("%s = %s + 1;", it, it) })
	_ = fl2
	f.lastReplayMods, f.lastReplayReads = f.modset, f.readset
	for m := range f.modset {
		sm[m] = true
	}
	for m := range f.readset {
		sr[m] = true
	}
	f.modset, f.readset = sm, sr
}

func (p *Pkg) typeOfLit(fl *ast.FuncLit, env *Env) types.Type {
	return env.pkg.info.Types[fl].Type
}

func (f *FT) callLit(fl *ast.FuncLit, env *Env, x *ast.CallExpr) []string {
	vs := f.exs(x.Args)
	return f.callLitVals(fl, env, vs)
}

// callLitVals inlines the body of a function literal.
func (f *FT) callLitVals(fl *ast.FuncLit, env *Env, vs []string) []string {
	sig := env.pkg.info.Types[fl].Type.Underlying().(*types.Signature)
	ne := &Env{pkg: env.pkg, tsub: env.tsub, vars: map[types.Object]*Var{}, parent: env, fnkey: env.fnkey, sig: sig, boxed: boxedVars(f, env.pkg, fl.Body)}
	return f.inlineBody(ne, fl.Type, nil, fl.Body, sig, nil, vs, nil)
}

func (f *FT) inline(callee *Fn, ops []*operand, vs []string, ts map[*types.TypeParam]types.Type, x ast.Node) []string {
	f.depth++
	if f.depth > 12 {
		f.fail(x, "%s is recursive and has no contract", callee.key)
	}
	defer func() { f.depth-- }()
	f.g.inlinedIn(f.fn, callee)
	sig := callee.obj.Type().(*types.Signature)
	ne := &Env{pkg: callee.pkg, tsub: ts, vars: map[types.Object]*Var{}, fnkey: callee.key, sig: sig, boxed: boxedVars(f, callee.pkg, callee.decl.Body)}
	var recv *ast.FieldList
	if callee.decl.Recv != nil {
		recv = callee.decl.Recv
	}
	return f.inlineBody(ne, callee.decl.Type, recv, callee.decl.Body, sig, ops, vs, x)
}

func (f *FT) inlineBody(ne *Env, ft *ast.FuncType, recv *ast.FieldList, body *ast.BlockStmt, sig *types.Signature, ops []*operand, vs []string, x ast.Node) []string {
	save := f.env
	// bind arguments (evaluated already in the caller's environment)
	var ids []*ast.Ident
	if recv != nil {
		if len(recv.List) > 0 && len(recv.List[0].Names) > 0 {
			ids = append(ids, recv.List[0].Names[0])
		} else {
			ids = append(ids, nil)
		}
	}
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			ids = append(ids, nil)
		}
		for _, n := range fl.Names {
			ids = append(ids, n)
		}
	}
	nscope := len(f.scopeVars)
	f.env = ne
	// results
	rt := &RetTarget{}
	n := sig.Results().Len()
	f.tmp++
	base := f.tmp
	for i := 0; i < n; i++ {
		v := fmt.Sprintf("r%d_%d", base, i)
		rty := f.rty(subst(sig.Results().At(i).Type(), ne.tsub))
		f.emit("let mut %s: %s = havoc();", v, rty)
		rt.vars = append(rt.vars, v)
	}
	if !onlyTailReturn(body) {
		rt.flag = f.newFlag("ret")
	}
	ne.ret = rt
	f.emit("{")
	f.ind++
	for i, id := range ids {
		if id == nil || id.Name == "_" {
			continue
		}
		o := ne.pkg.info.Defs[id]
		if ops != nil {
			op := ops[i]
			switch {
			case op.alias != nil:
				ne.vars[o] = &Var{alias: op.alias}
				continue
			case op.cb != nil:
				ne.vars[o] = op.cb
				continue
			case op.lit != nil:
				ne.vars[o] = &Var{lit: op.lit, litEnv: op.env}
				continue
			}
		}
		if cbv, ok := callbackHandle(o); ok && cbv && false {
			continue
		}
		f.declareObj(o, id.Name, vs[i])
	}
	f.bindResults(ne, ft)
	fl := f.block(body.List)
	delete(fl, rt.flag)
	if n > 0 && len(ft.Results.List) > 0 && len(ft.Results.List[0].Names) > 0 && rt.flag == "" && !endsInReturn(body) {
		_ = fl
	}
	f.ind--
	f.emit("}")
	f.env = save
	f.scopeVars = f.scopeVars[:nscope]
	return rt.vars
}

func callbackHandle(o types.Object) (bool, bool) { return false, false }

func (f *FT) bindResults(ne *Env, ft *ast.FuncType) {
	if ft.Results == nil {
		return
	}
	for _, fl := range ft.Results.List {
		for _, nm := range fl.Names {
			o := ne.pkg.info.Defs[nm]
			if o == nil || nm.Name == "_" {
				// unnamed result placeholder
				if o != nil {
					f.declareObj(o, "res", f.zero(f.objType(o)))
					ne.results = append(ne.results, o)
				}
				continue
			}
			f.declareObj(o, nm.Name, f.zero(f.objType(o)))
			ne.results = append(ne.results, o)
			ne.named = true
		}
	}
}

func endsInReturn(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}

// onlyTailReturn: the body's only return statement is its last statement.
func onlyTailReturn(b *ast.BlockStmt) bool {
	n := 0
	ast.Inspect(b, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			n++
		}
		return true
	})
	return n == 0 || (n == 1 && endsInReturn(b))
}

// boxedVars finds locals whose address escapes to a contracted function or a variable.
func boxedVars(f *FT, p *Pkg, body ast.Node) map[types.Object]bool {
	res := map[types.Object]bool{}
	info := p.info
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id, ok := ast.Unparen(x.X).(*ast.Ident); ok {
					if o := info.Uses[id]; o != nil {
						res[o] = true
					}
				}
			}
		case *ast.CallExpr:
			// an address passed to an inlined function is handled by aliasing
			if y, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
				sel := info.Selections[y]
				if sel != nil && sel.Kind() == types.MethodVal && len(sel.Index()) == 1 {
					fo, _ := sel.Obj().(*types.Func)
					if fo == nil {
						return true
					}
					fo = fo.Origin()
					r := fo.Type().(*types.Signature).Recv()
					if _, ok := r.Type().(*types.Pointer); !ok {
						return true
					}
					id, ok := ast.Unparen(y.X).(*ast.Ident)
					if !ok {
						return true
					}
					o := info.Uses[id]
					if o == nil {
						return true
					}
					if _, ok := o.Type().Underlying().(*types.Pointer); ok {
						return true
					}
					if q := f.g.pkgOf(fo.Pkg()); q != nil && q.decls[fo] != nil && q.decls[fo].con != nil {
						res[o] = true
					}
				}
			}
		}
		return true
	})
	return res
}

// ---- builtins

func (f *FT) builtin(name string, x *ast.CallExpr) []string {
	one := func(s string) []string { return []string{s} }
	switch name {
	case "len", "cap":
		t := f.typ(x.Args[0])
		switch u := under(t).(type) {
		case *types.Slice:
			v := f.ex(x.Args[0]) + "." + name
			f.emit("assume(is_len(%s));", v)
			return one(v)
		case *types.Array:
			return one(fmt.Sprintf("%dint", u.Len()))
		case *types.Map:
			v := "(" + f.mapRead(x.Args[0], u) + ".dom().len() as int)"
			f.emit("assume(is_count(%s));", v)
			return one(v)
		case *types.Basic:
			v := "(" + f.ex(x.Args[0]) + ".len() as int)"
			f.emit("assume(is_count(%s));", v)
			return one(v)
		}
	case "append":
		st := under(f.typ(x.Args[0])).(*types.Slice)
		path := f.arrPath(st.Elem())
		if len(x.Args) == 1 {
			return one(f.ex(x.Args[0]))
		}
		var vs []string
		if x.Ellipsis.IsValid() {
			vs = f.exs(x.Args)
			if isStr(f.typ(x.Args[1])) {
			} else {
				vs[1] = fmt.Sprintf("sv(%s, %s)", f.sread(path), vs[1])
			}
		} else {
			vs = f.ordered(len(x.Args), func(i int) string {
				if i == 0 {
					return f.ex(x.Args[0])
				}
				return f.exAs(x.Args[i], st.Elem())
			})
			vs = []string{vs[0], "seq![" + strings.Join(vs[1:], ", ") + "]"}
		}
		f.tmp++
		c := fmt.Sprintf("c%d", f.tmp)
		f.nob++
		f.hintAt("append", true)
		f.emit("let %s = append_seq(%s, %s, %s); //@ob %s slice-well-formed", c, f.sread(path), vs[0], vs[1], f.g.posOf(x.Pos()))
		f.swrite(path, c+".0")
		f.hintAt("append", false)
		return one(c + ".1")
	case "copy":
		if _, _, _, ok := f.arraySliceOf(x.Args[0]); ok {
			return one(f.copyToArray(x))
		}
		st := under(f.typ(x.Args[0])).(*types.Slice)
		path := f.arrPath(st.Elem())
		vs := f.exs(x.Args)
		if !isStr(f.typ(x.Args[1])) {
			vs[1] = fmt.Sprintf("sv(%s, %s)", f.sread(path), vs[1])
		}
		f.tmp++
		c := fmt.Sprintf("c%d", f.tmp)
		f.nob++
		f.hintAt("copy", true)
		f.emit("let %s = copy_seq(%s, %s, %s); //@ob %s slice-well-formed", c, f.sread(path), vs[0], vs[1], f.g.posOf(x.Pos()))
		f.swrite(path, c+".0")
		f.hintAt("copy", false)
		return one(c + ".1")
	case "make":
		t := f.typ(x.Args[0])
		switch u := under(t).(type) {
		case *types.Slice:
			vs := f.exs(x.Args[1:])
			for i := range vs {
				vs[i] = f.tmpv("int", vs[i])
			}
			ln := vs[0]
			cp := ln
			if len(vs) > 1 {
				cp = vs[1]
			}
			f.ob("make-length-in-range", fmt.Sprintf("0 <= %s && %s <= %s", ln, ln, cp), x, true)
			f.g.trust("no slice has more than 2^48 elements (a larger allocation does not succeed; of slices of zero-size elements this is an assumption on the user)")
			f.emit("assume(%s <= 0x1_0000_0000_0000);", cp)
			path := f.arrPath(u.Elem())
			z := f.zero(u.Elem())
			r := f.tmpvFresh(path)
			f.swrite(path, fmt.Sprintf("s.%s.insert(%s, Seq::new(%s as nat, |i: int| %s))", path, r, cp, z))
			return one(f.tmpv("Slice", fmt.Sprintf("Slice{arr: %s, off: 0, len: %s, cap: %s}", r, ln, cp)))
		case *types.Map:
			if len(x.Args) > 1 {
				f.ex(x.Args[1])
			}
			return one(f.allocMap(u))
		}
	case "new":
		t := f.typ(x.Args[0])
		return one(f.alloc(t, f.zero(t)))
	case "delete":
		u := under(f.typ(x.Args[0])).(*types.Map)
		vs := f.exs(x.Args)
		path := f.mapPath(u)
		m := f.tmpv("int", vs[0])
		f.emit("if %s != 0 {", m)
		f.ind++
		f.swrite(path, fmt.Sprintf("s.%s.insert(%s, s.%s[%s].remove(%s))", path, m, path, m, vs[1]))
		f.ind--
		f.emit("}")
		return nil
	case "panic":
		if f.panMode {
			f.emit("assert(s == s0); //@ob %s panic-frame panic", f.g.posOf(x.Pos()))
			f.emit("assume(false);")
			f.emit("return havoc();")
		} else {
			f.nob++
			f.emit("assert(false); //@ob %s panic-unreachable", f.g.posOf(x.Pos()))
			f.emit("return havoc();")
		}
		return nil
	case "min", "max":
		vs := f.exs(x.Args)
		if !isInt(f.typ(x)) {
			break
		}
		r := vs[0]
		for _, v := range vs[1:] {
			op := "<="
			if name == "max" {
				op = ">="
			}
			r = fmt.Sprintf("(if %s %s %s { %s } else { %s })", r, op, v, r, v)
		}
		return one(r)
	}
	f.fail(x, "builtin %s", name)
	return nil
}

// ---- functions outside the repository

// dep records that the caller depends on a function of a dependency: its source is
// verified against the contract the call uses, or else that contract is trusted.
func (f *FT) dep(fo *types.Func, contract, pre string, x ast.Node) {
	if n := depNames[fo.Pkg().Path()]; n != "" {
		for _, p := range f.g.pkgs {
			if p.name == n {
				if fn := p.fns[fo.Name()]; fn != nil && fn.con != nil {
					f.g.callees[f.fn] = append(f.g.callees[f.fn], fn)
					f.nob++
					f.emit("assert(%s); //@ob %s precondition-of %s.%s", pre, f.g.posOf(x.Pos()), n, fo.Name())
					return
				}
			}
		}
	}
	f.g.trust(fo.Pkg().Name() + "." + fo.Name() + " (" + contract + ")")
}

func (f *FT) external(fo *types.Func, targs []types.Type, x *ast.CallExpr) []string {
	full := fo.Pkg().Path() + "." + fo.Name()
	switch full {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		for _, a := range x.Args {
			f.ex(a)
		}
		f.g.trust("fmt." + fo.Name() + " (result left arbitrary)")
		f.tmp++
		n := fmt.Sprintf("t%d", f.tmp)
		f.impure++
		f.emit("let %s: Seq<int> = havoc();", n)
		return []string{n}
	case "github.com/segmentio/fasthash/fnv1a.HashBytes64":
		vs := f.exs(x.Args)
		f.dep(fo, "the FNV-1a hash of the bytes", fmt.Sprintf("slwf(%s, %s)", f.sread(f.arrPath(types.Typ[types.Uint8])), vs[0]), x)
		return []string{fmt.Sprintf("fnv_hash(sv(%s, %s))", f.sread(f.arrPath(types.Typ[types.Uint8])), vs[0])}
	case "github.com/segmentio/fasthash/fnv1a.HashString64":
		vs := f.exs(x.Args)
		f.dep(fo, "the FNV-1a hash of the bytes", "true", x)
		return []string{fmt.Sprintf("fnv_hash(%s)", vs[0])}
	case "golang.org/x/exp/maps.Clone", "maps.Clone":
		u := under(f.typ(x.Args[0])).(*types.Map)
		m := f.tmpv("int", f.ex(x.Args[0]))
		path := f.mapPath(u)
		f.dep(fo, "a fresh map with the same entries", fmt.Sprintf("%s == 0 || s.%s.dom().contains(%s)", m, path, m), x)
		f.tmp++
		n := fmt.Sprintf("t%d", f.tmp)
		f.impure++
		if fo.Pkg().Path() == "maps" { // nil stays nil
			f.emit("let mut %s: int = 0;", n)
			f.emit("if %s != 0 {", m)
			f.ind++
			f.emit("%s = fresh(%s);", n, f.sread(path))
			f.swrite(path, fmt.Sprintf("s.%s.insert(%s, s.%s[%s])", path, n, path, m))
			f.ind--
			f.emit("}")
		} else {
			f.emit("let %s: int = fresh(%s);", n, f.sread(path))
			f.swrite(path, fmt.Sprintf("s.%s.insert(%s, mget(s.%s, %s))", path, n, path, m))
		}
		return []string{n}
	case "golang.org/x/exp/maps.Clear", "maps.Clear":
		u := under(f.typ(x.Args[0])).(*types.Map)
		m := f.tmpv("int", f.ex(x.Args[0]))
		path := f.mapPath(u)
		f.dep(fo, "removes every entry", fmt.Sprintf("%s == 0 || s.%s.dom().contains(%s)", m, path, m), x)
		f.clearMap(m, path, u)
		return nil
	case "golang.org/x/exp/slices.Index", "slices.Index":
		u := under(f.typ(x.Args[0])).(*types.Slice)
		vs := f.exs(x.Args)
		f.dep(fo, "index of the first equal element, or -1", fmt.Sprintf("slwf(%s, %s)", f.sread(f.arrPath(u.Elem())), vs[0]), x)
		return []string{f.tmpv("int", fmt.Sprintf("slices_index(sv(%s, %s), %s)", f.sread(f.arrPath(u.Elem())), vs[0], vs[1]))}
	case "sort.Strings", "golang.org/x/exp/slices.Sort", "strings.Join":
	}
	f.fail(x, "call of external function %s", full)
	return nil
}

func (f *FT) externalMethod(fo *types.Func, y *ast.SelectorExpr, index []int, x *ast.CallExpr) []string {
	f.fail(x, "call of external method %s", fo.FullName())
	return nil
}

// hasSize: values of type t take up memory whatever its type arguments are.

func (f *FT) clearMap(m, path string, u *types.Map) {
	f.emit("if %s != 0 {", m)
	f.ind++
	f.swrite(path, fmt.Sprintf("s.%s.insert(%s, Map::<%s,%s>::empty())", path, m, f.rty(u.Key()), f.rty(u.Elem())))
	f.ind--
	f.emit("}")
}
