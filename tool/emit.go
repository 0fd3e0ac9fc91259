package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Gen struct {
	l       *Loader
	used    map[*types.Named][]bool
	floats  map[string]int
	globals map[string]string
	callees map[*Fn][]*Fn
	inl     map[*Fn]map[string]bool
	trusted map[string]bool
	pkgs    []*Pkg
	vacuity bool
	nohints map[string]bool
	degrade map[string]bool
	ifused  map[string]bool
	notes   []string
	drops   map[string]bool
	locals  map[string]*FnRec
	recs    map[string]*FnRec
}

func (g *Gen) trust(s string) { g.trusted[s] = true }

func (g *Gen) inlinedIn(fn, callee *Fn) {
	if g.inl[fn] == nil {
		g.inl[fn] = map[string]bool{}
	}
	g.inl[fn][callee.pkg.name+"."+callee.key] = true
}

func (g *Gen) ifaceUse(p *Pkg, name string, con *Contract) { g.ifused[p.name+"::"+name] = true }

// ctorFor finds the contract of constructor values with result type t.
func (f *FT) ctorFor(t types.Type, x ast.Node) (string, *Contract) {
	ty := types.TypeString(t, func(*types.Package) string { return "" })
	if i := strings.Index(ty, "["); i >= 0 {
		ty = ty[:i]
	}
	for _, n := range f.p.spec.iorder {
		if c := f.p.spec.ifaces[n]; c.flags["ctor"] == ty {
			return n, c
		}
	}
	f.fail(x, "no contract for constructor values of type func() %s", ty)
	return "", nil
}

// ctorLit is the value of a function literal without parameters: a new closure object. Its body is
// verified on the spot, in an arbitrary state, against the contract that every caller of such a value assumes.
func (f *FT) ctorLit(x *ast.FuncLit) string {
	sig := under(f.typ(x)).(*types.Signature)
	if sig.Results().Len() != 1 {
		f.fail(x, "constructor closure with several results")
	}
	rt := subst(sig.Results().At(0).Type(), f.env.tsub)
	name, con := f.ctorFor(rt, x)
	con.used = true
	f.g.ifaceUse(f.p, name, con)
	// captured variables, in order of first use
	var caps []string
	seen := map[types.Object]bool{}
	ast.Inspect(x.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, o := f.lookupVar(id)
		if v == nil || seen[o] || o.Pos() >= x.Pos() && o.Pos() < x.End() {
			return true
		}
		seen[o] = true
		if v.name == "" || v.boxed || v.alias != nil || v.cb || v.lit != nil {
			f.fail(id, "captured variable %s", id.Name)
		}
		caps = append(caps, v.name)
		return true
	})
	bad := false
	if f.fn.decl != nil {
		ast.Inspect(f.fn.decl, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, ok := l.(*ast.Ident); ok && seen[f.env.pkg.info.Uses[id]] {
						bad = true
					}
				}
			case *ast.IncDecStmt:
				if id, ok := y.X.(*ast.Ident); ok && seen[f.env.pkg.info.Uses[id]] {
					bad = true
				}
			case *ast.UnaryExpr:
				if id, ok := y.X.(*ast.Ident); ok && y.Op == token.AND && seen[f.env.pkg.info.Uses[id]] {
					bad = true
				}
			}
			return true
		})
	}
	if bad {
		f.fail(x, "the closure captures a variable that changes")
	}
	f.impure++
	f.tmp++
	v := fmt.Sprintf("t%d", f.tmp)
	heap := con.flags["heap"]
	capv := "(" + strings.Join(caps, ", ") + ")"
	if len(caps) == 1 {
		capv = caps[0]
	}
	link := ""
	if heap != "" {
		f.emit("let %s: int = fresh(s.%s);", v, heap)
		f.swrite(heap, fmt.Sprintf("s.%s.insert(%s, %s)", heap, v, capv))
		link = fmt.Sprintf(" && s0.%s.dom().contains(%s) && s0.%s[%s] == %s", heap, v, heap, v, capv)
	} else {
		f.emit("let %s: int = havoc(); assume(%s != 0);", v, v)
	}
	sm, sr := f.modset, f.readset
	f.modset, f.readset = map[string]bool{}, map[string]bool{}
	f.emit("{")
	f.ind++
	st := f.g.stype(f.p)
	f.emit("let s0: %s = havoc(); let mut s = s0; let f: int = %s; assume(f != 0%s);", st, v, link)
	for i, pn := range con.params {
		if i == 0 && pn != "f" {
			f.emit("let %s = f;", pn)
		}
	}
	for _, c := range con.requires {
		f.emit("assume({ let s = s0; %s });", subS(oneline(c.text)))
	}
	rs := f.callLitVals(x, f.env, nil)
	f.emit("let %s: %s = %s;", con.results[0], f.rty(rt), rs[0])
	for _, l := range strings.Split(strings.TrimSpace(con.exit), "\n") {
		if l != "" {
			f.emit("%s", l)
		}
	}
	for _, c := range con.ensures {
		f.ob("closure-postcondition", oneline(c.text), x, false)
	}
	f.ind--
	f.emit("}")
	mods := map[string]bool{}
	for _, m := range f.p.modsOf(con.mods) {
		mods[m] = true
	}
	bodyMods := f.modset
	f.modset, f.readset = sm, sr
	for m := range bodyMods {
		if !mods[m] {
			f.fail(x, "the closure modifies %s", m)
		}
	}
	return v
}

var nonAlnum = regexp.MustCompile(`[^A-Za-z0-9]+`)

func mangle(s string) string { return strings.Trim(nonAlnum.ReplaceAllString(s, "_"), "_") }

func (p *Pkg) addComp(key, name, full string) *Comp {
	if c, ok := p.compIdx[key]; ok {
		return c
	}
	base := name
	for i := 2; ; i++ {
		clash := false
		for _, c := range p.comps {
			if c.name == name {
				clash = true
				if c.full == full {
					p.compIdx[key] = c
					return c
				}
			}
		}
		for _, s := range p.subs {
			if s.name == name {
				clash = true
			}
		}
		if !clash {
			break
		}
		name = fmt.Sprintf("%s_%d", base, i)
	}
	c := &Comp{name: name, full: full, key: key}
	p.comps = append(p.comps, c)
	p.compIdx[key] = c
	return c
}

// structComp is the heap of a struct type of package q (in q's own parameters).
func (g *Gen) structComp(q *Pkg, n *types.Named) *Comp {
	o := n.Origin()
	name := o.Obj().Name()
	state := q.spec.state
	tn := func(tp *types.TypeParam) string {
		for i := 0; i < o.TypeParams().Len(); i++ {
			if o.TypeParams().At(i) == tp {
				for _, s := range state {
					if s == tp.Obj().Name() {
						return s
					}
				}
				if o.TypeParams().Len() == len(state) {
					return state[i]
				}
			}
		}
		return tp.Obj().Name()
	}
	full := "Map<int, " + g.rty(o, tn) + ">"
	// express with the origin's own parameters
	if o.TypeParams().Len() > 0 {
		var args []types.Type
		for i := 0; i < o.TypeParams().Len(); i++ {
			args = append(args, o.TypeParams().At(i))
		}
		inst, err := types.Instantiate(nil, o, args, false)
		if err == nil {
			full = "Map<int, " + g.rty(inst, tn) + ">"
		}
	}
	return q.addComp("obj:"+full, name, full)
}

func (f *FT) objPath(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			q := f.g.pkgOf(n.Obj().Pkg())
			if q == nil {
				f.fail(nil, "heap of external type %s", t)
			}
			if q == f.p {
				full := "Map<int, " + f.rty(t) + ">"
				return f.p.addComp("obj:"+full, n.Obj().Name(), full).name
			}
			c := f.g.structComp(q, n)
			var args []string
			for _, s := range q.spec.state {
				a := ""
				for i := 0; n.TypeArgs() != nil && i < n.TypeArgs().Len(); i++ {
					if n.Origin().TypeParams().At(i).Obj().Name() == s {
						a = f.rty(n.TypeArgs().At(i))
					}
				}
				args = append(args, a)
			}
			return f.subFor(q, args, nil).name + "." + c.name
		}
	}
	rt := f.rty(t)
	full := "Map<int, " + rt + ">"
	return f.p.addComp("cell:"+full, "cell_"+mangle(rt), full).name
}

func (f *FT) arrPath(el types.Type) string {
	if f.env.pkg != f.p {
		f.fail(nil, "slice inside an inlined foreign function")
	}
	rt := f.rty(el)
	full := "Map<int, Seq<" + rt + ">>"
	return f.p.addComp("arr:"+full, "arr_"+mangle(rt), full).name
}

func (f *FT) mapPath(u *types.Map) string {
	if f.env.pkg != f.p {
		f.fail(nil, "map inside an inlined foreign function")
	}
	k, v := f.rty(u.Key()), f.rty(u.Elem())
	full := "Map<int, Map<" + k + ", " + v + ">>"
	return f.p.addComp("map:"+full, "map_"+mangle(k)+"_"+mangle(v), full).name
}

func (f *FT) eventPath(sig *types.Signature) string {
	els := []string{"int"}
	for i := 0; i < sig.Params().Len(); i++ {
		els = append(els, f.rty(subst(sig.Params().At(i).Type(), f.env.tsub)))
	}
	full := "Seq<(" + strings.Join(els, ", ") + ")>"
	return f.p.addComp("ev:"+full, "ev", full).name
}

func (f *FT) stateArgs(cf *Fn, ts map[*types.TypeParam]types.Type) []string {
	var args []string
	sig := cf.obj.Type().(*types.Signature)
	l := sig.TypeParams()
	if sig.Recv() != nil {
		l = sig.RecvTypeParams()
	}
	for _, s := range cf.pkg.spec.state {
		a := ""
		for i := 0; l != nil && i < l.Len(); i++ {
			if f.g.tpName(cf, l.At(i)) == s {
				if t, ok := ts[l.At(i)]; ok {
					a = f.rty(t)
				}
			}
		}
		args = append(args, a)
	}
	return args
}

func (f *FT) subFor(q *Pkg, args []string, n ast.Node) *Sub {
	for _, s := range f.p.subs {
		if s.pkg != q {
			continue
		}
		ok := true
		for i := range args {
			if args[i] != "" && s.args[i] != "" && args[i] != s.args[i] {
				ok = false
			}
		}
		if ok {
			for i := range args {
				if s.args[i] == "" {
					s.args[i] = args[i]
				}
			}
			return s
		}
	}
	name := q.name
	for i := 2; ; i++ {
		clash := false
		for _, s := range f.p.subs {
			if s.name == name {
				clash = true
			}
		}
		if !clash {
			break
		}
		name = fmt.Sprintf("%s_%d", q.name, i)
	}
	s := &Sub{name: name, pkg: q, args: append([]string{}, args...)}
	f.p.subs = append(f.p.subs, s)
	return s
}

func (s *Sub) typ() string {
	r := s.pkg.name + "::S"
	if len(s.args) > 0 {
		as := make([]string, len(s.args))
		for i, a := range s.args {
			if a == "" {
				a = "int"
			}
			as[i] = a
		}
		r += "<" + strings.Join(as, ", ") + ">"
	}
	return r
}

// allPaths lists the component paths of a package state.
func (p *Pkg) allPaths() []string {
	var r []string
	for _, c := range p.comps {
		r = append(r, c.name)
	}
	for _, s := range p.subs {
		for _, x := range s.pkg.allPaths() {
			r = append(r, s.name+"."+x)
		}
	}
	return r
}

// frame lists equalities for the components not in mod.
func (p *Pkg) frame(mod map[string]bool, prefix string) []string {
	var r []string
	for _, c := range p.comps {
		if !mod[prefix+c.name] {
			r = append(r, prefix+c.name)
		}
	}
	for _, s := range p.subs {
		any := false
		for m := range mod {
			if strings.HasPrefix(m, prefix+s.name+".") {
				any = true
			}
		}
		if !any {
			r = append(r, prefix+s.name)
		} else {
			r = append(r, s.pkg.frame(mod, prefix+s.name+".")...)
		}
	}
	return r
}

// modsOf lists the state components an interface contract may change; the name of a sub-state means all of it.
func (p *Pkg) modsOf(mods []string) []string {
	var out []string
	var all func(q *Pkg, prefix string)
	all = func(q *Pkg, prefix string) {
		for _, c := range q.comps {
			out = append(out, prefix+c.name)
		}
		for _, s := range q.subs {
			all(s.pkg, prefix+s.name+".")
		}
	}
	for _, m := range mods {
		q, prefix, ok := p, "", true
		for _, part := range strings.Split(m, ".") {
			ok = false
			for _, s := range q.subs {
				if s.name == part {
					q, prefix, ok = s.pkg, prefix+part+".", true
					break
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			all(q, prefix)
		} else {
			out = append(out, m)
		}
	}
	return out
}

func (fn *Fn) retsS() bool { return fn.usesS() && len(fn.mod) > 0 }

func (g *Gen) stype(p *Pkg) string {
	if len(p.spec.state) == 0 {
		return "S"
	}
	return "S<" + strings.Join(p.spec.state, ", ") + ">"
}

func (g *Gen) sigOf(fn *Fn) *FSig {
	if fn.sig != nil {
		return fn.sig
	}
	con := fn.con
	sig := fn.obj.Type().(*types.Signature)
	tn := func(tp *types.TypeParam) string { return g.tpName(fn, tp) }
	rt := func(t types.Type) string { return g.rty(subst(t, fn.msub), tn) }
	r := &FSig{name: strings.NewReplacer(".", "_", "#", "_").Replace(con.key)}
	gen := append([]string{}, fn.pkg.spec.state...)
	if !fn.usesS() {
		gen = nil
	}
	for _, tp := range plainTParams(fn.obj) {
		if _, ok := fn.msub[tp]; ok {
			continue
		}
		n := tn(tp)
		found := false
		for _, x := range gen {
			if x == n {
				found = true
			}
		}
		if !found {
			gen = append(gen, n)
		}
	}
	r.generics = gen
	names := con.params
	k := 0
	next := func() string {
		if k >= len(names) {
			panic(Unsupported{fn.key + ": the parameter list differs from the contract's"})
		}
		k++
		return names[k-1]
	}
	if sig.Recv() != nil {
		r.params = append(r.params, FParam{next(), rt(sig.Recv().Type())})
	}
	for i := 0; i < sig.Params().Len(); i++ {
		v := sig.Params().At(i)
		n := next()
		if fn.cbParam(i) {
			s := under(v.Type()).(*types.Signature)
			var els []string
			for j := 0; j < s.Params().Len(); j++ {
				els = append(els, rt(s.Params().At(j).Type()))
			}
			r.trace = els[0]
			if len(els) > 1 {
				r.trace = "(" + strings.Join(els, ", ") + ")"
			}
			continue
		}
		r.params = append(r.params, FParam{n, rt(v.Type())})
	}
	if k != len(names) {
		panic(Unsupported{fn.key + ": the parameter list differs from the contract's"})
	}
	for i := 0; i < sig.Results().Len(); i++ {
		n := fmt.Sprintf("res%d", i)
		if i < len(con.results) {
			n = con.results[i]
		}
		r.results = append(r.results, FParam{n, rt(sig.Results().At(i).Type())})
	}
	fn.sig = r
	return r
}

func (g *Gen) translate(fn *Fn, pan bool) (out []string, f *FT, err error) {
	out, f, err = g.translateAs(fn, pan, fn.con, nil)
	if err != nil {
		return
	}
	all := map[string]bool{}
	for _, d := range f.decls {
		all[d[0]] = true
	}
	if sub := f.renames(fn.con); len(sub) > 0 {
		return g.translateAs(fn, pan, eachText(fn.con, substWords(sub)), all)
	}
	return
}

func (g *Gen) translateAs(fn *Fn, pan bool, con *Contract, all map[string]bool) (out []string, f *FT, err error) {
	f = &FT{g: g, p: fn.pkg, fn: fn, con: con, inAll: all, names: map[string]int{}, assigned: map[string]bool{}, vtypes: map[string]string{}, modset: map[string]bool{}, readset: map[string]bool{}, callN: map[string]int{}, panMode: pan}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	if g.degrade[fn.pkg.name+"."+fn.con.key] {
		return nil, f, fmt.Errorf("the translated function is rejected by the verifier's front end")
	}
	sig := g.sigOf(fn)
	gs := fn.obj.Type().(*types.Signature)
	env := &Env{pkg: fn.pkg, tsub: fn.msub, vars: map[types.Object]*Var{}, fnkey: fn.key, sig: gs}
	f.env = env
	env.boxed = boxedVars(f, fn.pkg, fn.decl.Body)
	f.ind = 1
	if fn.usesS() {
		for _, h := range strings.Fields(strings.ReplaceAll(f.con.flags["hide"], ",", " ")) {
			f.emit("hide(" + h + ");")
		}
		f.emit("let mut s = s0;")
	}
	if sig.trace != "" {
		f.emit("let mut tr = tr0;")
	}
	k := 0
	bind := func(o types.Object, name string) {
		if o == nil || name == "_" || name == "" {
			k++
			return
		}
		f.declareObj(o, name, sig.params[k].name)
		k++
	}
	if gs.Recv() != nil {
		r := fn.decl.Recv.List[0]
		if len(r.Names) > 0 {
			bind(fn.pkg.info.Defs[r.Names[0]], r.Names[0].Name)
		} else {
			k++
		}
	}
	i := 0
	for _, fl := range fn.decl.Type.Params.List {
		if len(fl.Names) == 0 {
			if !fn.cbParam(i) {
				k++
			}
			i++
		}
		for _, nm := range fl.Names {
			o := fn.pkg.info.Defs[nm]
			if fn.cbParam(i) {
				env.vars[o] = &Var{name: "tr", cb: true}
				i++
				continue
			}
			i++
			bind(o, nm.Name)
		}
	}
	f.nparams = len(f.decls)
	f.lenDefs = f.findLenDefs(fn)
	f.bindResults(env, fn.decl.Type)
	if f.con.entry != "" {
		f.hint(f.con.entry)
	}
	fl := f.stmts(fn.decl.Body.List)
	_ = fl
	if gs.Results().Len() == 0 {
		f.doReturn(nil)
	} else {
		f.emit("assume(false); return havoc();")
	}
	return f.out, f, nil
}

func tagged(c Clause) string {
	if c.tag != "" {
		return " [" + c.tag + "]"
	}
	return ""
}

func oneline(s string) string {
	// strip comments, join lines
	var ls []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		if l != "" {
			ls = append(ls, l)
		}
	}
	return strings.Join(ls, " ")
}

func (g *Gen) header(fn *Fn, pan bool) []string {
	sig := fn.sig
	con := fn.con
	var out []string
	name := sig.name
	if pan {
		name += "__pan"
	}
	gen := ""
	if len(sig.generics) > 0 {
		gen = "<" + strings.Join(sig.generics, ", ") + ">"
	}
	var ps []string
	st := g.stype(fn.pkg)
	if fn.usesS() {
		ps = append(ps, "s0: "+st)
	}
	if sig.trace != "" {
		ps = append(ps, "tr0: Seq<"+sig.trace+">")
	}
	for _, p := range sig.params {
		ps = append(ps, p.name+": "+p.rty)
	}
	var rt []string
	var lets []string
	add := func(n, t string) { rt = append(rt, t); lets = append(lets, n) }
	if fn.retsS() {
		add("s", st)
	}
	for _, r := range sig.results {
		add(r.name, r.rty)
	}
	if sig.trace != "" {
		add("tr", "Seq<"+sig.trace+">")
	}
	ret := ""
	pre := ""
	if fn.usesS() && !fn.retsS() {
		pre = "let s = s0; "
	}
	if len(rt) == 1 {
		ret = " -> (ret: " + rt[0] + ")"
		pre += "let " + lets[0] + " = ret; "
	} else if len(rt) > 1 {
		ret = " -> (ret: (" + strings.Join(rt, ", ") + "))"
		for i := range lets {
			pre += fmt.Sprintf("let %s = ret.%d; ", lets[i], i)
		}
	}
	rl := "30"
	if v := con.flags["rlimit"]; v != "" {
		rl = v
	}
	attrs := "#[verifier::spinoff_prover] #[verifier::rlimit(" + rl + ")]"
	if v := con.flags["attr"]; v != "" {
		attrs += " " + v
	}
	if fn.failed != "" && !pan || con.flags["trusted"] != "" {
		attrs = "#[verifier::external_body]"
	}
	out = append(out, attrs)
	out = append(out, fmt.Sprintf("pub proof fn %s%s(%s)%s", name, gen, strings.Join(ps, ", "), ret))
	var req []string
	for _, c := range con.requires {
		req = append(req, fmt.Sprintf("    (%s), //@req%s", subS(oneline(c.text)), tagged(c)))
	}
	for _, c := range con.panics {
		if pan {
			req = append(req, fmt.Sprintf("    (%s), //@req", subS(oneline(c.text))))
		} else {
			req = append(req, fmt.Sprintf("    !(%s), //@req no-panic", subS(oneline(c.text))))
		}
	}
	if len(req) > 0 {
		out = append(out, "  requires")
		out = append(out, req...)
	}
	if pan {
		out = append(out, "  ensures", "    false, //@ens normal return where a panic is specified")
	} else {
		var ens []string
		for _, c := range con.ensures {
			ens = append(ens, fmt.Sprintf("    ({ %s%s }), //@ens%s %s", pre, oneline(c.text), tagged(c), filepath.Base(fn.pkg.spec.file)+":"+fmt.Sprint(c.line)))
		}
		if fn.retsS() {
			for _, fr := range fn.pkg.frame(fn.mod, "") {
				ens = append(ens, fmt.Sprintf("    ({ %ss.%s == s0.%s }), //@ens frame", pre, fr, fr))
			}
		}
		if len(ens) > 0 {
			out = append(out, "  ensures")
			out = append(out, ens...)
		}
	}
	if len(con.dec) > 0 {
		var ds []string
		for _, c := range con.dec {
			ds = append(ds, subS(oneline(c.text)))
		}
		out = append(out, "  decreases "+strings.Join(ds, ", "))
	}
	return out
}

// in requires and decreases the state is s0
func subS(t string) string { return replaceIdent(t, "s", "s0") }

func (g *Gen) emitFn(fn *Fn) (lines []string) {
	where := g.posOf(fn.decl.Pos())
	lines = append(lines, fmt.Sprintf("//@fn %s.%s %s", fn.pkg.name, fn.con.key, where))
	lines = append(lines, g.header(fn, false)...)
	if fn.failed != "" || fn.con.flags["trusted"] != "" {
		lines = append(lines, "{ unimplemented!() }", "//@endfn")
		return
	}
	lines = append(lines, "{")
	lines = append(lines, fn.code...)
	lines = append(lines, "}", "//@endfn")
	if len(fn.con.panics) > 0 && len(fn.pcode) > 0 && !g.vacuity {
		lines = append(lines, fmt.Sprintf("//@fn %s.%s!panics %s", fn.pkg.name, fn.con.key, where))
		lines = append(lines, g.header(fn, true)...)
		lines = append(lines, "{")
		lines = append(lines, fn.pcode...)
		lines = append(lines, "}", "//@endfn")
	}
	return
}

func (g *Gen) emitStructs(p *Pkg) []string {
	var out []string
	for _, n := range p.structs {
		st := n.Underlying().(*types.Struct)
		if st.NumFields() == 0 {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(Unsupported)
					if !ok {
						panic(r)
					}
					g.notes = append(g.notes, fmt.Sprintf("struct %s.%s not modelled: %s", p.name, n.Obj().Name(), u.msg))
				}
			}()
			used := g.usedParams(n)
			var ps, attrs []string
			for i := range used {
				if used[i] {
					ps = append(ps, n.TypeParams().At(i).Obj().Name())
					attrs = append(attrs, "#[verifier::reject_recursive_types("+n.TypeParams().At(i).Obj().Name()+")]")
				}
			}
			gen := ""
			if len(ps) > 0 {
				gen = "<" + strings.Join(ps, ", ") + ">"
			}
			var fs []string
			for i := 0; i < st.NumFields(); i++ {
				t := st.Field(i).Type()
				r := "int"
				if !g.refField(t) {
					r = g.rty(t, func(tp *types.TypeParam) string { return tp.Obj().Name() })
				}
				fs = append(fs, "pub "+fieldName(st.Field(i).Name())+": "+r)
			}
			out = append(out, strings.Join(attrs, " "), fmt.Sprintf("pub struct %s%s { %s }", rustName(n.Obj().Name()), gen, strings.Join(fs, ", ")))
		}()
	}
	return out
}

func (g *Gen) emitState(p *Pkg) []string {
	if !p.spec.hasState {
		return nil
	}
	var attrs, fs []string
	text := ""
	for _, c := range p.comps {
		fs = append(fs, "pub "+c.name+": "+c.full)
		text += " " + c.full
	}
	for _, s := range p.subs {
		fs = append(fs, "pub "+s.name+": "+s.typ())
		text += " " + s.typ()
	}
	toks := map[string]bool{}
	for _, t := range identRe.FindAllString(text, -1) {
		toks[t] = true
	}
	for _, x := range p.spec.state {
		attrs = append(attrs, "#[verifier::reject_recursive_types("+x+")]")
		if !toks[x] {
			fs = append(fs, "pub ph_"+x+": Map<int, "+x+">")
		}
	}
	if len(fs) == 0 {
		fs = append(fs, "pub unit: int")
	}
	return []string{strings.Join(attrs, " "), "pub struct " + g.stype(p) + " { " + strings.Join(fs, ", ") + " }"}
}

func (g *Gen) emitIface(p *Pkg, name string) []string {
	con := p.spec.ifaces[name]
	sigt := con.flags["sig"] // "(recv: int, k: K) -> (bool)"
	if sigt == "" {
		fatal("%s: interface contract %s without @flag sig", p.spec.file, name)
	}
	var lets string
	ret := ""
	i := strings.Index(sigt, "->")
	ps := sigt
	if i >= 0 {
		ps = strings.TrimSpace(sigt[:i])
		ret = strings.TrimSpace(sigt[i+2:])
	}
	ps = strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(ps), "("), ")")
	var rts []string
	if ret != "" {
		rts = splitTop(strings.TrimSuffix(strings.TrimPrefix(ret, "("), ")"))
	}
	names := append([]string{}, con.results...)
	if len(con.mods) > 0 {
		rts = append([]string{g.stype(p)}, rts...)
		names = append([]string{"s"}, names...)
	} else {
		lets = "let s = s0; "
	}
	rty := ""
	if len(rts) == 1 {
		rty = " -> (ret: " + rts[0] + ")"
		lets += "let " + names[0] + " = ret; "
	} else if len(rts) > 1 {
		rty = " -> (ret: (" + strings.Join(rts, ", ") + "))"
		for i := range names {
			lets += fmt.Sprintf("let %s = ret.%d; ", names[i], i)
		}
	}
	gen := ""
	if len(p.spec.state) > 0 {
		gen = "<" + strings.Join(p.spec.state, ", ") + ">"
	}
	out := []string{}
	if con.body == "" {
		out = append(out, "#[verifier::external_body]")
	} else {
		out = append(out, fmt.Sprintf("//@fn %s.%s %s:%d", p.name, name, filepath.Base(p.spec.file), con.line))
	}
	out = append(out, fmt.Sprintf("pub proof fn %s%s(s0: %s, %s)%s", mangle(name), gen, g.stype(p), ps, rty))
	if len(con.requires) > 0 {
		out = append(out, "  requires")
		for _, c := range con.requires {
			out = append(out, "    ("+subS(oneline(c.text))+"), //@req")
		}
	}
	mod := map[string]bool{}
	for _, m := range p.modsOf(con.mods) {
		mod[m] = true
	}
	var ens []string
	for _, c := range con.ensures {
		ens = append(ens, "    ({ "+lets+oneline(c.text)+" }), //@ens")
	}
	if len(con.mods) > 0 {
		for _, fr := range p.frame(mod, "") {
			ens = append(ens, fmt.Sprintf("    ({ %ss.%s == s0.%s }), //@ens frame", lets, fr, fr))
		}
	}
	if len(ens) > 0 {
		out = append(out, "  ensures")
		out = append(out, ens...)
	}
	if con.body != "" {
		return append(out, "{", con.body, "}", "//@endfn")
	}
	return append(out, "{ unimplemented!() }")
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i, c := range s {
		switch c {
		case '<', '(', '[':
			d++
		case '>', ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

func (g *Gen) monoFn(callee *Fn, ts map[*types.TypeParam]types.Type, f *FT) *Fn {
	for _, m := range callee.pkg.spec.monos {
		for tp, t := range ts {
			if !strings.HasPrefix(callee.key, m.recv+".") || tp.Obj().Name() != m.param && !g.isParam(callee, tp, m.param) {
				continue
			}
			ty := types.TypeString(t, func(*types.Package) string { return "" })
			if i := strings.Index(ty, "["); i >= 0 {
				ty = ty[:i]
			}
			if ty == m.typ {
				if mf := callee.pkg.fns[callee.key+"#"+m.suffix]; mf != nil {
					return mf
				}
			}
		}
	}
	return nil
}

func (g *Gen) isParam(fn *Fn, tp *types.TypeParam, name string) bool {
	sig := fn.obj.Type().(*types.Signature)
	l := sig.RecvTypeParams()
	n := recvNamed(sig.Recv().Type())
	for i := 0; l != nil && i < l.Len(); i++ {
		if l.At(i) == tp && n.Origin().TypeParams().At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// ---- the run

type FnInfo struct {
	Pkg, Key, Pos, Failed string
	Obligations           int
	Trusted               bool
	Inlined               []string
	Mods                  []string
	Reads                 []string
	Rebound               string
	Prop                  string
}

type Output struct {
	Functions []FnInfo
	Trusted   []string
	Notes     []string
	Packages  []string
	Missing   []string
	Inlined   []string
	Uncovered []string
}

func (g *Gen) bindContracts(p *Pkg, out *Output) {
	sp := p.spec
	// monomorphised instances
	for _, m := range sp.monos {
		for _, key := range append([]string{}, p.order...) {
			fn := p.fns[key]
			if !strings.HasPrefix(key, m.recv+".") {
				continue
			}
			sig := fn.obj.Type().(*types.Signature)
			l := sig.RecvTypeParams()
			n := recvNamed(sig.Recv().Type())
			var c *types.TypeParam
			byName := map[string]*types.TypeParam{}
			for i := 0; i < l.Len(); i++ {
				on := n.Origin().TypeParams().At(i).Obj().Name()
				byName[on] = l.At(i)
				if on == m.param {
					c = l.At(i)
				}
			}
			tname := strings.TrimPrefix(m.typ, "*")
			tnm, ok := p.tpkg.Scope().Lookup(tname).(*types.TypeName)
			if c == nil || !ok {
				continue
			}
			nt := tnm.Type().(*types.Named)
			var args []types.Type
			for i := 0; i < nt.TypeParams().Len(); i++ {
				if a := byName[nt.TypeParams().At(i).Obj().Name()]; a != nil {
					args = append(args, a)
				}
			}
			var inst types.Type = nt
			if len(args) > 0 {
				var err error
				inst, err = types.Instantiate(nil, nt, args, false)
				if err != nil {
					continue
				}
			}
			if strings.HasPrefix(m.typ, "*") {
				inst = types.NewPointer(inst)
			}
			mm := m
			mf := &Fn{pkg: p, key: key + "#" + m.suffix, decl: fn.decl, obj: fn.obj, mod: map[string]bool{}, reads: map[string]bool{}, mono: &mm, msub: map[*types.TypeParam]types.Type{c: inst}}
			p.fns[mf.key] = mf
		}
	}
	var missing []string
	for _, key := range sp.order {
		con := sp.con[key]
		if fn := p.fns[key]; fn != nil {
			fn.con = con
		} else {
			missing = append(missing, key)
		}
	}
	for _, key := range missing {
		base := key
		if i := strings.Index(base, "#"); i >= 0 {
			base = base[:i]
		}
		name := base
		recv := ""
		if i := strings.Index(base, "."); i >= 0 {
			recv, name = base[:i], base[i+1:]
		}
		private := name[0] >= 'a' && name[0] <= 'z'
		// a renamed private function: unique uncontracted recursive function with as many parameters
		var cand []*Fn
		if private {
			for _, k := range p.order {
				fn := p.fns[k]
				if fn.con != nil {
					continue
				}
				r2 := ""
				if i := strings.Index(k, "."); i >= 0 {
					r2 = k[:i]
				}
				sig := fn.obj.Type().(*types.Signature)
				np := sig.Params().Len()
				if sig.Recv() != nil {
					np++
				}
				if r2 == recv && np == len(sp.con[key].params) && sig.Results().Len() >= len(sp.con[key].results) && callsItself(fn) {
					cand = append(cand, fn)
				}
			}
		}
		if len(cand) == 1 {
			cand[0].con = sp.con[key]
			g.notes = append(g.notes, fmt.Sprintf("%s: contract of %s applied to %s", p.name, key, cand[0].key))
			continue
		}
		if !private {
			out.Missing = append(out.Missing, p.name+"."+key)
		} else {
			g.notes = append(g.notes, fmt.Sprintf("%s: no function for the contract of %s", p.name, key))
		}
	}
}

func callsItself(fn *Fn) bool {
	rec := false
	ast.Inspect(fn.decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := fn.pkg.info.Uses[id].(*types.Func); ok && o.Origin() == fn.obj {
				rec = true
			}
		}
		return true
	})
	return rec
}

func (g *Gen) run(targets []string, contracts, outFile, jsonFile string) {
	var out Output
	seen := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if seen[path] {
			return
		}
		seen[path] = true
		p, err := g.l.Load(path)
		if err != nil {
			fatal("cannot load %s: %v", path, err)
		}
		for _, im := range p.tpkg.Imports() {
			if depNames[im.Path()] != "" && !seen[im.Path()] {
				if _, err := g.l.Load(im.Path()); err != nil {
					seen[im.Path()] = true // its functions stay trusted
					continue
				}
				visit(im.Path())
			}
			if im.Path() == g.l.modpath || strings.HasPrefix(im.Path(), g.l.modpath+"/") {
				visit(im.Path())
			}
		}
		file := filepath.Join(contracts, p.name+".vs")
		sp, err := ParseSpec(file)
		if err != nil {
			sp = &Spec{file: file, con: map[string]*Contract{}, ifaces: map[string]*Contract{}, flags: map[string]bool{}}
		}
		p.spec = sp
		for _, c := range sp.comps {
			p.addComp("manual:"+c[0], c[0], c[1])
		}
		for _, c := range sp.subs {
			fs := strings.Fields(c[1])
			for _, q := range g.pkgs {
				if q.name == fs[0] {
					p.subs = append(p.subs, &Sub{name: c[0], pkg: q, args: fs[1:]})
				}
			}
		}
		g.pkgs = append(g.pkgs, p)
	}
	for _, t := range targets {
		path := g.l.modpath
		if t != "generic" {
			path += "/" + t
		}
		visit(path)
	}
	for _, p := range g.pkgs {
		g.bindContracts(p, &out)
	}
	// signatures
	keys := func(p *Pkg) []string {
		var ks []string
		for k, fn := range p.fns {
			if fn.con != nil {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool {
			a, b := p.fns[ks[i]], p.fns[ks[j]]
			if a.con.line != b.con.line {
				return a.con.line < b.con.line
			}
			return ks[i] < ks[j]
		})
		return ks
	}
	for _, p := range g.pkgs {
		for _, k := range keys(p) {
			fn := p.fns[k]
			func() {
				defer func() {
					if r := recover(); r != nil {
						u, ok := r.(Unsupported)
						if !ok {
							panic(r)
						}
						out.Missing = append(out.Missing, p.name+"."+fn.con.key+" ("+u.msg+")")
						fn.con = nil
					}
				}()
				g.sigOf(fn)
			}()
		}
	}
	for iter := 0; iter < 12; iter++ {
		changed := false
		for _, p := range g.pkgs {
			nc, ns := len(p.comps), len(p.subs)
			for _, k := range keys(p) {
				fn := p.fns[k]
				g.callees[fn] = nil
				code, f, err := g.translate(fn, false)
				if err != nil {
					fn.failed = err.Error()
				} else {
					fn.failed = ""
					fn.code = code
					fn.obs = f.nob
					g.recs[p.name+"."+fn.key] = &FnRec{Params: f.nparams, Locals: f.decls, Loops: f.loopsSeen}
				}
				for _, m := range fn.con.mods {
					f.modset[m] = true
				}
				for m := range f.modset {
					if !fn.mod[m] {
						fn.mod[m] = true
						changed = true
					}
				}
				for m := range f.readset {
					if !fn.reads[m] {
						fn.reads[m] = true
						changed = true
					}
				}
				if len(fn.con.panics) > 0 && fn.failed == "" {
					pc, _, err := g.translate(fn, true)
					if err != nil {
						fn.failed = err.Error()
					}
					fn.pcode = pc
				}
			}
			if len(p.comps) != nc || len(p.subs) != ns {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	var sb strings.Builder
	sb.WriteString(preludeText)
	for _, p := range g.pkgs {
		out.Packages = append(out.Packages, p.name)
		sb.WriteString("\npub mod " + p.name + " { use super::*; broadcast use super::axioms::group_order;\n")
		body := func(ls []string) {
			for _, l := range ls {
				sb.WriteString(l + "\n")
			}
		}
		body(g.emitStructs(p))
		body(g.emitState(p))
		var gl []string
		for n, t := range g.globals {
			if strings.HasPrefix(n, p.name+"::") {
				gl = append(gl, fmt.Sprintf("pub uninterp spec fn %s() -> %s;", strings.TrimPrefix(n, p.name+"::"), t))
			}
		}
		sort.Strings(gl)
		body(gl)
		sb.WriteString("//@fn " + p.name + ".lemmas " + filepath.Base(p.spec.file) + "\n")
		sb.WriteString(p.spec.prelude + "\n//@endfn\n")
		for _, n := range p.spec.iorder {
			body(g.emitIface(p, n))
		}
		for _, k := range keys(p) {
			fn := p.fns[k]
			body(g.emitFn(fn))
			fi := FnInfo{Pkg: p.name, Key: fn.con.key, Pos: g.posOf(fn.decl.Pos()), Failed: fn.failed, Obligations: fn.obs + len(fn.con.ensures), Trusted: fn.con.flags["trusted"] != "", Prop: fn.con.flags["prop"]}
			if fn.key != fn.con.key {
				fi.Rebound = fn.key
			}
			for i := range g.inl[fn] {
				fi.Inlined = append(fi.Inlined, i)
			}
			for m := range fn.mod {
				fi.Mods = append(fi.Mods, m)
			}
			for m := range fn.reads {
				fi.Reads = append(fi.Reads, m)
			}
			sort.Strings(fi.Inlined)
			sort.Strings(fi.Mods)
			sort.Strings(fi.Reads)
			out.Functions = append(out.Functions, fi)
		}
		for _, k := range p.order {
			fn := p.fns[k]
			if fn.con != nil {
				continue
			}
			in := false
			for _, m := range g.inl {
				if m[p.name+"."+k] {
					in = true
				}
			}
			mono := false
			for kk, f2 := range p.fns {
				if strings.HasPrefix(kk, k+"#") && f2.con != nil {
					mono = true
				}
			}
			if in {
				out.Inlined = append(out.Inlined, p.name+"."+k)
			} else if !mono && depNames[p.path] == "" {
				out.Uncovered = append(out.Uncovered, p.name+"."+k)
			}
		}
		sb.WriteString("}\n")
	}
	sb.WriteString("} // verus!\nfn main() {}\n")
	if err := os.WriteFile(outFile, []byte(sb.String()), 0o644); err != nil {
		fatal("%v", err)
	}
	for t := range g.trusted {
		out.Trusted = append(out.Trusted, t)
	}
	sort.Strings(out.Trusted)
	out.Notes = g.notes
	b, _ := json.MarshalIndent(out, "", " ")
	if jsonFile != "" {
		os.WriteFile(jsonFile, b, 0o644)
	}
}

// usesS: the emitted function takes the package state.
func (fn *Fn) usesS() bool {
	return fn.pkg.spec.hasState && (fn.con == nil || fn.con.flags["pure"] == "")
}
