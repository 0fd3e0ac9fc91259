package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strings"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gov: "+f+"\n", a...)
	os.Exit(3)
}

type Comp struct {
	name string // field of S
	full string // rust type
	key  string
}

type Sub struct {
	name string
	rty  string
	pkg  *Pkg
	args []string // rust args per state param of pkg ("" unknown)
}

type Fn struct {
	pkg    *Pkg
	key    string
	decl   *ast.FuncDecl
	obj    *types.Func
	con    *Contract
	mod    map[string]bool
	reads  map[string]bool
	mono   *Mono
	msub   map[*types.TypeParam]types.Type
	failed string
	code   []string
	pcode  []string
	sig    *FSig
	hasPan bool
	obs    int
}

// FSig is the emitted signature of a contracted function.
type FSig struct {
	name     string
	generics []string
	params   []FParam // without state and trace
	results  []FParam
	trace    string // element type of the trace or ""
}

type FParam struct {
	name string
	rty  string
}

type Unsupported struct{ msg string }

// FT translates one function.
type FT struct {
	g               *Gen
	p               *Pkg // package of the emitted function
	fn              *Fn
	con             *Contract
	env             *Env
	counter         bool // the arithmetic steps a counter field by one
	out             []string
	ind             int
	names           map[string]int
	tmp             int
	impure          int
	now             ast.Node // the statement being translated
	assigned        map[string]bool
	vtypes          map[string]string
	modset          map[string]bool
	readset         map[string]bool
	loopN           int
	hintArgs        []string
	callN           map[string]int
	panMode         bool
	nob             int
	depth           int
	flagN           int
	decls           [][2]string
	nparams         int
	inAll           map[string]bool
	loopsSeen       map[int]LoopRec
	loopNames       map[string]bool
	ghostSet        map[string]bool
	lenDefs         map[types.Object]ast.Expr
	scopeVars       []string
	lastReplayMods  map[string]bool
	lastReplayReads map[string]bool
}

type Env struct {
	pkg     *Pkg
	tsub    map[*types.TypeParam]types.Type
	vars    map[types.Object]*Var
	ret     *RetTarget
	fnkey   string
	boxed   map[types.Object]bool
	regions []*Region
	results []types.Object
	sig     *types.Signature
	named   bool
	trEl    string
	parent  *Env
}

type Region struct {
	label string
	brk   string
	cont  string
	loop  bool
}

type RetTarget struct {
	flag string
	vars []string
}

type Var struct {
	name   string
	rty    string
	boxed  bool
	path   string
	alias  *Place // inlined pointer argument: the variable denotes &alias
	cb     bool   // callback parameter
	lit    *ast.FuncLit
	litEnv *Env
	ctor   bool
}

var kw = map[string]bool{"as": true, "break": true, "const": true, "continue": true, "crate": true, "else": true, "enum": true, "extern": true, "false": true, "fn": true, "for": true, "if": true, "impl": true, "in": true, "let": true, "loop": true, "match": true, "mod": true, "move": true, "mut": true, "pub": true, "ref": true, "return": true, "self": true, "static": true, "struct": true, "super": true, "trait": true, "true": true, "type": true, "unsafe": true, "use": true, "where": true, "while": true, "box": true, "spec": true, "proof": true, "exec": true, "forall": true, "exists": true, "open": true, "closed": true, "is": true, "has": true, "matches": true}

func fieldName(s string) string {
	if kw[s] {
		return s + "_"
	}
	return s
}

func (f *FT) fail(n ast.Node, msg string, a ...any) {
	where := ""
	if n != nil {
		where = f.g.posOf(n.Pos()) + ": "
	}
	panic(Unsupported{where + fmt.Sprintf(msg, a...)})
}

func (g *Gen) posOf(p token.Pos) string {
	ps := g.l.fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		if j := strings.LastIndex(fn[:i], "/"); j >= 0 {
			fn = fn[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

// ---- types

func coreType(tp *types.TypeParam) types.Type {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if iface.NumEmbeddeds() == 1 {
		et := iface.EmbeddedType(0)
		if u, ok := et.(*types.Union); ok {
			if u.Len() == 1 {
				return u.Term(0).Type()
			}
			return nil
		}
		switch et.Underlying().(type) {
		case *types.Interface:
			return nil
		}
		return et
	}
	return nil
}

func subst(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch x := t.(type) {
	case *types.Alias:
		return subst(types.Unalias(x), m)
	case *types.TypeParam:
		if r, ok := m[x]; ok {
			return r
		}
		return x
	case *types.Pointer:
		return types.NewPointer(subst(x.Elem(), m))
	case *types.Slice:
		return types.NewSlice(subst(x.Elem(), m))
	case *types.Array:
		return types.NewArray(subst(x.Elem(), m), x.Len())
	case *types.Map:
		return types.NewMap(subst(x.Key(), m), subst(x.Elem(), m))
	case *types.Named:
		ta := x.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return x
		}
		args := make([]types.Type, ta.Len())
		for i := range args {
			args[i] = subst(ta.At(i), m)
		}
		r, err := types.Instantiate(nil, x.Origin(), args, false)
		if err != nil {
			return x
		}
		return r
	case *types.Signature:
		ps := make([]*types.Var, x.Params().Len())
		for i := range ps {
			v := x.Params().At(i)
			ps[i] = types.NewVar(v.Pos(), v.Pkg(), v.Name(), subst(v.Type(), m))
		}
		rs := make([]*types.Var, x.Results().Len())
		for i := range rs {
			v := x.Results().At(i)
			rs[i] = types.NewVar(v.Pos(), v.Pkg(), v.Name(), subst(v.Type(), m))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), x.Variadic())
	case *types.Tuple:
		return x
	}
	return t
}

// under returns the underlying type, seeing through type parameters with a core type.
func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		if c := coreType(tp); c != nil {
			return under(c)
		}
		return tp
	}
	return t.Underlying()
}

func (f *FT) typ(e ast.Expr) types.Type {
	tv, ok := f.env.pkg.info.Types[e]
	var t types.Type
	if ok {
		t = tv.Type
	} else if id, ok := e.(*ast.Ident); ok {
		if o := f.env.pkg.info.Defs[id]; o != nil {
			t = o.Type()
		} else if o := f.env.pkg.info.Uses[id]; o != nil {
			t = o.Type()
		}
	}
	if t == nil {
		f.fail(e, "no type for expression")
	}
	return subst(t, f.env.tsub)
}

func (f *FT) objType(o types.Object) types.Type { return subst(o.Type(), f.env.tsub) }

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isCallbackSig(t types.Type) bool {
	s, ok := under(t).(*types.Signature)
	return ok && s.Results().Len() == 0
}
func isPureSig(t types.Type) bool {
	s, ok := under(t).(*types.Signature)
	return ok && s.Results().Len() > 0 && s.Params().Len() > 0
}

// itype is the rust type and nil value of an interface type the contracts describe.
func (g *Gen) itype(t types.Type) *[2]string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	q := g.pkgOf(n.Obj().Pkg())
	if q == nil || q.spec == nil {
		return nil
	}
	it, ok := q.spec.itypes[n.Obj().Name()]
	if !ok {
		return nil
	}
	return &[2]string{q.name + "::" + it[0], q.name + "::" + it[1]}
}

// TN names type parameters: rust name for each Go type parameter.
type TN func(tp *types.TypeParam) string

func (g *Gen) rty(t types.Type, tn TN) string {
	switch x := t.(type) {
	case *types.Alias:
		return g.rty(types.Unalias(x), tn)
	case *types.TypeParam:
		if c := coreType(x); c != nil {
			return g.rty(under(c), tn)
		}
		return tn(x)
	case *types.Named:
		if st, ok := x.Underlying().(*types.Struct); ok {
			if x.Obj().Pkg() == nil {
				panic(Unsupported{"struct type " + x.String()})
			}
			q := g.pkgOf(x.Obj().Pkg())
			if q == nil {
				panic(Unsupported{"external struct type " + x.String()})
			}
			if st.NumFields() == 0 {
				return "()"
			}
			name := q.name + "::" + rustName(x.Obj().Name())
			used := g.usedParams(x.Origin())
			var args []string
			for i := range used {
				if used[i] {
					if x.TypeArgs() == nil {
						args = append(args, g.rty(x.TypeParams().At(i), tn))
						continue
					}
					args = append(args, g.rty(x.TypeArgs().At(i), tn))
				}
			}
			if len(args) > 0 {
				name += "<" + strings.Join(args, ",") + ">"
			}
			return name
		}
		if it := g.itype(x); it != nil {
			return it[0]
		}
		return g.rty(x.Underlying(), tn)
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "bool"
		case x.Info()&types.IsInteger != 0:
			return "int"
		case x.Info()&types.IsString != 0:
			return "Seq<int>"
		case x.Info()&types.IsFloat != 0:
			return "F64"
		case x.Kind() == types.UntypedNil:
			return "int"
		}
	case *types.Pointer, *types.Map, *types.Interface, *types.Chan:
		return "int"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return "Seq<" + g.rty(x.Elem(), tn) + ">"
	case *types.Struct:
		if x.NumFields() == 0 {
			return "()"
		}
	case *types.Signature:
		if x.Results().Len() == 0 || x.Params().Len() == 0 {
			return "int"
		}
		var ps, rs []string
		for i := 0; i < x.Params().Len(); i++ {
			ps = append(ps, g.rty(x.Params().At(i).Type(), tn))
		}
		for i := 0; i < x.Results().Len(); i++ {
			rs = append(rs, g.rty(x.Results().At(i).Type(), tn))
		}
		r := rs[0]
		if len(rs) > 1 {
			r = "(" + strings.Join(rs, ",") + ")"
		}
		return "spec_fn(" + strings.Join(ps, ",") + ")->" + r
	}
	panic(Unsupported{"type " + t.String()})
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

func (g *Gen) usedParams(n *types.Named) []bool {
	if u, ok := g.used[n]; ok {
		return u
	}
	res := make([]bool, n.TypeParams().Len())
	g.used[n] = res
	if len(res) == 0 {
		return res
	}
	seen := map[string]bool{}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); !ok {
						panic(r)
					}
				}
			}()
			if g.refField(st.Field(i).Type()) {
				return
			}
			g.rty(st.Field(i).Type(), func(tp *types.TypeParam) string { seen[tp.Obj().Name()] = true; return "X" })
		}()
	}
	for i := range res {
		res[i] = seen[n.TypeParams().At(i).Obj().Name()]
	}
	return res
}

// refField reports whether a struct-valued field is represented by the
// address of a separate cell (because its type has pointer methods).
func (g *Gen) refField(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if r := m.Type().(*types.Signature).Recv(); r != nil {
			if _, ok := r.Type().(*types.Pointer); ok {
				return true
			}
		}
	}
	return false
}

// hasRef reports whether values of the type hold such an address, so that copying the value would share the part.
func (g *Gen) hasRef(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Array:
		return g.hasRef(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if g.refField(u.Field(i).Type()) || g.hasRef(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (g *Gen) pkgOf(p *types.Package) *Pkg {
	if p == nil {
		return nil
	}
	return g.l.pkgs[p.Path()]
}

func (f *FT) tn(tp *types.TypeParam) string { return f.g.tpName(f.fn, tp) }

func (f *FT) rty(t types.Type) string { return f.g.rty(t, f.tn) }

// plainTParams lists the type parameters (no core type) of a function or of its receiver type.
func plainTParams(obj *types.Func) (plain []*types.TypeParam) {
	sig := obj.Type().(*types.Signature)
	l := sig.TypeParams()
	if sig.Recv() != nil {
		l = sig.RecvTypeParams()
	}
	if l == nil {
		return nil
	}
	for i := 0; i < l.Len(); i++ {
		if coreType(l.At(i)) == nil {
			plain = append(plain, l.At(i))
		}
	}
	return
}

// tpName gives the rust name of a type parameter inside fn: state parameters by
// name of the receiver type's declaration or by position.
func (g *Gen) tpName(fn *Fn, tp *types.TypeParam) string {
	name := tp.Obj().Name()
	state := fn.pkg.spec.state
	sig := fn.obj.Type().(*types.Signature)
	if sig.Recv() != nil {
		// origin names
		n := recvNamed(sig.Recv().Type())
		if n != nil {
			l := sig.RecvTypeParams()
			for i := 0; l != nil && i < l.Len(); i++ {
				if l.At(i) == tp {
					name = n.Origin().TypeParams().At(i).Obj().Name()
				}
			}
		}
	}
	for _, s := range state {
		if s == name {
			return name
		}
	}
	pl := plainTParams(fn.obj)
	if len(pl) == len(state) {
		for i := range pl {
			if pl[i] == tp {
				return state[i]
			}
		}
	}
	return name
}

// rustName keeps Go struct names apart from the names the generated code uses.
func rustName(n string) string {
	switch n {
	case "Map", "Set", "Seq", "Slice", "Multiset", "S", "F64":
		return "Go" + n
	}
	return n
}
