package main

// Contract files (*.vs). Line oriented; a line starting with '@' opens a section
// or clause, following lines belong to it.

import (
	"os"
	"strings"
)

type Clause struct {
	tag  string
	text string
	line int
}

type LoopSpec struct {
	inv    []Clause
	dec    []Clause
	entry  string
	body   string
	end    string
	exit   string
	before string
}

type Hint struct {
	name string
	nth  int // 0 = all
	text string
	pre  bool
}

type Contract struct {
	key      string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	panics   []Clause
	dec      []Clause
	loops    map[int]*LoopSpec
	entry    string
	exit     string
	hints    []Hint
	stable   []Clause
	mods     []string
	flags    map[string]string
	line     int
	used     bool
	generics string
	body     string
}

type Spec struct {
	file         string
	prelude      string
	callbackMods string // what a callback may change
	state        []string
	hasState     bool
	comps        [][2]string // manual components
	subs         [][2]string // name, rust type of sub state
	con          map[string]*Contract
	order        []string
	ifaces       map[string]*Contract
	iorder       []string
	monos        []Mono
	flags        map[string]bool
	funcvals     map[string]string
	globals      map[string]string
	itypes       map[string][2]string // Go interface type -> rust type, nil value
	convs        map[string]string    // concrete type -> interface value ($ is the operand)
}

type Mono struct {
	recv, param, typ, suffix string
}

func parseHeader(s string) (string, []string, []string) {
	// name (a, b) (r, s)
	i := strings.Index(s, "(")
	name := strings.TrimSpace(s)
	var ps, rs []string
	if i >= 0 {
		name = strings.TrimSpace(s[:i])
		rest := s[i:]
		j := strings.Index(rest, ")")
		ps = splitNames(rest[1:j])
		rest = rest[j+1:]
		if k := strings.Index(rest, "("); k >= 0 {
			j := strings.Index(rest, ")")
			rs = splitNames(rest[k+1 : j])
		}
	}
	return name, ps, rs
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func ParseSpec(file string) (*Spec, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	sp := &Spec{file: file, con: map[string]*Contract{}, ifaces: map[string]*Contract{}, flags: map[string]bool{}, funcvals: map[string]string{}, globals: map[string]string{}, itypes: map[string][2]string{}, convs: map[string]string{}}
	lines := strings.Split(string(b), "\n")
	var cur *Contract
	var loop *LoopSpec
	i := 0
	for i < len(lines) {
		ln := lines[i]
		if !strings.HasPrefix(ln, "@") {
			i++
			continue
		}
		start := i
		word := strings.TrimPrefix(ln, "@")
		arg := ""
		if k := strings.IndexAny(word, " \t"); k >= 0 {
			arg = strings.TrimSpace(word[k:])
			word = word[:k]
		}
		tag := ""
		if k := strings.Index(word, "["); k >= 0 {
			tag = strings.TrimSuffix(word[k+1:], "]")
			word = word[:k]
		}
		i++
		var body []string
		for i < len(lines) && !strings.HasPrefix(lines[i], "@") {
			body = append(body, lines[i])
			i++
		}
		text := strings.TrimRight(strings.Join(body, "\n"), " \n\t")
		full := arg
		if strings.TrimSpace(text) != "" {
			if full != "" {
				full += "\n"
			}
			full += text
		}
		// strip trailing comma
		cl := Clause{tag: tag, text: strings.TrimSuffix(strings.TrimSpace(full), ","), line: start + 1}
		switch word {
		case "prelude":
			sp.prelude += text + "\n"
		case "callback":
			sp.callbackMods = arg
		case "state":
			sp.hasState = true
			sp.state = strings.Fields(arg)
		case "comp":
			k := strings.IndexAny(arg, " ")
			sp.comps = append(sp.comps, [2]string{arg[:k], strings.TrimSpace(arg[k:])})
		case "sub":
			k := strings.IndexAny(arg, " ")
			sp.subs = append(sp.subs, [2]string{arg[:k], strings.TrimSpace(arg[k:])})
		case "mono":
			f := strings.Fields(arg)
			sp.monos = append(sp.monos, Mono{f[0], f[1], f[2], f[3]})
		case "counter":
			for _, n := range splitNames(arg) {
				sp.flags["counter "+n] = true
			}
		case "flag":
			if cur == nil {
				sp.flags[arg] = true
			} else {
				f := strings.SplitN(arg, " ", 2)
				v := "1"
				if len(f) > 1 {
					v = f[1]
				}
				cur.flags[f[0]] = v
			}
		case "func", "iface":
			n, ps, rs := parseHeader(arg)
			cur = &Contract{key: n, params: ps, results: rs, loops: map[int]*LoopSpec{}, flags: map[string]string{}, line: start + 1}
			loop = nil
			if word == "func" {
				sp.con[n] = cur
				sp.order = append(sp.order, n)
			} else {
				sp.ifaces[n] = cur
				sp.iorder = append(sp.iorder, n)
			}
		case "requires":
			cur.requires = append(cur.requires, cl)
		case "ensures":
			cur.ensures = append(cur.ensures, cl)
		case "panics":
			cur.panics = append(cur.panics, cl)
		case "stable":
			cur.stable = append(cur.stable, cl)
		case "mods":
			cur.mods = append(cur.mods, strings.Fields(arg)...)
		case "generics":
			cur.generics = arg
		case "decreases":
			if loop != nil {
				loop.dec = append(loop.dec, cl)
			} else {
				cur.dec = append(cur.dec, cl)
			}
		case "entry":
			cur.entry += full + "\n"
		case "exit":
			cur.exit += full + "\n"
		case "after", "before":
			f := strings.SplitN(arg, " ", 2)
			nm := f[0]
			nth := 0
			if k := strings.Index(nm, "#"); k >= 0 {
				for _, c := range nm[k+1:] {
					nth = nth*10 + int(c-'0')
				}
				nm = nm[:k]
			}
			t := text
			if len(f) > 1 {
				t = f[1] + "\n" + text
			}
			cur.hints = append(cur.hints, Hint{nm, nth, t, word == "before"})
		case "loop":
			n := 0
			for _, c := range strings.TrimSpace(arg) {
				n = n*10 + int(c-'0')
			}
			loop = &LoopSpec{}
			cur.loops[n] = loop
		case "endloop":
			loop = nil
		case "invariant":
			loop.inv = append(loop.inv, cl)
		case "loopbefore":
			loop.before += full + "\n"
		case "loopentry":
			loop.entry += full + "\n"
		case "loopbody":
			loop.body += full + "\n"
		case "loopend":
			loop.end += full + "\n"
		case "loopexit":
			loop.exit += full + "\n"
		case "body":
			cur.body = full
		case "itype":
			f := strings.Fields(arg)
			sp.itypes[f[0]] = [2]string{f[1], f[2]}
		case "conv":
			f := strings.SplitN(arg, " ", 2)
			sp.convs[f[0]] = strings.TrimSpace(f[1])
		case "end", "comment":
		default:
			fatal("%s:%d: unknown directive @%s", file, start+1, word)
		}
	}
	return sp, nil
}
