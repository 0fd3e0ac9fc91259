package main

import (
	_ "embed"
	"flag"
	"go/types"
	"strings"
)

//go:embed prelude.rs
var preludeText string

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			m[x] = true
		}
	}
	return m
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	contracts := flag.String("contracts", "/verif/contracts", "contract files")
	pkgs := flag.String("pkgs", "", "comma separated packages")
	out := flag.String("out", "out.rs", "generated Verus file")
	js := flag.String("json", "", "report")
	vac := flag.Bool("vacuity", false, "assert false at every function exit")
	nohints := flag.String("nohints", "", "functions translated without proof hints")
	degrade := flag.String("degrade", "", "functions to leave out")
	locals := flag.String("locals", "", "write the table of locals (of the unchanged tree) to this file")
	flag.Parse()
	g := &Gen{l: NewLoader(*repo), used: map[*types.Named][]bool{}, globals: map[string]string{}, callees: map[*Fn][]*Fn{}, inl: map[*Fn]map[string]bool{}, trusted: map[string]bool{}, vacuity: *vac, nohints: set(*nohints), degrade: set(*degrade), ifused: map[string]bool{}, drops: map[string]bool{}, locals: loadLocals(*contracts), recs: map[string]*FnRec{}}
	g.run(strings.Split(*pkgs, ","), *contracts, *out, *js)
	if *locals != "" {
		g.dumpLocals(*locals)
	}
}
