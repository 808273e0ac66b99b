package main

import "strings"

// narrow keeps the part of every contract that one property needs: the clauses
// carrying one of the labels, and the frame conditions. What is dropped is
// neither assumed nor checked, so the remaining obligations stand on their own,
// as statements about executions that return.
func narrow(cs *Contracts, labels, uses []string) {
	keep := map[string]bool{}
	for _, l := range labels {
		keep[l] = true
	}
	cut := func(in []Clause) []Clause {
		var r []Clause
		for _, c := range in {
			if keep[c.Label] {
				r = append(r, c)
			}
		}
		return r
	}
	for _, c := range cs.Funcs {
		c.Uses = uses
		if c.Extern {
			continue
		}
		c.Requires = cut(c.Requires)
		c.Ensures = cut(c.Ensures)
		c.Hints = cut(c.Hints)
		c.Assume = cut(c.Assume)
		c.Dec = ""
		for n, l := range c.Loops {
			l.Inv = cut(l.Inv)
			l.Hints = cut(l.Hints)
			l.Dec = ""
			if len(l.Inv) == 0 && len(l.Hints) == 0 {
				delete(c.Loops, n)
			}
		}
	}
	for _, g := range cs.Globals {
		g.Uses = uses
	}
}

// narrowKind says whether an obligation of this kind stays in a narrowed check.
func narrowKind(kind string, labels []string) bool {
	for _, p := range []string{"ensures[", "frame", "closure", "missing", "nocontract", "mutual", "recursion", "signature", "unsupported", "cover", "load", "fatal"} {
		if strings.HasPrefix(kind, p) {
			return true
		}
	}
	for _, l := range labels {
		if strings.HasPrefix(kind, "requires[") && strings.HasSuffix(kind, "."+l+"]") {
			return true
		}
		if strings.HasPrefix(kind, "loop") && strings.Contains(kind, ".inv["+l+"]") {
			return true
		}
	}
	return false
}
