package main

import (
	"go/ast"
	"go/types"
	"strings"
)

// NewGen makes a generator for a loaded program and its contracts.
func NewGen(p *Prog, cs *Contracts) *Gen {
	g := &Gen{prog: p, cs: cs,
		structs: map[string]string{}, lits: map[string]string{}, uninterp: map[string]string{}, heapTypes: map[string]bool{},
		ids: map[string]int{}, queued: map[string]bool{}, globQueued: map[string]bool{}, globals: map[types.Object]Val{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, havocked: map[string]bool{}, uses: map[string]bool{},
		errIDs: map[string]int{}, constSeen: map[string]bool{}, edges: map[string]map[string]bool{}, forced: map[string]bool{}}
	for t := range cs.Heaps {
		g.heapTypes[t] = true
	}
	return g
}

// enqueue asks for the obligations of a function under contract.
func (g *Gen) enqueue(key string) {
	if g.queued[key] {
		return
	}
	g.queued[key] = true
	g.queue = append(g.queue, key)
}

func (g *Gen) enqueueGlobal(key string) {
	if g.globQueued[key] {
		return
	}
	g.globQueued[key] = true
	g.globOrder = append(g.globOrder, key)
}

// Run verifies everything in the queue; with deep it follows the callees.
func (g *Gen) Run(entries []string) (verified []string) {
	for _, e := range entries {
		g.enqueue(e)
	}
	for i := 0; i < len(g.queue) || len(g.globOrder) > 0; {
		if len(g.globOrder) > 0 {
			k := g.globOrder[0]
			g.globOrder = g.globOrder[1:]
			g.verifyGlobal(k)
			continue
		}
		k := g.queue[i]
		i++
		con := g.cs.Funcs[k]
		if con == nil {
			g.obligs = append(g.obligs, &Oblig{ID: k + "#nocontract.1", Func: k, Kind: "nocontract", Text: "no contract for " + k, Goal: "false"})
			continue
		}
		if con.Extern {
			continue
		}
		g.VerifyFunc(k)
		verified = append(verified, k)
	}
	g.recursion()
	return verified
}

// recursion rejects call cycles between functions under contract, other than
// direct recursion, whose measure is checked at the call.
func (g *Gen) recursion() {
	color := map[string]int{}
	var stack []string
	var visit func(k string)
	visit = func(k string) {
		color[k] = 1
		stack = append(stack, k)
		for _, n := range sortedKeys(g.edges[k]) {
			if n == k {
				continue
			}
			if color[n] == 1 {
				g.obligs = append(g.obligs, &Oblig{ID: k + "#mutual.1", Func: k, Kind: "mutual", Text: "mutual recursion through " + n + " is outside the verifier's reach: termination is not shown", Goal: "false"})
				continue
			}
			if color[n] == 0 {
				visit(n)
			}
		}
		stack = stack[:len(stack)-1]
		color[k] = 2
	}
	for _, k := range sortedKeys(g.edges) {
		if color[k] == 0 {
			visit(k)
		}
	}
}

// verifyGlobal checks a package-level variable's initial value against its contract.
func (g *Gen) verifyGlobal(key string) {
	gs := g.cs.Globals[key]
	if gs == nil || gs.Value == "" {
		return
	}
	i := strings.LastIndex(key, ".")
	pkg := g.prog.Short[key[:i]]
	if pkg == nil {
		return
	}
	o, _ := pkg.Types.Scope().Lookup(key[i+1:]).(*types.Var)
	if o == nil {
		g.obligs = append(g.obligs, &Oblig{ID: key + "#missing.1", Func: key, Kind: "missing", Text: "package variable " + key + " no longer exists", Goal: "false"})
		return
	}
	x := &Exec{g: g, key: key, con: &Contract{Key: key, Modifies: map[string]bool{}, Consumes: map[string]bool{}, Fresh: map[string]bool{}, Loops: map[int]*LoopSpec{}}, loopOrd: map[string]int{}, unknownFam: map[string]bool{}, entryEnv: map[string]string{}}
	st := newState()
	x.entry = st.clone()
	g.initGhost(x, st)
	init := g.initExpr(pkg, o)
	if init == nil {
		// assigned in an init function
		g.verifyGlobalInit(x, st, key, pkg, o, gs)
		return
	}
	x.numberLoops(init, pkg, key, map[string]bool{})
	c := &C{pkg: pkg, stack: key, brk: map[string]func(*State){}, cont: map[string]func(*State){}}
	x.ev(init, st, c, func(st *State, v Val) {
		x.globalPost(st, key, gs, x.convertAssign(st, v, o.Type()), o, init)
	})
}

func (x *Exec) globalPost(st *State, key string, gs *GlobalSpec, v Val, o *types.Var, at ast.Node) {
	s, ok := x.specTerm(st, v, o.Type())
	w, ok2 := x.spec(st, nil, gs.Value, nil)
	goal := "false"
	if ok && ok2 {
		goal = s + " =~= (" + w + ")"
	}
	x.oblig(st, "global[value]", "package variable "+key+" has the value of its contract", at.Pos(), goal)
	for _, f := range gs.Facts {
		fs, ok := x.spec(st, nil, f, nil)
		if !ok {
			fs = "false"
		}
		x.oblig(st, "global[fact]", "package variable "+key+": "+oneLine(f), at.Pos(), fs)
	}
}

func (g *Gen) verifyGlobalInit(x *Exec, st *State, key string, pkg *Pkg, o *types.Var, gs *GlobalSpec) {
	for _, f := range pkg.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != "init" || fd.Recv != nil {
				continue
			}
			uses := false
			ast.Inspect(fd, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && pkg.Info.Uses[id] == o {
					uses = true
				}
				return true
			})
			if uses {
				x.unsupported(st, fd.Pos(), "package variable "+key+" is assigned in an init function")
				return
			}
		}
	}
	x.unsupported(st, o.Pos(), "package variable "+key+" has no initial value")
}

func newState() *State {
	return &State{env: map[types.Object]Val{}, names: map[string]types.Object{}, heap: map[int]Val{}, ghost: map[string]string{}, known: map[string]bool{}, lets: map[string]string{}, frozen: map[string]string{}}
}
