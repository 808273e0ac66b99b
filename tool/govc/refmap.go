package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Maps of slices or of maps are modelled by reference: the value is an identity
// (0 is nil), and a ghost heap gives the content behind each identity.

func refMap(t types.Type) (*types.Map, bool) {
	if t == nil {
		return nil, false
	}
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	switch e := types.Unalias(m.Elem()).Underlying().(type) {
	case *types.Slice, *types.Map:
		return m, true
	case *types.Basic:
		if e.Info()&types.IsString != 0 {
			return m, true
		}
	case *types.Pointer: // to something of another library: an identity
		if n, ok := types.Unalias(e.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return m, true
		}
	}
	return nil, false
}

// mapHeap names the ghost heap of a kind of map.
func (g *Gen) mapHeap(m *types.Map) string {
	vt := g.vtype(m.Elem())
	if isSlice(m.Elem()) {
		vt = "Option<" + vt + ">"
	}
	kt := g.vtype(m.Key())
	name := "$maps_" + mangle(kt+"_"+vt)
	switch {
	case kt == "Seq<u8>" && vt == "Option<Seq<u8>>":
		name = "$bmaps"
	case kt == "Seq<u8>" && vt == "Seq<u8>":
		name = "$smaps"
	case kt == "Seq<u8>" && vt == "Option<GAny>":
		name = "$pmaps"
	case kt == "Seq<u8>" && vt == "int":
		name = "$mmaps"
	}
	ghostTypes[name] = "Map<int, Map<" + kt + ", " + vt + ">>"
	return name
}

func (x *Exec) heapOf(st *State, m *types.Map) (string, string) {
	n := x.g.mapHeap(m)
	if st.ghost[n] == "" {
		st.ghost[n] = x.sym(st, "heap", ghostTypes[n])
	}
	return n, st.ghost[n]
}

func (x *Exec) setHeap(st *State, n, v string) {
	s := x.sym(st, "heap", ghostTypes[n])
	st.fact(s + " == " + v)
	st.ghost[n] = s
}

func (x *Exec) refMake(st *State, m *types.Map, T types.Type) Term {
	n, h := x.heapOf(st, m)
	id := x.sym(st, "map", "int")
	st.fact("(" + id + " > 0 && !" + h + ".dom().contains(" + id + "))")
	x.setHeap(st, n, h+".insert("+id+", Map::empty())")
	return Term{S: id, T: T, Nil: "false"}
}

func (x *Exec) refID(st *State, mv Val) (string, bool) {
	if b, ok := mv.(Box); ok {
		mv = st.heap[b.Obj]
	}
	switch u := mv.(type) {
	case NilV:
		return "0", true
	case Term:
		return parenT(u.S), true
	}
	return "", false
}

func (x *Exec) refSet(st *State, mv, kv, v Val, m *types.Map, p token.Pos) {
	id, ok := x.refID(st, mv)
	k, ok2 := x.asKey(st, kv, m.Key())
	if !ok || !ok2 {
		x.unsupported(st, p, "map write")
		return
	}
	n, h := x.heapOf(st, m)
	x.oblig(st, "nil", "assignment to an entry of a nil map", p, "("+id+" != 0)")
	st.fact("(" + id + " != 0)")
	x.guardWrite(st, p)
	var e string
	if isSlice(m.Elem()) {
		t, ok := x.term(st, x.convertAssign(st, v, m.Elem()), m.Elem())
		if !ok {
			x.unsupported(st, p, "map value")
			return
		}
		switch nl := x.nilOf(st, t); nl {
		case "true":
			e = "None"
		case "false":
			e = "Some(" + t.S + ")"
		default:
			e = "(if " + nl + " { None } else { Some(" + t.S + ") })"
		}
		x.freeze(st, t)
	} else {
		s, ok := x.toTerm(st, v, m.Elem())
		if !ok {
			x.unsupported(st, p, "map value")
			return
		}
		e = s
	}
	x.setHeap(st, n, h+".insert("+id+", "+h+"["+id+"].insert("+k+", "+e+"))")
}

func (x *Exec) refGet(st *State, mv, kv Val, m *types.Map, p token.Pos, k func(*State, Val, string)) {
	id, ok := x.refID(st, mv)
	key, ok2 := x.asKey(st, kv, m.Key())
	if !ok || !ok2 {
		x.unsupported(st, p, "map lookup")
		return
	}
	_, h := x.heapOf(st, m)
	pres := "(" + id + " != 0 && " + h + "[" + id + "].dom().contains(" + key + "))"
	x.branch(st, pres, func(st *State) {
		e := h + "[" + id + "][" + key + "]"
		if isSlice(m.Elem()) {
			t := Term{S: "bval(" + e + ")", T: m.Elem(), Nil: "(" + e + " is None)"}
			st.fact("is_len(" + t.S + ".len() as int)")
			k(st, t, "true")
			return
		}
		k(st, Term{S: e, T: m.Elem()}, "true")
	}, func(st *State) { k(st, x.g.zero(m.Elem()), "false") })
}

func (x *Exec) refDelete(st *State, mv, kv Val, m *types.Map, p token.Pos) {
	id, ok := x.refID(st, mv)
	key, ok2 := x.asKey(st, kv, m.Key())
	if !ok || !ok2 {
		x.unsupported(st, p, "map delete")
		return
	}
	n, h := x.heapOf(st, m)
	x.guardWrite(st, p)
	x.setHeap(st, n, "(if "+id+" == 0 { "+h+" } else { "+h+".insert("+id+", "+h+"["+id+"].remove("+key+")) })")
}

// refModified notes the map heaps an AST node may change.
func (x *Exec) refModified(n ast.Node, info *types.Info, m *modset) {
	note := func(e ast.Expr) {
		if t, ok := refMap(info.TypeOf(e)); ok {
			m.addGhost(x.g.mapHeap(t))
		}
	}
	switch u := n.(type) {
	case *ast.AssignStmt:
		for _, l := range u.Lhs {
			if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
				note(ix.X)
			}
		}
	case *ast.CompositeLit:
		note(u)
	case *ast.CallExpr:
		if id, ok := ast.Unparen(u.Fun).(*ast.Ident); ok {
			if b, ok := info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "make") {
				note(u.Args[0])
			}
		}
		for _, a := range u.Args {
			note(a)
		}
	case *ast.UnaryExpr:
		if u.Op == token.ARROW {
			m.addGhost("$rcv")
		}
	}
}

// ---------------------------------------------------------------- locks

// guardRead and guardWrite ask for the lock the contract says protects some fields.
func (x *Exec) guardRead(st *State, field string, p token.Pos) {
	if x.con == nil || !x.con.Guarded[field] || st.ghost["$lock"] == "" {
		return
	}
	x.oblig(st, "guarded", "."+field+" is used only with the lock held", p, "(!("+st.ghost["$lock"]+" is Free))")
}

func (x *Exec) guardWrite(st *State, p token.Pos) {
	if x.con == nil || len(x.con.Guarded) == 0 || st.ghost["$lock"] == "" {
		return
	}
	x.oblig(st, "guarded", "shared state is changed only with the exclusive lock held", p, "("+st.ghost["$lock"]+" is Excl)")
}

// lockField is the name of the mutex field a lock operation is called on.
func lockField(call *ast.CallExpr) string {
	if sel, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr); ok {
		switch u := ast.Unparen(sel.X).(type) {
		case *ast.SelectorExpr:
			return u.Sel.Name
		case *ast.Ident:
			return u.Name
		}
	}
	return ""
}

func biLock(from, to string) builtinFn {
	return func(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
		if n := lockField(call); st.ghost["$lock_"+n] != "" {
			// a mutex with a ghost of its own guards no shared fields
			x.oblig(st, "lock", f.F.Name()+" when "+n+" is "+from, call.Pos(), "("+st.ghost["$lock_"+n]+" is "+from+")")
			st.ghost["$lock_"+n] = "Lk::" + to
		} else if l := st.ghost["$lock"]; l != "" {
			x.oblig(st, "lock", f.F.Name()+" when the lock is "+from, call.Pos(), "("+l+" is "+from+")")
			if to == "Free" {
				x.release(st, call.Pos())
			}
			st.ghost["$lock"] = "Lk::" + to
			if to != "Free" {
				x.acquire(st)
			}
		}
		k(st, Tuple{})
	}
}

// callbackHavoc forgets what a callback may change through the maps it is given.
func (x *Exec) callbackHavoc(st *State, args []Val) {
	for _, a := range args {
		p, ok := a.(Ptr)
		if !ok {
			continue
		}
		v, _ := x.readPath(st, p)
		s, ok := v.(Struct)
		if !ok {
			continue
		}
		for _, fn := range sortedKeys(s.F) {
			fv := s.F[fn]
			t, isT := fv.(Term)
			if !isT {
				continue
			}
			if m, ok := refMap(t.T); ok {
				n, h := x.heapOf(st, m)
				nh := x.sym(st, "heap", ghostTypes[n])
				id := parenT(t.S)
				st.fact("((forall|j_: int| (j_ != " + id + " || " + id + " == 0) ==> (#[trigger] " + nh + ".dom().contains(j_) == " + h + ".dom().contains(j_))) && (forall|j_: int| (j_ != " + id + " || " + id + " == 0) ==> (#[trigger] " + nh + "[j_] == " + h + "[j_])) && (" + nh + ".dom().contains(" + id + ") == " + h + ".dom().contains(" + id + ")))")
				st.ghost[n] = nh
				x.g.assumed["a transaction function changes the stored maps only through the handle it is given, and drops the handle when it returns"] = true
			}
		}
	}
}

// paramTerms gives the contract's parameter names their values in a state.
func (x *Exec) paramTerms(st *State) map[string]string {
	r := map[string]string{}
	for i, o := range x.params {
		if v, ok := x.entry.env[o]; ok {
			if s, ok := x.specTerm(st, v, o.Type()); ok {
				r[x.con.Params[i]] = s
			}
		}
	}
	return r
}

// sharedPre is a state to be named by pre(...) in a rely clause.
func (x *Exec) sharedPre(st *State) *State {
	n := st.clone()
	for k, v := range x.paramTerms(n) {
		n.lets[k] = v
	}
	return n
}

// acquire forgets what other goroutines may have done to the shared state while the lock
// was free: any change that keeps the shared invariant and the rely relation.
func (x *Exec) acquire(st *State) {
	if x.con == nil || len(x.con.Shared) == 0 {
		return
	}
	pre := x.sharedPre(st)
	for _, n := range x.con.Shared {
		if strings.HasPrefix(n, "$") {
			if gt, ok := ghostTypes[n]; ok {
				st.ghost[n] = x.sym(st, n, gt)
			}
			continue
		}
		if len(x.params) == 0 {
			continue
		}
		p, ok := x.entry.env[x.params[0]].(Ptr)
		if !ok {
			continue
		}
		v, ok := x.readPath(st, p)
		s, isS := v.(Struct)
		if !ok || !isS || s.F[n] == nil {
			continue
		}
		c := Struct{T: s.T, F: map[string]Val{}}
		for k, fv := range s.F {
			c.F[k] = fv
		}
		if ft := fieldType(s.T, n); ft != nil {
			c.F[n] = x.havoc(st, n, ft)
		}
		x.writePath(st, p, c)
	}
	env := x.paramTerms(st)
	for _, cl := range append(append([]Clause(nil), x.con.SharedInv...), x.con.Rely...) {
		if s, ok := x.spec(st, pre, cl.Expr, env); ok {
			st.fact(s)
		}
	}
	st.acq = x.sharedPre(st)
}

// release: the shared state is left as the other goroutines rely on it being.
func (x *Exec) release(st *State, p token.Pos) {
	if x.con == nil || len(x.con.Shared) == 0 || st.acq == nil {
		return
	}
	env := x.paramTerms(st)
	for i, cl := range x.con.SharedInv {
		s, ok := x.spec(st, st.acq, cl.Expr, env)
		if !ok {
			s = "false"
		}
		x.oblig(st, "invariant["+label(cl, "shared", i)+"]", "the shared state is in order when the lock is released: "+oneLine(cl.Expr), p, s)
	}
	for i, cl := range x.con.Rely {
		s, ok := x.spec(st, st.acq, cl.Expr, env)
		if !ok {
			s = "false"
		}
		x.oblig(st, "rely["+label(cl, "rely", i)+"]", "what others rely on is kept by the time the lock is released: "+oneLine(cl.Expr), p, s)
	}
	st.rel = x.sharedPre(st)
}

func label(c Clause, base string, i int) string {
	if c.Label != "" {
		return c.Label
	}
	return base + string(rune('1'+i))
}

func fieldType(t types.Type, name string) types.Type {
	s, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		if p, isP := types.Unalias(t).Underlying().(*types.Pointer); isP {
			return fieldType(p.Elem(), name)
		}
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// runCallback executes a function literal handed to an external function that calls it at
// most once, and goes on in each case with $ran and $ferr for the external's contract.
func (x *Exec) runCallback(call *ast.CallExpr, con *Contract, cl Clos, pre map[string]string, inst func(string, map[string]string) (string, bool), st *State, c *C, k func(st *State, ran, ferr string)) {
	s0 := st.clone()
	k(s0, "false", "GoErr::Nil")
	sig, ok := types.Unalias(cl.Lit.Pkg.Info.TypeOf(cl.Lit.Lit)).Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != len(con.RunsArgs) {
		x.unsupported(st, call.Pos(), "callback of another shape than the contract's")
		return
	}
	env := map[string]string{}
	for a, b := range pre {
		env[a] = b
	}
	var args []Val
	for i, n := range con.RunsArgs {
		v := x.havoc(st, n, sig.Params().At(i).Type())
		if s, ok := x.specTerm(st, v, sig.Params().At(i).Type()); ok {
			env[n] = s
		}
		args = append(args, v)
	}
	for _, w := range con.With {
		if s, ok := inst(w.Expr, env); ok {
			st.fact(s)
		}
	}
	x.applyCall(call, cl, args, st, c, func(st *State, r Val) {
		e := "GoErr::Nil"
		if t, ok := x.term(st, r, tErr); ok {
			e = t.S
		}
		k(st, "true", e)
	})
}
