package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ghostTypes are the ghost variables the engine maintains.
var ghostTypes = map[string]string{
	"$fault": "bool",
	"$ev":    "Seq<Ev>",
	"$rdb":   "Db",
	"$nread": "int",
}

var ghostConst = map[string]bool{}

func ghostBase(k string) string { return k }

func (g *Gen) initGhost(x *Exec, st *State) {
	for _, k := range []string{"$fault", "$ev", "$rdb", "$nread"} {
		st.ghost[k] = x.sym(st, k, ghostTypes[k])
	}
	st.fact(st.ghost["$nread"] + " == 0")
	if x.con != nil {
		for _, k := range x.con.Ghosts {
			st.ghost[k] = x.sym(st, k, ghostTypes[k])
		}
	}
}

func fieldVarType(s *types.Signature, i int) types.Type {
	n := s.Params().Len()
	if s.Variadic() && i >= n-1 {
		return s.Params().At(n - 1).Type().(*types.Slice).Elem()
	}
	if i < n {
		return s.Params().At(i).Type()
	}
	return nil
}

func (x *Exec) call(call *ast.CallExpr, st *State, c *C, k func(*State, Val)) {
	fun := ast.Unparen(call.Fun)
	// conversion
	if tv, ok := c.pkg.Info.Types[fun]; ok && tv.IsType() {
		x.ev(call.Args[0], st, c, func(st *State, v Val) {
			k(st, x.convert(st, v, c.pkg.Info.TypeOf(call.Args[0]), tv.Type, call.Pos()))
		})
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := c.pkg.Info.Uses[id].(*types.Builtin); ok {
			x.langBuiltin(b.Name(), call, st, c, k)
			return
		}
	}
	x.evCallee(call, st, c, func(st *State, fv Val) {
		if fr, ok := fv.(FuncRef); ok {
			if rb := rawBuiltins[funcKey(fr.F)]; rb != nil {
				rb(x, call, fr, st, c, k)
				return
			}
		}
		sig, _ := types.Unalias(c.pkg.Info.TypeOf(call.Fun)).Underlying().(*types.Signature)
		x.evArgs(call, sig, st, c, func(st *State, args []Val) {
			x.applyCall(call, fv, args, st, c, k)
		})
	})
}

// evArgs evaluates arguments, packing variadic ones.
func (x *Exec) evArgs(call *ast.CallExpr, sig *types.Signature, st *State, c *C, k func(*State, []Val)) {
	x.evList(call.Args, st, c, func(st *State, args []Val) {
		out := make([]Val, len(args))
		for i, a := range args {
			var pt types.Type
			if sig != nil && !(call.Ellipsis.IsValid() && i == len(args)-1) {
				pt = fieldVarType(sig, i)
			} else if sig != nil && sig.Params().Len() > 0 {
				pt = sig.Params().At(sig.Params().Len() - 1).Type()
			}
			if pt != nil && isIface(pt) && !isErrorType(pt) {
				out[i] = x.keepDynamic(st, a, pt)
			} else {
				out[i] = x.copyVal(st, x.convertAssign(st, a, pt))
			}
		}
		k(st, out)
	})
}

// keepDynamic passes a value to an interface parameter without losing what it is.
func (x *Exec) keepDynamic(st *State, v Val, pt types.Type) Val {
	if n, ok := v.(NilV); ok {
		if b, isB := types.Unalias(n.T).(*types.Basic); isB && b.Kind() == types.UntypedNil {
			return NilV{T: pt}
		}
	}
	if b, ok := v.(Box); ok {
		return st.heap[b.Obj]
	}
	return v
}

func (x *Exec) evCallee(call *ast.CallExpr, st *State, c *C, k func(*State, Val)) {
	fun := ast.Unparen(call.Fun)
	switch u := fun.(type) {
	case *ast.SelectorExpr:
		if sel := c.pkg.Info.Selections[u]; sel != nil && sel.Kind() == types.MethodVal {
			x.evCallee2(u, st, c, k)
			return
		}
	case *ast.IndexExpr:
		fun = u.X
	}
	x.ev(fun, st, c, k)
}

func (x *Exec) evCallee2(u *ast.SelectorExpr, st *State, c *C, k func(*State, Val)) {
	sel := c.pkg.Info.Selections[u]
	fo := sel.Obj().(*types.Func)
	rt := fo.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.(*types.Pointer)
	fin := func(st *State, rv Val) {
		if len(sel.Index()) > 1 {
			// embedded: walk to the field
			rv, _ = x.walkEmbedded(st, rv, sel, u.Pos())
		}
		k(st, FuncRef{F: fo, Recv: rv})
	}
	bt := c.pkg.Info.TypeOf(u.X)
	_, havePtr := types.Unalias(bt).Underlying().(*types.Pointer)
	if wantPtr && !havePtr && len(sel.Index()) == 1 {
		// implicit address
		if id, ok := ast.Unparen(u.X).(*ast.Ident); ok {
			if v, ok := st.env[c.pkg.Info.Uses[id]]; ok {
				if b, isB := v.(Box); isB {
					fin(st, Ptr{Obj: b.Obj, T: types.NewPointer(bt)})
					return
				}
				if o, isO := v.(Opaque); isO {
					fin(st, o)
					return
				}
				obj := x.alloc(st, v)
				st.env[c.pkg.Info.Uses[id]] = Box{obj}
				fin(st, Ptr{Obj: obj, T: types.NewPointer(bt)})
				return
			}
		}
		x.unary(&ast.UnaryExpr{OpPos: u.Pos(), Op: token.AND, X: u.X}, st, &C{pkg: &Pkg{Path: c.pkg.Path, Short: c.pkg.Short, Types: c.pkg.Types, Info: c.pkg.Info}, stack: c.stack, brk: c.brk, cont: c.cont, ret: c.ret, res: c.res, sig: c.sig}, fin)
		return
	}
	if !wantPtr && havePtr && len(sel.Index()) == 1 && !types.IsInterface(rt) {
		x.ev(u.X, st, c, func(st *State, v Val) { fin(st, x.deref(st, v, rt, u.Pos())) })
		return
	}
	x.ev(u.X, st, c, fin)
}

func (x *Exec) walkEmbedded(st *State, v Val, sel *types.Selection, p token.Pos) (Val, types.Type) {
	t := sel.Recv()
	idx := sel.Index()
	for _, n := range idx[:len(idx)-1] {
		if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		su := types.Unalias(t).Underlying().(*types.Struct)
		f := su.Field(n)
		v = x.fieldOf(st, v, f, p)
		t = f.Type()
	}
	return v, t
}

func (x *Exec) resultHavoc(st *State, base string, sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return x.havoc(st, base, sig.Results().At(0).Type())
	}
	return x.havoc(st, base, sig.Results())
}

func (x *Exec) applyCall(call *ast.CallExpr, fv Val, args []Val, st *State, c *C, k func(*State, Val)) {
	switch f := fv.(type) {
	case Clos:
		x.inlineClos(call, f, args, st, c, k)
	case FuncRef:
		x.callFunc(call, f, args, st, c, k)
	case NilV:
		x.oblig(st, "nil", "call of a nil function", call.Pos(), "false")
	case Term:
		x.callSymbolic(call, f, args, st, c, k)
	case Opaque:
		sig, _ := types.Unalias(c.pkg.Info.TypeOf(call.Fun)).Underlying().(*types.Signature)
		if sig == nil {
			k(st, Tuple{})
			return
		}
		k(st, x.resultHavoc(st, "ret", sig))
	default:
		x.unsupported(st, call.Pos(), fmt.Sprintf("call of %T", fv))
	}
}

// callSymbolic calls a function value the verifier knows nothing about.
func (x *Exec) callSymbolic(call *ast.CallExpr, f Term, args []Val, st *State, c *C, k func(*State, Val)) {
	sig, ok := types.Unalias(f.T).Underlying().(*types.Signature)
	if !ok {
		x.unsupported(st, call.Pos(), "call of a symbolic value")
		return
	}
	x.nilCheck(st, f, "call", call.Pos())
	gname := ""
	for i, o := range x.params {
		if t, isT := x.entry.env[o].(Term); isT && t.S == f.S {
			gname = "$calls_" + x.con.Params[i]
		}
	}
	x.g.havocked["function value called in "+x.key] = true
	if nt, ok := types.Unalias(f.T).(*types.Named); ok && x.con.Records[namedKey(nt)] != "" {
		gname = x.con.Records[namedKey(nt)]
	} else if gname != "" {
		x.checkInvokes(st, gname, sig, args, call.Pos())
	}
	if st.ghost["$during"] != "" && st.ghost["$lock"] != "" {
		st.ghost["$during"] = st.ghost["$lock"]
		if st.ghost["$at"] != "" {
			st.ghost["$at"] = st.ghost["$bmaps"]
		}
	}
	r := x.resultHavoc(st, "fr", sig)
	defer0 := func(st *State) { x.callbackHavoc(st, args) }
	if gname != "" && st.ghost[gname] != "" {
		var ps []string
		for i := 0; i < sig.Params().Len(); i++ {
			pt := sig.Params().At(i).Type()
			if g := x.g.vtype(pt); g == "GAny" || strings.Contains(pt.String(), "context.Context") {
				continue
			}
			s, ok := x.toTerm(st, args[i], pt)
			if u, isP := args[i].(Ptr); isP && isIface(pt) {
				if in, good := x.toTerm(st, u, u.T); good {
					s, ok = x.g.wrapIface(u.T, in), true
				}
			}
			if !ok {
				s = "arbitrary()"
			}
			ps = append(ps, s)
		}
		if rt, ok := r.(Term); ok && isErrorType(rt.T) {
			ps = append(ps, rt.S)
		}
		st.ghost[gname] = st.ghost[gname] + ".push((" + strings.Join(ps, ", ") + "))"
		n := x.sym(st, "calls", ghostTypes[gname])
		st.fact(n + " == " + st.ghost[gname])
		st.ghost[gname] = n
	}
	defer0(st)
	k(st, r)
}

func callsType(g *Gen, sig *types.Signature) string {
	var ps []string
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		if v := g.vtype(pt); v == "GAny" || strings.Contains(pt.String(), "context.Context") {
			continue
		}
		ps = append(ps, g.vtype(sig.Params().At(i).Type()))
	}
	if sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
		ps = append(ps, "GoErr")
	}
	return "Seq<(" + strings.Join(ps, ", ") + ")>"
}

func (x *Exec) callFunc(call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	key := funcKey(f.F)
	sig := f.F.Type().(*types.Signature)
	if h, ok := f.Recv.(Hash); ok {
		x.hashCall(h, f.F.Name(), args, st, call.Pos(), k)
		return
	}
	if b := builtins[key]; b != nil {
		b(x, call, f, args, st, c, k)
		return
	}
	if con := x.conOf(key); con != nil && !con.Inline {
		x.callContract(call, con, f, args, st, c, k)
		return
	}
	if fd := x.g.prog.Funcs[f.F]; fd != nil && fd.Body != nil {
		x.inlineFunc(call, f, fd, args, st, c, k)
		return
	}
	// interface method or external function without a contract
	if sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		if t, ok := f.Recv.(Term); ok && strings.HasPrefix(x.g.vtype(t.T), "Option<") {
			x.nilCheck(st, t, "call of ."+f.F.Name(), call.Pos())
		}
		if _, ok := f.Recv.(NilV); ok {
			x.oblig(st, "nil", "method call on a nil interface: "+f.F.Name(), call.Pos(), "false")
			return
		}
	}
	x.g.havocked[key] = true
	for _, a := range args {
		x.havocArg(st, a)
	}
	if p, ok := f.Recv.(Ptr); ok {
		x.havocArg(st, p)
	}
	r := x.resultHavoc(st, f.F.Name(), sig)
	if strings.Contains(key, "context.With") { // documented: a context and its cancel function are never nil
		if t, ok := r.(Tuple); ok {
			for _, v := range t {
				if w, ok := v.(Term); ok && strings.HasPrefix(x.g.vtype(w.T), "Option<") {
					st.fact("(" + w.S + " is Some)")
				}
			}
		}
	}
	if noNilOnSuccess(key) {
		if t, ok := r.(Tuple); ok && len(t) == 2 {
			rt, ok1 := t[0].(Term)
			et, ok2 := t[1].(Term)
			if ok1 && ok2 {
				st.fact("((" + et.S + " == GoErr::Nil) ==> (" + rt.S + " is Some))")
				x.g.assumed["an RPC that returns no error returns a non-nil response ("+key+")"] = true
			}
		}
	}
	k(st, r)
}

func noNilOnSuccess(key string) bool {
	return strings.HasPrefix(key, "pb.VerifiableDataStructuresService")
}

// havocArg forgets what a callee may change through a pointer.
func (x *Exec) havocArg(st *State, a Val) {
	switch u := a.(type) {
	case Ptr:
		v, ok := x.readPath(st, u)
		if ok {
			x.writePath(st, u, x.havocVal(st, "out", v, nil))
		}
	case SliceLit:
		for _, e := range u.E {
			x.havocArg(st, e)
		}
	}
}

func (x *Exec) inlineFunc(call *ast.CallExpr, f FuncRef, fd *ast.FuncDecl, args []Val, st *State, c *C, k func(*State, Val)) {
	key := funcKey(f.F)
	pkg := x.g.prog.FPkg[f.F]
	if strings.Contains(">"+c.stack+">", ">"+key+">") || strings.Count(c.stack, ">") > 14 {
		x.oblig(st, "recursion", "recursive function "+key+" has no contract", call.Pos(), "false")
		return
	}
	x.g.inlined[key] = true
	sig := f.F.Type().(*types.Signature)
	savedNames := st.names
	st.names = map[string]types.Object{}
	for a, b := range savedNames {
		st.names[a] = b
	}
	bind := func(id *ast.Ident, v Val, t types.Type) {
		if id == nil || id.Name == "_" {
			return
		}
		o := pkg.Info.Defs[id]
		x.bind(st, o, x.copyVal(st, x.convertAssign(st, v, t)))
	}
	if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
		bind(fd.Recv.List[0].Names[0], f.Recv, sig.Recv().Type())
	}
	x.bindParams(fd.Type, sig, args, st, pkg, bind, call)
	x.runBody(fd.Type, fd.Body, sig, pkg, c.stack+">"+key, st, savedNames, k)
}

func (x *Exec) bindParams(ft *ast.FuncType, sig *types.Signature, args []Val, st *State, pkg *Pkg, bind func(*ast.Ident, Val, types.Type), call *ast.CallExpr) {
	n := sig.Params().Len()
	if sig.Variadic() && !(call != nil && call.Ellipsis.IsValid()) {
		var rest []Val
		if len(args) >= n-1 {
			rest = args[n-1:]
		}
		x.g.fam++
		args = append(append([]Val(nil), args[:n-1]...), SliceLit{E: rest, T: sig.Params().At(n - 1).Type(), Fam: x.g.fam})
	}
	i := 0
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			i++
			continue
		}
		for _, nm := range fl.Names {
			if i < len(args) {
				bind(nm, args[i], sig.Params().At(i).Type())
			}
			i++
		}
	}
}

func (x *Exec) runBody(ft *ast.FuncType, body *ast.BlockStmt, sig *types.Signature, pkg *Pkg, stack string, st *State, savedNames map[string]types.Object, k func(*State, Val)) {
	c2 := &C{pkg: pkg, sig: sig, brk: map[string]func(*State){}, cont: map[string]func(*State){}, stack: stack}
	x.setupResults(st, ft, c2, sig)
	st.defers = append(st.defers[:len(st.defers):len(st.defers)], nil)
	pre := st.pre
	hints := st.hints
	c2.ret = func(s *State, vals []Val) {
		x.finishDefers(s, c2, vals, func(s *State, vals []Val) {
			// what the loops of the callee taught stays known to the caller
			kept := hints[:len(hints):len(hints)]
			for _, h := range s.hints[len(hints):] {
				if h.frozen != "" {
					kept = append(kept, h)
				} else if !strings.Contains(h.cl.Expr, "assert") {
					if t, ok := x.spec(s, h.pre, h.cl.Expr, nil); ok {
						kept = append(kept, scopedHint{cl: h.cl, frozen: t})
					}
				}
			}
			n := make(map[string]types.Object, len(savedNames))
			for a, b := range savedNames {
				n[a] = b
			}
			s.names = n
			s.pre = pre
			s.hints = kept
			if len(vals) == 1 {
				k(s, vals[0])
				return
			}
			k(s, Tuple(vals))
		})
	}
	x.stmts(body.List, st, c2, func(s *State) { c2.ret(s, x.namedResults(s, c2)) })
}

func (x *Exec) inlineClos(call *ast.CallExpr, f Clos, args []Val, st *State, c *C, k func(*State, Val)) {
	sig := f.Lit.Pkg.Info.TypeOf(f.Lit.Lit).(*types.Signature)
	pkg := f.Lit.Pkg
	savedNames := st.names
	st.names = map[string]types.Object{}
	for a, b := range savedNames {
		st.names[a] = b
	}
	bind := func(id *ast.Ident, v Val, t types.Type) {
		if id == nil || id.Name == "_" {
			return
		}
		o := pkg.Info.Defs[id]
		x.bind(st, o, x.copyVal(st, x.convertAssign(st, v, t)))
	}
	x.bindParams(f.Lit.Lit.Type, sig, args, st, pkg, bind, call)
	x.runBody(f.Lit.Lit.Type, f.Lit.Lit.Body, sig, pkg, f.Lit.Key, st, savedNames, k)
}

// callContract replaces a call by the callee's contract.
func (x *Exec) callContract(call *ast.CallExpr, con *Contract, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	g := x.g
	key := con.Key
	sig := f.F.Type().(*types.Signature)
	var vals []Val
	var ts []types.Type
	if sig.Recv() != nil {
		vals = append(vals, f.Recv)
		ts = append(ts, sig.Recv().Type())
	}
	if sig.Variadic() && !call.Ellipsis.IsValid() {
		n := sig.Params().Len()
		var rest []Val
		if len(args) >= n-1 {
			rest = args[n-1:]
		}
		args = append(append([]Val(nil), args[:n-1]...), SliceLit{E: rest, T: sig.Params().At(n - 1).Type()})
	}
	for i, a := range args {
		vals = append(vals, a)
		if i < sig.Params().Len() {
			ts = append(ts, sig.Params().At(i).Type())
		} else {
			ts = append(ts, nil)
		}
	}
	if con.Extern {
		g.assumed["assumed contract of "+key] = true
	} else {
		g.enqueue(key)
		if g.edges[x.key] == nil {
			g.edges[x.key] = map[string]bool{}
		}
		g.edges[x.key][key] = true
	}
	for _, u := range con.Uses {
		g.uses[u] = true
	}
	if len(vals) != len(con.Params) {
		x.oblig(st, "signature", fmt.Sprintf("contract of %s names %d parameters, the call passes %d", key, len(con.Params), len(vals)), call.Pos(), "false")
		return
	}
	pre := map[string]string{}
	var afterViews []func(*State)
	for i, v := range vals {
		if ts[i] != nil && isDBType(ts[i]) {
			if d, fin, ok := x.viewOf(st, v, call.Pos()); ok {
				vals[i] = d
				v = d
				afterViews = append(afterViews, fin)
			}
		}
		if b, ok := v.(Box); ok {
			v = st.heap[b.Obj]
			vals[i] = v
		}
		if s, ok := x.specTermShort(st, v, ts[i]); ok {
			pre[con.Params[i]] = s
		}
		switch v.(type) {
		case Clos, FuncRef:
			if _, has := pre[con.Params[i]]; !has {
				pre[con.Params[i]] = "Some(arbitrary::<GAny>())"
			}
		}
	}
	for k2 := range ghostTypes {
		if s, ok := st.ghost[k2]; ok {
			pre[k2] = s
		}
	}
	inst := func(expr string, env map[string]string) (string, bool) {
		ok := true
		lk := func(env map[string]string) func(string) (string, bool) {
			return func(n string) (string, bool) {
				if v, has := env[n]; has {
					return v, true
				}
				for _, p := range con.Params {
					if p == n {
						ok = false
						return n, true
					}
				}
				if strings.HasPrefix(n, "$") {
					ok = false
					return n, true
				}
				return "", false
			}
		}
		var special func(name, arg string) (string, bool)
		special = func(name, arg string) (string, bool) {
			switch name {
			case "old":
				return template(arg, lk(pre), special), true
			case "lit":
				return g.lit(strings.Trim(strings.TrimSpace(arg), `"`)), true
			case "named_err":
				return g.errTerm(strings.TrimSpace(arg)), true
			case "isnil":
				for i, p := range con.Params {
					if p == strings.TrimSpace(arg) {
						if t, isT := x.term(st, vals[i], ts[i]); isT && isSlice(ts[i]) {
							return x.nilOf(st, t), true
						}
					}
				}
				if v, has := env["isnil:"+strings.TrimSpace(arg)]; has {
					return v, true
				}
				ok = false
				return "false", true
			}
			return "", false
		}
		s := template(expr, lk(env), special)
		return s, ok
	}
	for _, l := range con.Lets {
		if s, ok := inst(l[1], pre); ok {
			pre[l[0]] = "(" + s + ")"
		}
	}
	if x.con != nil {
		for _, b := range x.con.Assuming[key] {
			if s, ok := inst(b.Expr, pre); ok {
				st.fact(s)
				g.assumed["assumed at the calls of "+key+" in "+x.key+": "+oneLine(b.Expr)] = true
			}
		}
		for _, b := range x.con.Before[key] {
			if s, ok := x.spec(st, nil, b.Expr, nil); ok {
				x.oblig(st, "before["+shortKey(key)+"]", "at the call of "+key+" ("+b.Src+"): "+oneLine(b.Expr), call.Pos(), s)
				st.fact(s)
			}
		}
	}
	var givens []string
	for i, r := range con.Requires {
		s, ok := inst(r.Expr, pre)
		if ok && con.mentionsGiven(r.Expr) {
			givens = append(givens, paren(s))
			continue
		}
		lab := r.Label
		if lab == "" {
			lab = fmt.Sprintf("req%d", i+1)
		}
		if !ok {
			s = "false"
		}
		x.oblig(st, "requires["+shortKey(key)+"."+lab+"]", "precondition of "+key+" ("+r.Src+") at the call: "+oneLine(r.Expr), call.Pos(), s)
		st.fact(s)
	}
	given := ""
	if len(givens) > 0 {
		given = strings.Join(givens, " && ")
		s := "(exists|" + con.givenBinder() + "| #![trigger " + givens[0] + "] " + given + ")"
		x.oblig(st, "requires["+shortKey(key)+".given]", "precondition of "+key+" ("+con.Src+") at the call, for some "+con.givenBinder(), call.Pos(), s)
		st.fact(s)
	}
	if key == x.key {
		goal := "false"
		if con.Dec != "" {
			a, ok := inst(con.Dec, pre)
			b, ok2 := x.spec(x.entry, nil, con.Dec, x.entryEnv)
			if ok && ok2 {
				goal = "0 <= (" + b + ") && (" + a + ") < (" + b + ")"
			}
		}
		x.oblig(st, "decreases", "recursion in "+key+" terminates: "+con.Dec, call.Pos(), goal)
	}
	// frame
	post := map[string]string{}
	for a, b := range pre {
		post[a] = b
	}
	var runs Clos
	runsAt := false
	iterPn := ""
	var iterFv Val
	var iterT types.Type
	ptrRes := false
	for i := 0; i < sig.Results().Len(); i++ {
		switch types.Unalias(sig.Results().At(i).Type()).Underlying().(type) {
		case *types.Pointer, *types.Slice:
			if i < len(con.Results) && !con.Fresh[con.Results[i]] {
				ptrRes = true
			}
		}
	}
	for i, v := range vals {
		pn := con.Params[i]
		switch u := v.(type) {
		case DB:
			if con.Modifies[pn] {
				n := x.sym(st, "db", "Db")
				st.ghost["db:"+u.Slot] = n
				post[pn] = n
			}
		case Ptr:
			if con.Modifies[pn] {
				x.ownedWrite(st, u, call.Pos())
				ov, ok := x.readPath(st, u)
				if ok {
					nv := x.havocVal(st, pn, ov, nil)
					x.writePath(st, u, nv)
					pt, isP := types.Unalias(ts[i]).Underlying().(*types.Pointer)
					if isP {
						if s, ok := x.toTerm(st, nv, pt.Elem()); ok {
							post[pn] = "Some(" + s + ")"
						}
					}
				}
			} else if ptrRes {
				x.freeze(st, u)
			}
		case Term:
			if con.Consumes[pn] {
				if u.Fam == 0 && u.Nil != "true" {
					x.oblig(st, "frame", "argument "+pn+" of "+key+" is consumed but not owned by the caller", call.Pos(), "false")
				} else if u.Fam != 0 {
					x.mutateFam(st, u, call.Pos(), false)
				}
			} else if con.Modifies[pn] {
				x.oblig(st, "frame", "argument "+pn+" of "+key+" is modified by the callee but not owned by the caller", call.Pos(), "false")
			}
		case Clos:
			if con.Runs == pn {
				runs, runsAt = u, true
				continue
			}
			if x.iterSpec(key) != nil && con.Modifies["$calls_"+pn] {
				iterPn, iterFv, iterT = pn, u, ts[i]
				continue
			}
			// the callee may call it any number of times
			m := &modset{vars: map[types.Object]bool{}, roots: map[types.Object]bool{}}
			x.modified([]ast.Node{u.Lit.Lit.Body}, u.Lit.Pkg, m, map[ast.Node]bool{})
			x.havocLoop(st, m, "clos")
			x.oblig(st, "closure", "function literal passed to "+key+", whose contract does not describe its calls", call.Pos(), "false")
		}
	}
	for i, v := range vals {
		if u, ok := v.(FuncRef); ok && con.Modifies["$calls_"+con.Params[i]] {
			if x.iterSpec(key) == nil {
				x.oblig(st, "closure", "method value passed to "+key+", whose calls are not described", call.Pos(), "false")
				continue
			}
			iterPn, iterFv, iterT = con.Params[i], u, ts[i]
		}
	}
	iterCalls, iterNil := "", ""
	var iterInvs []string
	if iterPn != "" {
		var ok bool
		if iterCalls, iterNil, iterInvs, ok = x.iterate(call, con, iterPn, iterFv, iterT, x.iterSpec(key), inst, pre, st, c); !ok {
			return
		}
	}
	finish := func(st *State, post map[string]string) {
		for _, gname := range sortedNames(con.Modifies) {
			if strings.HasPrefix(gname, "$") {
				if gt, ok := ghostTypes[gname]; ok && st.ghost[gname] != "" {
					st.ghost[gname] = x.sym(st, gname, gt)
					post[gname] = st.ghost[gname]
				}
			}
		}
		if iterPn != "" {
			post["$calls_"+iterPn] = iterCalls
		}
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			rn := fmt.Sprintf("r%d", i)
			if i < len(con.Results) {
				rn = con.Results[i]
			}
			r := x.havoc(st, rn, rt)
			if o, ok := r.(Opaque); ok {
				o.S = x.sym(st, rn, "GAny")
				r = o
			}
			if t, ok := r.(Term); ok {
				if isSlice(rt) {
					if con.Fresh[rn] {
						g.fam++
						t.Fam = g.fam
					}
					t.Nil = x.nilOf(st, t)
					post["isnil:"+rn] = t.Nil
				}
				r = t
				post[rn] = t.S
			} else if s, ok := x.specTerm(st, r, rt); ok {
				post[rn] = s
			}
			res = append(res, r)
		}
		for _, e := range con.Ensures {
			if s, ok := inst(e.Expr, post); ok {
				if con.mentionsGiven(e.Expr) {
					s = "(forall|" + con.givenBinder() + "| #![trigger " + givens[0] + "] " + given + " ==> " + paren(s) + ")"
				}
				st.fact(s)
			}
		}
		if iterPn != "" {
			// when the callee succeeds every call did, and so the invariant holds
			ok := "false"
			if t, isT := res[len(res)-1].(Term); isT && isErrorType(t.T) {
				ok = "(" + t.S + " == GoErr::Nil)"
			}
			x.oblig(st, "iter["+shortKey(key)+"].all", "when "+key+" succeeds, every call of "+iterPn+" did", call.Pos(), ok+" ==> "+iterNil)
			for _, s := range iterInvs {
				st.fact(ok + " ==> " + paren(s))
			}
		}
		for _, fin := range afterViews {
			fin(st)
		}
		// fresh pointer results become owned objects only when non-nil is known
		switch len(res) {
		case 1:
			k(st, res[0])
		default:
			k(st, Tuple(res))
		}
	}
	if !runsAt {
		finish(st, post)
		return
	}
	x.runCallback(call, con, runs, pre, inst, st, c, func(st *State, ran, ferr string) {
		p := map[string]string{}
		for a, b := range post {
			p[a] = b
		}
		for k2 := range ghostTypes {
			if s, ok := st.ghost[k2]; ok {
				p[k2] = s
			}
		}
		p["$ran"], p["$ferr"] = ran, ferr
		finish(st, p)
	})
}

// specTermAt is specTerm, but a pointer handed over (or returned) as an interface stands for
// what it points to at that point.
func (x *Exec) specTermAt(st *State, v Val, t types.Type) (string, bool) {
	if u, isP := v.(Ptr); isP && t != nil && isIface(t) && !isErrorType(t) {
		if in, good := x.toTerm(st, u, u.T); good {
			return x.g.wrapIface(u.T, in), true
		}
	}
	return x.specTerm(st, v, t)
}

func (x *Exec) specTermShort(st *State, v Val, t types.Type) (string, bool) {
	s, ok := x.specTermAt(st, v, t)
	if !ok {
		return s, ok
	}
	if (len(s) > 60 || strings.HasPrefix(s, "seq![box_")) && t != nil && !isDBType(t) {
		vt := x.g.vtype(t)
		n := x.sym(st, "a", vt)
		st.fact(n + " == " + s)
		return n, true
	}
	return s, true
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

// ---------------------------------------------------------------- conversions

func (x *Exec) convert(st *State, v Val, from, to types.Type, p token.Pos) Val {
	if b, ok := v.(Box); ok {
		v = st.heap[b.Obj]
	}
	if _, ok := v.(NilV); ok {
		return x.convertAssign(st, NilV{T: types.Typ[types.UntypedNil]}, to)
	}
	if l, ok := v.(SliceLit); ok {
		l.T = to
		return l
	}
	if d, ok := v.(Opaque); ok {
		d.T = to
		return d
	}
	t, isT := v.(Term)
	if !isT {
		if p, ok := v.(Ptr); ok {
			p.T = to
			return p
		}
		if s, ok := v.(Struct); ok {
			n := Struct{T: to, F: s.F}
			return n
		}
		return v
	}
	switch {
	case isInt(to) && isInt(from):
		if n, ok := litInt(t.S); ok {
			return Term{S: intLit(wrapBig(n, to)), T: to}
		}
		if intSubset(from, to) {
			return Term{S: t.S, T: to}
		}
		return x.shortInt(st, Term{S: wrapT(t.S, to), T: to})
	case isInt(to):
		return x.havoc(st, "conv", to)
	case isString(to) && isInt(from):
		return x.havoc(st, "conv", to)
	case isString(to) && isSlice(from):
		return Term{S: t.S, T: to, Parts: t.Parts}
	case isSlice(to) && isString(from):
		x.g.fam++
		return Term{S: t.S, T: to, Nil: "false", Fam: x.g.fam, Parts: t.Parts}
	case isIface(to):
		return x.convertAssign(st, t, to)
	}
	if _, ok := types.Unalias(to).Underlying().(*types.Pointer); ok && x.g.vtype(from) != x.g.vtype(to) {
		return x.havoc(st, "conv", to)
	}
	if x.g.vtype(from) != x.g.vtype(to) {
		return x.havoc(st, "conv", to)
	}
	t.T = to
	return t
}

func intSubset(from, to types.Type) bool {
	f, _, _ := intRange(from)
	t, _, _ := intRange(to)
	if f == t {
		return true
	}
	sz := map[string]int{"wi64": 64, "wu64": 64, "wi32": 32, "wu32": 32, "wi16": 16, "wu16": 16, "wi8": 8, "wu8": 8}
	if f == "" || t == "" {
		return false
	}
	if f[1] == t[1] {
		return sz[f] <= sz[t]
	}
	return f[1] == 'u' && sz[f] < sz[t]
}

func sortedNames(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// conOf is the contract that stands for a callee here.
func (x *Exec) conOf(key string) *Contract {
	if x.con != nil && x.con.Local[key] != nil {
		return x.con.Local[key]
	}
	return x.g.cs.Funcs[key]
}
