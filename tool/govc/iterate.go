package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Iteration: a function value handed to a callee that calls it again and again.
//
// The callee's contract says when it calls the function (invokes), which is an
// obligation where it does; the caller's contract gives an invariant over the calls
// made so far ($calls), checked like that of a loop whose body is the function.

// Invokes says what holds whenever a function parameter is called.
type Invokes struct {
	Params []string
	Cl     Clause
}

func zeroCalls(ct string) string { return strings.Replace(ct, "Seq<", "Seq::<", 1) + "::empty()" }

// checkInvokes is the obligation at a call of the parameter named in gname ($calls_p).
func (x *Exec) checkInvokes(st *State, gname string, sig *types.Signature, args []Val, p token.Pos) {
	pn := strings.TrimPrefix(gname, "$calls_")
	for _, in := range x.con.Invokes[pn] {
		extra := map[string]string{}
		for i, n := range in.Params {
			if n == "_" || i >= len(args) {
				continue
			}
			if s, ok := x.specTermAt(st, args[i], sig.Params().At(i).Type()); ok {
				extra[n] = s
			}
		}
		s, ok := x.spec(st, nil, in.Cl.Expr, extra)
		if !ok {
			s = "false"
		}
		x.oblig(st, "invokes["+pn+"]", "when "+x.key+" calls "+pn+" ("+in.Cl.Src+"): "+oneLine(in.Cl.Expr), p, s)
	}
}

// iterSpec is the caller's description of how the callee uses the function it is given.
func (x *Exec) iterSpec(key string) *LoopSpec {
	if x.con == nil {
		return nil
	}
	return x.con.Iter[key]
}

func (x *Exec) iterInv(st, pre *State, key string, ls *LoopSpec, kind string, p token.Pos) {
	for i, inv := range ls.Inv {
		s, ok := x.spec(st, pre, inv.Expr, nil)
		lab := inv.Label
		if lab == "" {
			lab = fmt.Sprint(i + 1)
		}
		if !ok {
			s = "false"
		}
		x.oblig(st, "iter["+shortKey(key)+"].inv["+lab+"]."+kind, fmt.Sprintf("invariant of the calls made by %s (%s), %s: %s", key, inv.Src, kind, oneLine(inv.Expr)), p, s)
	}
}

// iterate checks the invariant over the callee's calls of fv and leaves st in an
// arbitrary state that the calls may have made. It returns the term of the calls.
func (x *Exec) iterate(call *ast.CallExpr, con *Contract, pn string, fv Val, ft types.Type, ls *LoopSpec, inst func(string, map[string]string) (string, bool), pre map[string]string, st *State, c *C) (string, string, []string, bool) {
	sig, ok := types.Unalias(ft).Underlying().(*types.Signature)
	if !ok || sig.Results().Len() != 1 || !isErrorType(sig.Results().At(0).Type()) {
		x.unsupported(st, call.Pos(), "function value with other results than an error")
		return "", "", nil, false
	}
	ct := callsType(x.g, sig)
	if u, isRef := fv.(FuncRef); isRef && u.F.Type().(*types.Signature).Recv() != nil {
		x.self, x.selfT = u.Recv, u.F.Type().(*types.Signature).Recv().Type()
	}
	x.matchVars(st, ls, &modset{vars: map[types.Object]bool{}, roots: map[types.Object]bool{}})
	for _, l := range ls.Lets {
		if s, ok := x.spec(st, nil, l[1], nil); ok {
			st.lets[l[0]] = paren(s)
		}
	}
	st.ghost["$calls"] = zeroCalls(ct)
	entry := st.clone()
	saved := st.hints
	st.hints = st.hints[:len(st.hints):len(st.hints)]
	for _, h := range ls.Hints {
		st.hints = append(st.hints, scopedHint{cl: h, pre: entry})
	}
	x.iterInv(st, nil, con.Key, ls, "entry", call.Pos())
	st.hints = saved
	// what the calls may change
	m := &modset{vars: map[types.Object]bool{}, roots: map[types.Object]bool{}}
	switch u := fv.(type) {
	case Clos:
		x.modified([]ast.Node{u.Lit.Lit.Body}, u.Lit.Pkg, m, map[ast.Node]bool{})
	case FuncRef:
		mc := x.conOf(funcKey(u.F))
		if mc == nil || mc.Inline {
			x.unsupported(st, call.Pos(), "method value without a contract")
			return "", "", nil, false
		}
		for k := range mc.Modifies {
			if strings.HasPrefix(k, "$") {
				m.addGhost(k)
			} else if len(mc.Params) > 0 && k == mc.Params[0] {
				if b, isP := u.Recv.(Ptr); isP {
					if ov, ok := x.readPath(st, b); ok {
						x.writePath(st, b, x.havocVal(st, k, ov, nil))
					}
				} else {
					x.unsupported(st, call.Pos(), "receiver of a method value")
					return "", "", nil, false
				}
			}
		}
	}
	x.havocLoop(st, m, "iter"+x.pos(call.Pos()))
	calls := x.sym(st, "calls", ct)
	st.ghost["$calls"] = calls
	var invs []string
	for _, inv := range ls.Inv {
		if s, ok := x.spec(st, nil, inv.Expr, nil); ok {
			invs = append(invs, s)
		}
	}
	last := callsArity(x.g, sig)
	allNil := fmt.Sprintf("(forall|ci_: int| 0 <= ci_ && ci_ < %s.len() ==> (#[trigger] %s[ci_]).%d == GoErr::Nil)", calls, calls, last)
	// one call
	func() {
		st := st.clone()
		var args []Val
		var ps []string
		extra := map[string]string{}
		env := map[string]string{}
		for a, b := range pre {
			env[a] = b
		}
		env["$calls_"+pn] = calls
		for i := 0; i < sig.Params().Len(); i++ {
			pt := sig.Params().At(i).Type()
			a := x.havoc(st, "arg", pt)
			args = append(args, a)
			s, ok := x.specTermAt(st, a, pt)
			if g := x.g.vtype(pt); g != "GAny" && !strings.Contains(pt.String(), "context.Context") {
				if !ok {
					s = "arbitrary()"
				}
				ps = append(ps, s)
			}
			extra[fmt.Sprint(i)] = s
		}
		for _, in := range con.Invokes[pn] {
			e2 := map[string]string{}
			for a, b := range env {
				e2[a] = b
			}
			for i, n := range in.Params {
				if n != "_" && extra[fmt.Sprint(i)] != "" {
					e2[n] = extra[fmt.Sprint(i)]
				}
			}
			if s, ok := inst(in.Cl.Expr, e2); ok {
				st.fact(s)
			}
		}
		x.oblig(st, "iter["+shortKey(con.Key)+"].stops", con.Key+" does not call "+pn+" again after an error", call.Pos(), allNil)
		st.fact(allNil)
		for _, s := range invs {
			st.fact(s)
		}
		head := st.clone()
		for _, h := range ls.Hints {
			st.hints = append(st.hints, scopedHint{cl: h, pre: head})
		}
		k := func(st *State, r Val) {
			rt, ok := r.(Term)
			rs := rt.S
			if !ok {
				if rs, ok = x.specTerm(st, r, sig.Results().At(0).Type()); !ok {
					x.unsupported(st, call.Pos(), "result of a function value")
					return
				}
			}
			x.branch(st, "("+rs+" == GoErr::Nil)", func(st *State) {
				n := x.sym(st, "calls", ct)
				st.fact(n + " == " + calls + ".push((" + strings.Join(append(append([]string(nil), ps...), "GoErr::Nil"), ", ") + "))")
				st.ghost["$calls"] = n
				x.iterInv(st, head, con.Key, ls, "preserved", call.Pos())
			}, func(st *State) {})
		}
		switch u := fv.(type) {
		case Clos:
			x.inlineClos(call, u, args, st, c, k)
		case FuncRef:
			x.callContract(call, x.conOf(funcKey(u.F)), u, args, st, c, k)
		}
	}()
	return calls, allNil, invs, true
}

// callsArity is the position of the result in a recorded call.
func callsArity(g *Gen, sig *types.Signature) int {
	n := 0
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		if v := g.vtype(pt); v == "GAny" || strings.Contains(pt.String(), "context.Context") {
			continue
		}
		n++
	}
	return n
}
