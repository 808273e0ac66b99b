package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// SliceLit is a slice value whose elements are known one by one.
type SliceLit struct {
	E   []Val
	T   types.Type
	Fam int
}

type lval struct {
	get func(*State) Val
	set func(*State, Val)
}

func litInt(s string) (*big.Int, bool) {
	t := s
	if strings.HasPrefix(t, "(-") && strings.HasSuffix(t, ")") {
		t = t[1 : len(t)-1]
	}
	if t == "" {
		return nil, false
	}
	for i, c := range t {
		if !(c >= '0' && c <= '9') && !(i == 0 && c == '-' && len(t) > 1) {
			return nil, false
		}
	}
	n, ok := new(big.Int).SetString(t, 10)
	return n, ok
}

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(" + n.String() + ")"
	}
	return n.String()
}

func wrapBig(n *big.Int, t types.Type) *big.Int {
	w, _, _ := intRange(t)
	bits := map[string]uint{"wi64": 64, "wu64": 64, "wi32": 32, "wu32": 32, "wi16": 16, "wu16": 16, "wi8": 8, "wu8": 8}[w]
	if bits == 0 {
		return n
	}
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	r := new(big.Int).Mod(n, m)
	if w[1] == 'i' && r.Bit(int(bits-1)) == 1 {
		r.Sub(r, m)
	}
	return r
}

func wrapT(s string, t types.Type) string {
	w, _, _ := intRange(t)
	if w == "" {
		return s
	}
	return w + "(" + s + ")"
}

func parenT(s string) string {
	simple := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			simple = false
			break
		}
	}
	if simple || (strings.HasPrefix(s, "(") && matchingClose(s, 0) == len(s)-1) {
		return s
	}
	return "(" + s + ")"
}

func (x *Exec) constVal(v constant.Value, t types.Type) (Val, bool) {
	switch v.Kind() {
	case constant.Bool:
		return Term{S: fmt.Sprint(constant.BoolVal(v)), T: t}, true
	case constant.String:
		return Term{S: x.g.lit(constant.StringVal(v)), T: t}, true
	case constant.Int:
		if isInt(t) || true {
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if ok {
				if isIface(t) {
					return Term{S: intLit(n), T: types.Typ[types.Int]}, true
				}
				return Term{S: intLit(n), T: t}, true
			}
		}
	}
	return nil, false
}

func (x *Exec) readVar(st *State, o types.Object) Val {
	v, ok := st.env[o]
	if !ok {
		return nil
	}
	if b, ok := v.(Box); ok {
		return st.heap[b.Obj]
	}
	return v
}

func (x *Exec) dead(st *State, t types.Type) Val {
	st.fact("false")
	return x.havoc(st, "dead", t)
}

// elem is an element of a slice or array (bytes become integers).
func (x *Exec) elem(st *State, t Term, et types.Type) Val {
	if isByte(et) {
		s := "(" + t.S + " as int)"
		st.fact("(0 <= " + s + " && " + s + " <= 255)")
		return Term{S: s, T: et}
	}
	if isSlice(et) {
		st.fact("is_len(" + t.S + ".len() as int)")
	}
	x.typeFacts(st, t.S, et)
	return Term{S: t.S, T: et}
}

// asElem gives the term stored in a sequence for a value.
func (x *Exec) asElem(st *State, v Val, et types.Type) (string, bool) {
	if b, ok := v.(Box); ok {
		v = st.heap[b.Obj]
	}
	if l, ok := v.(SliceLit); ok {
		v = x.litTerm(st, l)
	}
	s, ok := x.toTerm(st, v, et)
	if !ok {
		return "", false
	}
	if isByte(et) {
		if strings.HasSuffix(s, " as int)") && strings.HasPrefix(s, "(") && matchingClose(s, 0) == len(s)-1 {
			return s[1 : len(s)-8], true
		}
		if n, isL := litInt(s); isL {
			return n.String() + "u8", true
		}
		return "(" + s + " as u8)", true
	}
	return s, true
}

// litTerm turns a slice literal into a term.
func (x *Exec) litTerm(st *State, l SliceLit) Val {
	var et types.Type
	switch u := types.Unalias(l.T).Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	}
	var p []string
	for _, e := range l.E {
		x.freeze(st, e)
		s, ok := x.asElem(st, e, et)
		if !ok {
			s = "arbitrary()"
		}
		p = append(p, s)
	}
	if a, ok := types.Unalias(l.T).Underlying().(*types.Array); ok && a.Len() >= 1 && a.Len() <= 4 {
		return Term{S: "(" + strings.Join(p, ",") + ",)", T: l.T}
	}
	if len(p) == 0 {
		return Term{S: "Seq::<" + x.g.elemType(et) + ">::empty()", T: l.T, Nil: "false", Fam: l.Fam}
	}
	s := "seq![" + strings.Join(p, ", ") + "]"
	return Term{S: s, T: l.T, Nil: "false", Fam: l.Fam}
}

// term normalises a value to a Term of type t.
func (x *Exec) term(st *State, v Val, t types.Type) (Term, bool) {
	switch u := v.(type) {
	case Term:
		return u, true
	case Box:
		return x.term(st, st.heap[u.Obj], t)
	case SliceLit:
		tm, ok := x.litTerm(st, u).(Term)
		return tm, ok
	case NilV:
		if t == nil {
			t = u.T
		}
		if isSlice(t) {
			return x.g.zero(t).(Term), true
		}
	case nil, Poison:
		return Term{}, false
	}
	s, ok := x.toTerm(st, v, t)
	return Term{S: s, T: t}, ok
}

// freeze marks what a value shares with a snapshot stored elsewhere.
func (x *Exec) freeze(st *State, v Val) {
	switch u := v.(type) {
	case Term:
		if u.Fam != 0 {
			x.freezeFam(st, u)
		}
	case SliceLit:
		for _, e := range u.E {
			x.freeze(st, e)
		}
	case Ptr:
		st.setFrozen(fmt.Sprintf("o%d", u.Obj), "")
		x.freeze(st, st.heap[u.Obj])
	case Box:
		x.freeze(st, st.heap[u.Obj])
	case Struct:
		for _, k := range sortedKeys(u.F) {
			x.freeze(st, u.F[k])
		}
	}
}

func (x *Exec) freezeFam(st *State, t Term) {
	k := fmt.Sprintf("f%d", t.Fam)
	if old, ok := st.frozen[k]; ok && old != t.S {
		st.setFrozen(k, "*")
		return
	}
	st.setFrozen(k, t.S)
}

func (s *State) setFrozen(k, v string) {
	n := make(map[string]string, len(s.frozen)+1)
	for a, b := range s.frozen {
		n[a] = b
	}
	n[k] = v
	s.frozen = n
}

// mutateFam records an in-place write to a backing array.
func (x *Exec) mutateFam(st *State, t Term, p token.Pos, isAppend bool) {
	if t.Fam == 0 {
		if t.Nil == "true" {
			return
		}
		if isAppend {
			x.g.assumed["append to a borrowed slice is taken not to write into an array shared with a longer live slice ("+x.key+")"] = true
			return
		}
		x.oblig(st, "frame", "write into a slice the function does not own", p, "false")
		return
	}
	if fz, ok := st.frozen[fmt.Sprintf("f%d", t.Fam)]; ok {
		if !(isAppend && fz == t.S) {
			x.oblig(st, "frame", "write into a backing array that has been stored elsewhere", p, "false")
		}
	}
	same := func(o Term) bool { return isAppend && o.S == t.S }
	for o, v := range st.env {
		if nv, ch := poisonVal(v, t.Fam, same); ch {
			st.env[o] = nv
		}
	}
	for o, v := range st.heap {
		if nv, ch := poisonVal(v, t.Fam, same); ch {
			st.heap[o] = nv
		}
	}
}

func poisonVal(v Val, fam int, same func(Term) bool) (Val, bool) {
	switch u := v.(type) {
	case Term:
		if u.Fam == fam && !same(u) {
			return Poison{"may have been overwritten through another slice"}, true
		}
	case SliceLit:
		if u.Fam == fam {
			return Poison{"may have been overwritten through another slice"}, true
		}
	case Struct:
		ch := false
		n := Struct{T: u.T, F: map[string]Val{}}
		for k, e := range u.F {
			ne, c := poisonVal(e, fam, same)
			n.F[k] = ne
			ch = ch || c
		}
		if ch {
			return n, true
		}
	}
	return v, false
}

// nilOf gives the Verus boolean for "this slice is nil".
func (x *Exec) nilOf(st *State, t Term) string {
	if t.Nil != "" {
		return t.Nil
	}
	k := "nil:" + t.S
	if s, ok := st.lets[k]; ok {
		return s
	}
	s := x.sym(st, "isnil", "bool")
	st.lets[k] = s
	st.fact("(" + s + " ==> " + t.S + ".len() == 0)")
	return s
}

// fieldOf reads a field.
func (x *Exec) fieldOf(st *State, v Val, f *types.Var, p token.Pos) Val {
	switch u := v.(type) {
	case Box:
		return x.fieldOf(st, st.heap[u.Obj], f, p)
	case Struct:
		fv, ok := u.F[f.Name()]
		if !ok {
			return x.havoc(st, f.Name(), f.Type())
		}
		if fv == nil {
			return x.havoc(st, f.Name(), f.Type())
		}
		if _, isP := fv.(Poison); isP {
			x.oblig(st, "frame", "read of a field that may have been overwritten through an alias", p, "false")
			return x.havoc(st, f.Name(), f.Type())
		}
		return fv
	case Ptr:
		inner, ok := x.readPath(st, u)
		if !ok {
			x.unsupported(st, p, "pointer path")
			return x.havoc(st, f.Name(), f.Type())
		}
		return x.fieldOf(st, inner, f, p)
	case NilV:
		x.oblig(st, "nil", "nil pointer dereference reading ."+f.Name(), p, "false")
		return x.dead(st, f.Type())
	case Term:
		if x.g.isHeapPtr(u.T) {
			x.nilCheck(st, u, "."+f.Name(), p)
			return x.heapField(st, u.S, u.T, f)
		}
		if x.g.isHeap(u.T) {
			return x.heapField(st, u.S, u.T, f)
		}
		base := u.S
		if _, isP := types.Unalias(u.T).Underlying().(*types.Pointer); isP {
			x.nilCheck(st, u, "."+f.Name(), p)
			base = u.S + "->0"
		}
		fs := base + "." + fieldName(f.Name())
		return x.fieldVal(st, fs, f.Type(), false)
	case Opaque:
		if d, ok := u.Data[f.Name()]; ok {
			return d
		}
		return x.havoc(st, f.Name(), f.Type())
	}
	x.unsupported(st, p, fmt.Sprintf("field %s of %T", f.Name(), v))
	return x.havoc(st, f.Name(), f.Type())
}

func (x *Exec) nilCheck(st *State, u Term, what string, p token.Pos) {
	goal := "(" + u.S + " is Some)"
	if x.g.isHeapPtr(u.T) {
		goal = "(" + u.S + " != 0)"
	}
	if st.known[goal] {
		return
	}
	x.oblig(st, "nil", "no nil dereference: "+what, p, goal)
	st.fact(goal)
}

// selPath walks the implicit embedded fields of a selection.
func (x *Exec) selPath(st *State, v Val, recv types.Type, idx []int, p token.Pos) (Val, *types.Var) {
	t := recv
	var f *types.Var
	for i, n := range idx {
		if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		su, ok := types.Unalias(t).Underlying().(*types.Struct)
		if !ok {
			return v, nil
		}
		f = su.Field(n)
		if i < len(idx)-1 {
			v = x.fieldOf(st, v, f, p)
		}
		t = f.Type()
	}
	return v, f
}

// ---------------------------------------------------------------- lvalues

func (x *Exec) lv(e ast.Expr, st *State, c *C, k func(*State, lval)) {
	e = ast.Unparen(e)
	switch u := e.(type) {
	case *ast.Ident:
		o := c.pkg.Info.Uses[u]
		if o == nil {
			o = c.pkg.Info.Defs[u]
		}
		if _, ok := st.env[o]; !ok {
			if vo, isV := o.(*types.Var); isV && vo.Parent() == c.pkg.Types.Scope() {
				k(st, lval{get: func(st *State) Val { return x.havoc(st, o.Name(), o.Type()) }, set: func(st *State, v Val) {
					x.oblig(st, "frame", "assignment to package variable "+o.Name(), e.Pos(), "false")
				}})
				return
			}
		}
		k(st, lval{get: func(st *State) Val {
			v := x.readVar(st, o)
			if pz, ok := v.(Poison); ok {
				x.oblig(st, "frame", "read of "+o.Name()+", which "+pz.Why, e.Pos(), "false")
				return x.havoc(st, o.Name(), o.Type())
			}
			return v
		}, set: func(st *State, v Val) { x.assignVar(st, o, v) }})
	case *ast.SelectorExpr:
		sel := c.pkg.Info.Selections[u]
		if sel == nil {
			x.unsupported(st, e.Pos(), "assignment to a package variable")
			return
		}
		bt := c.pkg.Info.TypeOf(u.X)
		if _, isP := types.Unalias(bt).Underlying().(*types.Pointer); isP || len(sel.Index()) > 1 {
			x.ev(u.X, st, c, func(st *State, bv Val) {
				base, f := x.selPath(st, bv, sel.Recv(), sel.Index(), e.Pos())
				k(st, x.fieldLval(base, f, e.Pos()))
			})
			return
		}
		x.lv(u.X, st, c, func(st *State, b lval) {
			f := sel.Obj().(*types.Var)
			k(st, lval{get: func(st *State) Val { return x.fieldOf(st, b.get(st), f, e.Pos()) }, set: func(st *State, v Val) {
				bv := b.get(st)
				if bx, ok := bv.(Box); ok {
					bv = st.heap[bx.Obj]
				}
				if t, isT := bv.(Term); isT && x.g.isHeap(t.T) {
					x.heapWrite(st, t.S, t.T, f, v, e.Pos())
					return
				}
				s, ok := bv.(Struct)
				if !ok {
					if t, isT := bv.(Term); isT {
						s, ok = x.expandStruct(st, t.S, t.T, false).(Struct)
					}
				}
				if !ok {
					x.unsupported(st, e.Pos(), "field assignment")
					return
				}
				b.set(st, setPath(s, []string{f.Name()}, v))
			}})
		})
	case *ast.StarExpr:
		x.ev(u.X, st, c, func(st *State, pv Val) {
			k(st, lval{get: func(st *State) Val { return x.deref(st, pv, c.pkg.Info.TypeOf(e), e.Pos()) }, set: func(st *State, v Val) {
				switch p := pv.(type) {
				case Ptr:
					x.ownedWrite(st, p, e.Pos())
					x.writePath(st, p, v)
				default:
					x.oblig(st, "frame", "write through a pointer the function does not own", e.Pos(), "false")
				}
			}})
		})
	case *ast.IndexExpr:
		bt := types.Unalias(c.pkg.Info.TypeOf(u.X)).Underlying()
		if mt, ok := bt.(*types.Map); ok {
			x.ev(u.X, st, c, func(st *State, mv Val) {
				x.ev(u.Index, st, c, func(st *State, kv Val) {
					k(st, lval{get: func(st *State) Val {
						x.unsupported(st, e.Pos(), "read-modify-write of a map entry")
						return x.havoc(st, "m", mt.Elem())
					}, set: func(st *State, v Val) { x.mapSet(st, mv, kv, v, mt, e.Pos()) }})
				})
			})
			return
		}
		if pt, ok := bt.(*types.Pointer); ok {
			bt = types.Unalias(pt.Elem()).Underlying()
		}
		x.lv(u.X, st, c, func(st *State, b lval) {
			x.ev(u.Index, st, c, func(st *State, iv Val) {
				it, ok := x.term(st, iv, types.Typ[types.Int])
				if !ok {
					x.unsupported(st, e.Pos(), "index")
					return
				}
				var et types.Type
				isArr := false
				switch s := bt.(type) {
				case *types.Slice:
					et = s.Elem()
				case *types.Array:
					et = s.Elem()
					isArr = true
				default:
					x.unsupported(st, e.Pos(), "indexed assignment")
					return
				}
				k(st, lval{get: func(st *State) Val { return x.index(st, b.get(st), it, c.pkg.Info.TypeOf(u.X), e.Pos()) }, set: func(st *State, v Val) {
					bv := b.get(st)
					t, ok := x.term(st, bv, c.pkg.Info.TypeOf(u.X))
					if !ok {
						x.unsupported(st, e.Pos(), "indexed assignment base")
						return
					}
					x.boundsCheck(st, it.S, t, c.pkg.Info.TypeOf(u.X), e.Pos())
					if !isArr {
						x.mutateFam(st, t, e.Pos(), false)
					}
					x.freeze(st, v)
					vs, ok := x.asElem(st, v, et)
					if !ok {
						x.unsupported(st, e.Pos(), "element value")
						return
					}
					if a, okA := bt.(*types.Array); okA && a.Len() >= 1 && a.Len() <= 4 {
						n, isL := litInt(it.S)
						if !isL {
							x.unsupported(st, e.Pos(), "symbolic index into a small array")
							return
						}
						var ps []string
						for i := 0; i < int(a.Len()); i++ {
							if int64(i) == n.Int64() {
								ps = append(ps, vs)
							} else {
								ps = append(ps, fmt.Sprintf("%s.%d", parenT(t.S), i))
							}
						}
						b.set(st, Term{S: "(" + strings.Join(ps, ",") + ",)", T: t.T})
						return
					}
					nt := Term{S: parenT(t.S) + ".update(" + it.S + ", " + vs + ")", T: t.T, Nil: "false", Fam: t.Fam}
					b.set(st, x.shortSeq(st, nt))
				}})
			})
		})
	default:
		// not addressable storage we track: reading is fine
		x.ev(e, st, c, func(st *State, v Val) {
			k(st, lval{get: func(*State) Val { return v }, set: func(st *State, nv Val) {
				if t, ok := v.(Term); ok && t.Fam != 0 {
					return // a temporary that is not referenced again; aliases were poisoned
				}
				x.unsupported(st, e.Pos(), fmt.Sprintf("assignment through %T", e))
			}})
		})
	}
}

func (x *Exec) shortSeq(st *State, t Term) Term {
	if len(t.S) <= 60 {
		return t
	}
	n := x.sym(st, "s", x.g.vtype(t.T))
	st.fact(n + " == " + t.S)
	if isSlice(t.T) {
		st.fact("is_len(" + n + ".len() as int)")
	}
	t.S = n
	t.Parts = nil
	return t
}

func (x *Exec) ownedWrite(st *State, p Ptr, pos token.Pos) {
	if _, ok := st.frozen[fmt.Sprintf("o%d", p.Obj)]; ok {
		x.oblig(st, "frame", "write to an object that has been stored elsewhere", pos, "false")
	}
}

func (x *Exec) fieldLval(base Val, f *types.Var, p token.Pos) lval {
	return lval{get: func(st *State) Val { return x.fieldOf(st, base, f, p) }, set: func(st *State, v Val) {
		switch u := base.(type) {
		case Ptr:
			x.ownedWrite(st, u, p)
			q := Ptr{Obj: u.Obj, Path: append(append([]string(nil), u.Path...), f.Name()), T: u.T}
			if _, ok := x.readPath(st, u); !ok {
				x.unsupported(st, p, "pointer path")
				return
			}
			x.writePath(st, q, v)
		case NilV:
			x.oblig(st, "nil", "nil pointer dereference writing ."+f.Name(), p, "false")
		case Term:
			if x.g.isHeapPtr(u.T) || x.g.isHeap(u.T) {
				if x.g.isHeapPtr(u.T) {
					x.nilCheck(st, u, "."+f.Name(), p)
				}
				x.heapWrite(st, u.S, u.T, f, v, p)
				return
			}
			x.nilCheck(st, u, "."+f.Name(), p)
			x.oblig(st, "frame", "write to a field of an object the function does not own: ."+f.Name(), p, "false")
		default:
			x.unsupported(st, p, fmt.Sprintf("field write to %T", base))
		}
	}}
}

func (x *Exec) deref(st *State, pv Val, t types.Type, p token.Pos) Val {
	switch u := pv.(type) {
	case Ptr:
		v, ok := x.readPath(st, u)
		if ok {
			return v
		}
	case NilV:
		x.oblig(st, "nil", "nil pointer dereference", p, "false")
		return x.dead(st, t)
	case Term:
		if x.g.isHeapPtr(u.T) {
			x.unsupported(st, p, "copy of a node")
			return x.havoc(st, "deref", t)
		}
		x.nilCheck(st, u, "*p", p)
		return Term{S: u.S + "->0", T: t}
	}
	x.unsupported(st, p, "dereference")
	return x.havoc(st, "deref", t)
}

func (x *Exec) lenOf(st *State, t Term, gt types.Type) string {
	if a, ok := types.Unalias(gt).Underlying().(*types.Array); ok {
		return fmt.Sprint(a.Len())
	}
	if p, ok := types.Unalias(gt).Underlying().(*types.Pointer); ok {
		if a, ok := types.Unalias(p.Elem()).Underlying().(*types.Array); ok {
			return fmt.Sprint(a.Len())
		}
	}
	if _, ok := refMap(gt); ok {
		n := x.sym(st, "maplen", "int")
		st.fact("is_len(" + n + ")")
		return n
	}
	if n := litLen(t.S); n >= 0 {
		return fmt.Sprint(n)
	}
	s := parenT(t.S) + ".len() as int"
	st.fact("is_len(" + s + ")")
	return "(" + s + ")"
}

// litLen is the length of a literal sequence term, or -1.
func litLen(s string) int {
	if strings.HasPrefix(s, "Seq::<") && strings.HasSuffix(s, ">::empty()") && strings.Count(s, "::empty()") == 1 {
		return 0
	}
	if strings.HasPrefix(s, "gs_") && strings.HasSuffix(s, "()") && strings.Count(s, "(") == 1 {
		return (len(s) - 5) / 2
	}
	if strings.HasPrefix(s, "Seq::new(") {
		var n int
		if _, err := fmt.Sscanf(s, "Seq::new(%d,", &n); err == nil && matchingClose(s, 8) == len(s)-1 {
			return n
		}
	}
	if strings.HasPrefix(s, "seq![") {
		d, n := 0, 1
		for i := 4; i < len(s); i++ {
			switch s[i] {
			case '[', '(', '{':
				d++
			case ']', ')', '}':
				d--
				if d == 0 {
					if i == len(s)-1 {
						return n
					}
					return -1
				}
			case ',':
				if d == 1 {
					n++
				}
			case '<':
				return -1
			}
		}
	}
	return -1
}

func (x *Exec) boundsCheck(st *State, i string, t Term, gt types.Type, p token.Pos) {
	l := x.lenOf(st, t, gt)
	if a, ok := litInt(i); ok {
		if b, ok := litInt(l); ok && a.Sign() >= 0 && a.Cmp(b) < 0 {
			return
		}
	}
	goal := "(0 <= " + i + " && " + i + " < " + l + ")"
	if st.known[goal] {
		return
	}
	x.oblig(st, "bounds", "index in range", p, goal)
	st.fact(goal)
}

func (x *Exec) index(st *State, bv Val, it Term, gt types.Type, p token.Pos) Val {
	if b, ok := bv.(Box); ok {
		bv = st.heap[b.Obj]
	}
	switch u := types.Unalias(gt).Underlying().(type) {
	case *types.Map:
		x.unsupported(st, p, "map index")
		return x.havoc(st, "mi", u.Elem())
	case *types.Basic: // string
		t, ok := x.term(st, bv, gt)
		if !ok {
			break
		}
		x.boundsCheck(st, it.S, t, gt, p)
		return x.elem(st, Term{S: parenT(t.S) + "[" + it.S + "]"}, types.Typ[types.Uint8])
	case *types.Slice, *types.Array, *types.Pointer:
		var et types.Type
		switch w := u.(type) {
		case *types.Slice:
			et = w.Elem()
		case *types.Array:
			et = w.Elem()
		case *types.Pointer:
			et = types.Unalias(w.Elem()).Underlying().(*types.Array).Elem()
		}
		if l, ok := bv.(SliceLit); ok {
			if n, isL := litInt(it.S); isL && n.IsInt64() && n.Int64() >= 0 && n.Int64() < int64(len(l.E)) {
				return l.E[n.Int64()]
			}
			bv = x.litTerm(st, l)
		}
		t, ok := x.term(st, bv, gt)
		if !ok {
			break
		}
		x.boundsCheck(st, it.S, t, gt, p)
		if a, okA := u.(*types.Array); okA && a.Len() >= 1 && a.Len() <= 4 {
			if n, isL := litInt(it.S); isL {
				return x.elem(st, Term{S: fmt.Sprintf("%s.%d", parenT(t.S), n.Int64())}, et)
			}
			s := fmt.Sprintf("%s.0", parenT(t.S))
			for i := 1; i < int(a.Len()); i++ {
				s = fmt.Sprintf("(if %s == %d { %s.%d } else { %s })", it.S, i, parenT(t.S), i, s)
			}
			return x.elem(st, Term{S: s}, et)
		}
		return x.elem(st, Term{S: parenT(t.S) + "[" + it.S + "]"}, et)
	}
	x.unsupported(st, p, "index of "+gt.String())
	return x.havoc(st, "idx", types.Typ[types.Int])
}

// ---------------------------------------------------------------- maps

func (x *Exec) mapSet(st *State, mv, kv, v Val, mt *types.Map, p token.Pos) {
	if rm, ok := refMap(mt); ok {
		x.refSet(st, mv, kv, v, rm, p)
		return
	}
	m, ok := mv.(MapV)
	if !ok {
		if _, isN := mv.(NilV); isN {
			x.oblig(st, "nil", "assignment to an entry of a nil map", p, "false")
			st.fact("false")
			return
		}
		x.oblig(st, "frame", "write to a map the function does not own", p, "false")
		return
	}
	ml := st.heap[m.Obj].(MapLit)
	kt, ok := x.asKey(st, kv, mt.Key())
	if !ok {
		x.unsupported(st, p, "map key")
		return
	}
	n := MapLit{Term: ml.Term}
	done := false
	for _, e := range ml.Ents {
		if e.K == kt {
			n.Ents = append(n.Ents, MapEnt{kt, v})
			done = true
			continue
		}
		if ml.Term == "" && !keysDistinct(e.K, kt) {
			x.unsupported(st, p, "map keys that are not literally distinct")
		}
		n.Ents = append(n.Ents, e)
	}
	if !done {
		n.Ents = append(n.Ents, MapEnt{kt, v})
	}
	st.heap[m.Obj] = n
}

func (x *Exec) asKey(st *State, kv Val, kt types.Type) (string, bool) {
	t, ok := x.term(st, kv, kt)
	return t.S, ok
}

func keysDistinct(a, b string) bool {
	if a == b {
		return false
	}
	_, ok1 := litInt(a)
	_, ok2 := litInt(b)
	if ok1 && ok2 {
		return true
	}
	return strings.HasPrefix(a, "gs_") && strings.HasPrefix(b, "gs_")
}

// mapGet looks an entry up; k receives the value and the presence flag.
func (x *Exec) mapGet(st *State, mv, kv Val, mt *types.Map, p token.Pos, k func(*State, Val, string)) {
	if b, ok := mv.(Box); ok {
		mv = st.heap[b.Obj]
	}
	if rm, ok := refMap(mt); ok {
		x.refGet(st, mv, kv, rm, p, k)
		return
	}
	switch m := mv.(type) {
	case NilV:
		k(st, x.g.zero(mt.Elem()), "false")
	case MapV:
		ml := st.heap[m.Obj].(MapLit)
		kt, ok := x.asKey(st, kv, mt.Key())
		if !ok {
			x.unsupported(st, p, "map key")
			return
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i < 0 {
				if ml.Term == "" {
					k(st, x.g.zero(mt.Elem()), "false")
					return
				}
				pres := ml.Term + ".dom().contains(" + kt + ")"
				x.branch(st, pres, func(st *State) {
					k(st, x.elem(st, Term{S: ml.Term + "[" + kt + "]"}, mt.Elem()), "true")
				}, func(st *State) { k(st, x.g.zero(mt.Elem()), "false") })
				return
			}
			e := ml.Ents[i]
			cond := "(" + kt + " == " + e.K + ")"
			if kt == e.K {
				cond = "true"
			} else if keysDistinct(kt, e.K) {
				cond = "false"
			}
			x.branch(st, cond, func(st *State) { k(st, e.V, "true") }, func(st *State) { rec(st, i-1) })
		}
		rec(st, len(ml.Ents)-1)
	case Term:
		kt, ok := x.asKey(st, kv, mt.Key())
		if !ok {
			x.unsupported(st, p, "map key")
			return
		}
		pres := parenT(m.S) + ".dom().contains(" + kt + ")"
		x.branch(st, pres, func(st *State) {
			k(st, x.elem(st, Term{S: parenT(m.S) + "[" + kt + "]"}, mt.Elem()), "true")
		}, func(st *State) { k(st, x.g.zero(mt.Elem()), "false") })
	default:
		x.unsupported(st, p, "map lookup")
	}
}

// ---------------------------------------------------------------- expressions

// pure expressions can be evaluated without control flow or obligations.
func (x *Exec) pure(e ast.Expr, c *C) bool {
	switch u := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.UnaryExpr:
		return (u.Op == token.NOT || u.Op == token.SUB) && x.pure(u.X, c)
	case *ast.BinaryExpr:
		return u.Op != token.QUO && u.Op != token.REM && x.pure(u.X, c) && x.pure(u.Y, c)
	}
	return false
}

func (x *Exec) cond(e ast.Expr, st *State, c *C, kt, kf func(*State)) {
	e = ast.Unparen(e)
	switch u := e.(type) {
	case *ast.BinaryExpr:
		if u.Op == token.LAND || u.Op == token.LOR {
			if x.pure(u, c) {
				break
			}
			if u.Op == token.LAND {
				x.cond(u.X, st, c, func(st *State) { x.cond(u.Y, st, c, kt, kf) }, kf)
			} else {
				x.cond(u.X, st, c, kt, func(st *State) { x.cond(u.Y, st, c, kt, kf) })
			}
			return
		}
	case *ast.UnaryExpr:
		if u.Op == token.NOT {
			x.cond(u.X, st, c, kf, kt)
			return
		}
	}
	x.ev(e, st, c, func(st *State, v Val) {
		t, ok := v.(Term)
		if !ok {
			x.unsupported(st, e.Pos(), "condition")
			return
		}
		x.branch(st, t.S, kt, kf)
	})
}

func (x *Exec) evList(es []ast.Expr, st *State, c *C, k func(*State, []Val)) {
	if len(es) == 1 {
		x.ev(es[0], st, c, func(st *State, v Val) {
			if t, ok := v.(Tuple); ok {
				k(st, []Val(t))
				return
			}
			k(st, []Val{v})
		})
		return
	}
	var rec func(st *State, i int, acc []Val)
	rec = func(st *State, i int, acc []Val) {
		if i == len(es) {
			k(st, acc)
			return
		}
		x.ev(es[i], st, c, func(st *State, v Val) {
			rec(st, i+1, append(acc[:len(acc):len(acc)], v))
		})
	}
	rec(st, 0, nil)
}

func (x *Exec) evMulti(e ast.Expr, n int, st *State, c *C, k func(*State, []Val)) {
	e = ast.Unparen(e)
	switch u := e.(type) {
	case *ast.IndexExpr:
		if mt, ok := types.Unalias(c.pkg.Info.TypeOf(u.X)).Underlying().(*types.Map); ok {
			x.ev(u.X, st, c, func(st *State, mv Val) {
				x.ev(u.Index, st, c, func(st *State, kv Val) {
					x.mapGet(st, mv, kv, mt, e.Pos(), func(st *State, v Val, ok string) {
						k(st, []Val{v, Term{S: ok, T: types.Typ[types.Bool]}})
					})
				})
			})
			return
		}
	case *ast.TypeAssertExpr:
		t := c.pkg.Info.TypeOf(u.Type)
		x.ev(u.X, st, c, func(st *State, v Val) {
			ok := x.sym(st, "ok", "bool")
			k(st, []Val{x.havoc(st, "ta", t), Term{S: ok, T: types.Typ[types.Bool]}})
		})
		return
	case *ast.UnaryExpr:
		if u.Op == token.ARROW {
			x.ev(u.X, st, c, func(st *State, ch Val) {
				et := types.Unalias(c.pkg.Info.TypeOf(u.X)).Underlying().(*types.Chan).Elem()
				ok := x.sym(st, "ok", "bool")
				v := x.havoc(st, "rx", et)
				x.received(st, v, et, ok)
				k(st, []Val{v, Term{S: ok, T: types.Typ[types.Bool]}})
			})
			return
		}
	}
	x.ev(e, st, c, func(st *State, v Val) {
		if t, ok := v.(Tuple); ok {
			k(st, []Val(t))
			return
		}
		k(st, []Val{v})
	})
}

func (x *Exec) ev(e ast.Expr, st *State, c *C, k func(*State, Val)) {
	if x.aborted != "" {
		return
	}
	e = ast.Unparen(e)
	if tv, ok := c.pkg.Info.Types[e]; ok && tv.Value != nil {
		if v, ok := x.constVal(tv.Value, tv.Type); ok {
			k(st, v)
			return
		}
		k(st, x.havoc(st, "const", tv.Type))
		return
	}
	switch u := e.(type) {
	case *ast.Ident:
		if u.Name == "nil" {
			k(st, NilV{T: c.pkg.Info.TypeOf(e)})
			return
		}
		o := c.pkg.Info.Uses[u]
		if o == nil {
			o = c.pkg.Info.Defs[u]
		}
		x.evObj(o, e.Pos(), st, c, k)
	case *ast.BasicLit:
		x.unsupported(st, e.Pos(), "literal")
	case *ast.FuncLit:
		k(st, Clos{&ClosLit{Lit: u, Pkg: c.pkg, Key: c.stack}})
	case *ast.CompositeLit:
		x.composite(u, c.pkg.Info.TypeOf(u), st, c, k)
	case *ast.StarExpr:
		x.ev(u.X, st, c, func(st *State, v Val) { k(st, x.deref(st, v, c.pkg.Info.TypeOf(e), e.Pos())) })
	case *ast.UnaryExpr:
		x.unary(u, st, c, k)
	case *ast.BinaryExpr:
		if u.Op == token.LAND || u.Op == token.LOR {
			if x.pure(u, c) {
				x.ev(u.X, st, c, func(st *State, a Val) {
					x.ev(u.Y, st, c, func(st *State, b Val) {
						at, _ := a.(Term)
						bt, _ := b.(Term)
						k(st, Term{S: boolOp(u.Op, at.S, bt.S), T: c.pkg.Info.TypeOf(e)})
					})
				})
				return
			}
			T := types.Typ[types.Bool]
			x.cond(u, st, c, func(st *State) { k(st, Term{S: "true", T: T}) }, func(st *State) { k(st, Term{S: "false", T: T}) })
			return
		}
		x.ev(u.X, st, c, func(st *State, a Val) {
			x.ev(u.Y, st, c, func(st *State, b Val) {
				switch u.Op {
				case token.EQL, token.NEQ:
					ot := c.pkg.Info.TypeOf(u.X)
					if b0, ok := types.Unalias(ot).(*types.Basic); ok && b0.Kind() == types.UntypedNil {
						ot = c.pkg.Info.TypeOf(u.Y)
					}
					s, ok := x.eqTerm(st, a, b, ot, e.Pos())
					if !ok {
						x.unsupported(st, e.Pos(), "comparison")
						return
					}
					if u.Op == token.NEQ {
						s = notTerm(s)
					}
					k(st, Term{S: s, T: types.Typ[types.Bool]})
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					at, ok1 := x.term(st, a, nil)
					bt, ok2 := x.term(st, b, nil)
					if !ok1 || !ok2 || !isInt(c.pkg.Info.TypeOf(u.X)) {
						k(st, Term{S: x.sym(st, "cmp", "bool"), T: types.Typ[types.Bool]})
						return
					}
					k(st, Term{S: cmpTerm(u.Op, at.S, bt.S), T: types.Typ[types.Bool]})
				default:
					k(st, x.binop(u.Op, a, b, c.pkg.Info.TypeOf(e), st, e.Pos()))
				}
			})
		})
	case *ast.SelectorExpr:
		sel := c.pkg.Info.Selections[u]
		if sel == nil {
			x.evObj(c.pkg.Info.Uses[u.Sel], e.Pos(), st, c, k)
			return
		}
		switch sel.Kind() {
		case types.FieldVal:
			x.ev(u.X, st, c, func(st *State, v Val) {
				x.guardRead(st, u.Sel.Name, e.Pos())
				base, f := x.selPath(st, v, sel.Recv(), sel.Index(), e.Pos())
				k(st, x.fieldOf(st, base, f, e.Pos()))
			})
		case types.MethodVal:
			x.evCallee2(u, st, c, k)
		default:
			x.unsupported(st, e.Pos(), "method expression")
		}
	case *ast.IndexExpr:
		if _, isF := c.pkg.Info.TypeOf(u.X).(*types.Signature); isF {
			x.ev(u.X, st, c, k)
			return
		}
		if mt, ok := types.Unalias(c.pkg.Info.TypeOf(u.X)).Underlying().(*types.Map); ok {
			x.ev(u.X, st, c, func(st *State, mv Val) {
				x.ev(u.Index, st, c, func(st *State, kv Val) {
					x.mapGet(st, mv, kv, mt, e.Pos(), func(st *State, v Val, ok string) { k(st, v) })
				})
			})
			return
		}
		x.ev(u.X, st, c, func(st *State, bv Val) {
			x.ev(u.Index, st, c, func(st *State, iv Val) {
				it, ok := x.term(st, iv, types.Typ[types.Int])
				if !ok {
					x.unsupported(st, e.Pos(), "index")
					return
				}
				k(st, x.index(st, bv, it, c.pkg.Info.TypeOf(u.X), e.Pos()))
			})
		})
	case *ast.SliceExpr:
		x.slice(u, st, c, k)
	case *ast.CallExpr:
		x.call(u, st, c, k)
	case *ast.TypeAssertExpr:
		x.ev(u.X, st, c, func(st *State, v Val) {
			x.oblig(st, "typeassert", "type assertion without a check", e.Pos(), "false")
			k(st, x.havoc(st, "ta", c.pkg.Info.TypeOf(e)))
		})
	default:
		x.unsupported(st, e.Pos(), fmt.Sprintf("expression %T", e))
	}
}

func boolOp(op token.Token, a, b string) string {
	if op == token.LAND {
		switch {
		case a == "true":
			return b
		case b == "true":
			return a
		case a == "false" || b == "false":
			return "false"
		}
		return "(" + a + " && " + b + ")"
	}
	switch {
	case a == "false":
		return b
	case b == "false":
		return a
	case a == "true" || b == "true":
		return "true"
	}
	return "(" + a + " || " + b + ")"
}

func cmpTerm(op token.Token, a, b string) string {
	if n, ok := litInt(a); ok {
		if m, ok := litInt(b); ok {
			c := n.Cmp(m)
			r := false
			switch op {
			case token.LSS:
				r = c < 0
			case token.LEQ:
				r = c <= 0
			case token.GTR:
				r = c > 0
			case token.GEQ:
				r = c >= 0
			}
			return fmt.Sprint(r)
		}
	}
	// canonical forms: a < b, and negations
	switch op {
	case token.LSS:
		return "(" + a + " < " + b + ")"
	case token.GTR:
		return "(" + b + " < " + a + ")"
	case token.GEQ:
		return "!(" + a + " < " + b + ")"
	}
	return "!(" + b + " < " + a + ")"
}

func (x *Exec) evObj(o types.Object, p token.Pos, st *State, c *C, k func(*State, Val)) {
	switch u := o.(type) {
	case *types.Const:
		if v, ok := x.constVal(u.Val(), u.Type()); ok {
			k(st, v)
			return
		}
	case *types.Func:
		k(st, FuncRef{F: u})
		return
	case *types.Nil:
		k(st, NilV{T: u.Type()})
		return
	case *types.Var:
		if v, ok := st.env[o]; ok {
			if b, isB := v.(Box); isB {
				v = st.heap[b.Obj]
			}
			if pz, isP := v.(Poison); isP {
				x.oblig(st, "frame", "read of "+o.Name()+", which "+pz.Why, p, "false")
				k(st, x.havoc(st, o.Name(), o.Type()))
				return
			}
			k(st, v)
			return
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			x.globalVar(u, p, st, c, k)
			return
		}
	}
	x.unsupported(st, p, fmt.Sprintf("name %v", o))
}

// globalVar reads a package-level variable.
func (x *Exec) globalVar(o *types.Var, p token.Pos, st *State, c *C, k func(*State, Val)) {
	g := x.g
	key := shortPkg(o.Pkg()) + "." + o.Name()
	if isErrorType(o.Type()) {
		g.needConst(o)
		k(st, Term{S: g.errTerm(key), T: o.Type()})
		return
	}
	pkg := g.prog.Pkgs[o.Pkg().Path()]
	if gs := g.cs.Globals[key]; gs != nil {
		g.needConst(o)
		for _, u := range gs.Uses {
			g.uses[u] = true
		}
		g.enqueueGlobal(key)
		if gs.Value != "" {
			s, _ := x.spec(st, nil, gs.Value, nil)
			for _, f := range gs.Facts {
				if fs, ok := x.spec(st, nil, f, nil); ok {
					st.fact(fs)
				}
			}
			k(st, Term{S: s, T: o.Type(), Nil: "false"})
			return
		}
	}
	if pkg == nil {
		g.havocked["variable "+key] = true
		k(st, x.havoc(st, o.Name(), o.Type()))
		return
	}
	init := g.initExpr(pkg, o)
	if init == nil {
		g.needConst(o)
		k(st, x.havoc(st, o.Name(), o.Type()))
		return
	}
	g.needConst(o)
	x.ev(init, st, &C{pkg: pkg, stack: c.stack + ">" + key, brk: map[string]func(*State){}, cont: map[string]func(*State){}}, func(st *State, v Val) {
		if t, ok := v.(Term); ok {
			t.Fam = 0
			if t.Nil == "" {
				t.Nil = ""
			}
			v = t
		}
		k(st, x.convertAssign(st, v, o.Type()))
	})
}

func (g *Gen) initExpr(pkg *Pkg, o *types.Var) ast.Expr {
	for _, f := range pkg.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if pkg.Info.Defs[n] == o && i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
				}
			}
		}
	}
	return nil
}

// needConst checks that nothing in the repository assigns the variable.
func (g *Gen) needConst(o *types.Var) {
	key := shortPkg(o.Pkg()) + "." + o.Name()
	if g.constSeen[key] {
		return
	}
	g.constSeen[key] = true
	for _, p := range g.prog.Pkgs {
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				bad := func(e ast.Expr) {
					for {
						e = ast.Unparen(e)
						switch u := e.(type) {
						case *ast.IndexExpr:
							e = u.X
							continue
						case *ast.SelectorExpr:
							if p.Info.Uses[u.Sel] == o {
								e = u.Sel
							} else {
								e = u.X
							}
							continue
						case *ast.SliceExpr:
							e = u.X
							continue
						case *ast.StarExpr:
							e = u.X
							continue
						}
						break
					}
					if id, ok := e.(*ast.Ident); ok && p.Info.Uses[id] == o {
						pos := g.prog.Fset.Position(n.Pos())
						g.obligs = append(g.obligs, &Oblig{ID: key + "#constant.1", Func: key, Kind: "constant", Text: "package variable " + key + " is assigned outside its declaration", Pos: strings.TrimPrefix(pos.Filename, repoDir+"/") + ":" + fmt.Sprint(pos.Line), Goal: "false"})
					}
				}
				switch s := n.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						for _, l := range s.Lhs {
							bad(l)
						}
					}
				case *ast.IncDecStmt:
					bad(s.X)
				case *ast.UnaryExpr:
					if s.Op == token.AND {
						bad(s.X)
					}
				case *ast.CallExpr:
					if id, ok := ast.Unparen(s.Fun).(*ast.Ident); ok {
						if b, ok := p.Info.Uses[id].(*types.Builtin); ok && (b.Name() == "copy" || b.Name() == "delete") {
							bad(s.Args[0])
						}
					}
				}
				return true
			})
		}
	}
}

func (x *Exec) unary(u *ast.UnaryExpr, st *State, c *C, k func(*State, Val)) {
	switch u.Op {
	case token.NOT:
		x.ev(u.X, st, c, func(st *State, v Val) {
			t, ok := v.(Term)
			if !ok {
				x.unsupported(st, u.Pos(), "negation")
				return
			}
			k(st, Term{S: notTerm(t.S), T: t.T})
		})
	case token.SUB:
		x.ev(u.X, st, c, func(st *State, v Val) {
			T := c.pkg.Info.TypeOf(u)
			k(st, x.binop(token.SUB, Term{S: "0", T: T}, v, T, st, u.Pos()))
		})
	case token.ADD:
		x.ev(u.X, st, c, k)
	case token.XOR:
		x.ev(u.X, st, c, func(st *State, v Val) {
			T := c.pkg.Info.TypeOf(u)
			t, _ := x.term(st, v, T)
			_, _, hi := intRange(T)
			w, _, _ := intRange(T)
			if strings.HasPrefix(w, "wu") {
				k(st, Term{S: "(" + hi + " - " + t.S + ")", T: T})
			} else {
				k(st, Term{S: "(-1 - " + t.S + ")", T: T})
			}
		})
	case token.AND:
		e := ast.Unparen(u.X)
		pt := c.pkg.Info.TypeOf(u)
		if cl, ok := e.(*ast.CompositeLit); ok {
			x.composite(cl, c.pkg.Info.TypeOf(cl), st, c, func(st *State, v Val) {
				if s, ok := v.(Struct); ok && x.g.isHeap(s.T) {
					if t, ok := x.heapAlloc(st, s, u.Pos()); ok {
						t.T = pt
						k(st, t)
					}
					return
				}
				k(st, Ptr{Obj: x.alloc(st, v), T: pt})
			})
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			o := c.pkg.Info.Uses[id]
			v, ok := st.env[o]
			if !ok {
				x.unsupported(st, u.Pos(), "address of a package variable")
				return
			}
			if b, isB := v.(Box); isB {
				k(st, Ptr{Obj: b.Obj, T: pt})
				return
			}
			obj := x.alloc(st, v)
			st.env[o] = Box{obj}
			k(st, Ptr{Obj: obj, T: pt})
			return
		}
		if se, ok := e.(*ast.SelectorExpr); ok {
			if sel := c.pkg.Info.Selections[se]; sel != nil && sel.Kind() == types.FieldVal {
				// address of a field: base must be a pointer or an addressable variable
				base := func(st *State, bv Val) {
					bv, f := x.selPath(st, bv, sel.Recv(), sel.Index(), u.Pos())
					if x.g.isHeap(f.Type()) {
						if t, ok := x.fieldOf(st, bv, f, u.Pos()).(Term); ok {
							k(st, Term{S: t.S, T: pt})
							return
						}
						x.unsupported(st, u.Pos(), "address of a node")
						return
					}
					switch b := bv.(type) {
					case Ptr:
						k(st, Ptr{Obj: b.Obj, Path: append(append([]string(nil), b.Path...), f.Name()), T: pt})
					case Term:
						x.nilCheck(st, b, "&."+f.Name(), u.Pos())
						k(st, Term{S: "Some(" + b.S + "->0." + fieldName(f.Name()) + ")", T: pt})
					default:
						x.unsupported(st, u.Pos(), "address of field")
					}
				}
				if id, ok := ast.Unparen(se.X).(*ast.Ident); ok {
					if b, isB := st.env[c.pkg.Info.Uses[id]].(Box); isB {
						base(st, Ptr{Obj: b.Obj, T: types.NewPointer(c.pkg.Info.TypeOf(se.X))})
						return
					}
				}
				x.ev(se.X, st, c, base)
				return
			}
		}
		// address of an element or anything else: a snapshot
		x.ev(u.X, st, c, func(st *State, v Val) {
			s, ok := x.toTerm(st, v, c.pkg.Info.TypeOf(u.X))
			if !ok {
				x.unsupported(st, u.Pos(), "address")
				return
			}
			k(st, Term{S: "Some(" + s + ")", T: pt})
		})
	case token.ARROW:
		x.ev(u.X, st, c, func(st *State, ch Val) {
			et := types.Unalias(c.pkg.Info.TypeOf(u.X)).Underlying().(*types.Chan).Elem()
			v := x.havoc(st, "rx", et)
			x.received(st, v, et, x.sym(st, "ok", "bool"))
			k(st, v)
		})
	default:
		x.unsupported(st, u.Pos(), "unary "+u.Op.String())
	}
}

func (x *Exec) composite(u *ast.CompositeLit, T types.Type, st *State, c *C, k func(*State, Val)) {
	isPtr := false
	if p, ok := types.Unalias(T).Underlying().(*types.Pointer); ok {
		T = p.Elem()
		isPtr = true
	}
	fin := func(st *State, v Val) {
		if s, ok := v.(Struct); ok && x.g.isHeap(s.T) && isPtr {
			if t, ok := x.heapAlloc(st, s, u.Pos()); ok {
				k(st, t)
			}
			return
		}
		if isPtr {
			k(st, Ptr{Obj: x.alloc(st, v), T: types.NewPointer(T)})
			return
		}
		k(st, v)
	}
	evE := func(e ast.Expr, et types.Type, st *State, k func(*State, Val)) {
		if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
			x.composite(cl, et, st, c, k)
			return
		}
		x.ev(e, st, c, func(st *State, v Val) { k(st, x.copyVal(st, x.convertAssign(st, v, et))) })
	}
	switch t := types.Unalias(T).Underlying().(type) {
	case *types.Struct:
		z := x.g.zero(T)
		s, ok := z.(Struct)
		if !ok { // external struct
			var rec func(st *State, i int)
			rec = func(st *State, i int) {
				if i == len(u.Elts) {
					fin(st, Opaque{Kind: namedKey(T), T: T})
					return
				}
				e := u.Elts[i]
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					e = kv.Value
				}
				x.ev(e, st, c, func(st *State, _ Val) { rec(st, i+1) })
			}
			rec(st, 0)
			return
		}
		var rec func(st *State, i int, s Struct)
		rec = func(st *State, i int, s Struct) {
			if i == len(u.Elts) {
				s = x.heapParts(st, s, u.Pos())
				fin(st, s)
				return
			}
			var name string
			var e ast.Expr
			if kv, ok := u.Elts[i].(*ast.KeyValueExpr); ok {
				name = kv.Key.(*ast.Ident).Name
				e = kv.Value
			} else {
				name = t.Field(i).Name()
				e = u.Elts[i]
			}
			var ft types.Type
			for j := 0; j < t.NumFields(); j++ {
				if t.Field(j).Name() == name {
					ft = t.Field(j).Type()
				}
			}
			evE(e, ft, st, func(st *State, v Val) {
				rec(st, i+1, setPath(s, []string{name}, v).(Struct))
			})
		}
		rec(st, 0, s)
	case *types.Slice, *types.Array:
		var et types.Type
		n := len(u.Elts)
		if sl, ok := t.(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = t.(*types.Array).Elem()
			n = int(t.(*types.Array).Len())
		}
		for _, e := range u.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				x.unsupported(st, u.Pos(), "keyed slice literal")
				return
			}
		}
		var rec func(st *State, i int, acc []Val)
		rec = func(st *State, i int, acc []Val) {
			if i == len(u.Elts) {
				for j := i; j < n; j++ {
					acc = append(acc[:len(acc):len(acc)], x.g.zero(et))
				}
				x.g.fam++
				l := SliceLit{E: acc, T: T, Fam: x.g.fam}
				simple := false
				switch types.Unalias(et).Underlying().(type) {
				case *types.Basic, *types.Array:
					simple = true
				}
				if simple {
					fin(st, x.litTerm(st, l))
					return
				}
				fin(st, l)
				return
			}
			evE(u.Elts[i], et, st, func(st *State, v Val) { rec(st, i+1, append(acc[:len(acc):len(acc)], v)) })
		}
		rec(st, 0, nil)
	case *types.Map:
		var m Val = MapV{Obj: x.alloc(st, MapLit{}), T: T}
		if rm, ok := refMap(T); ok {
			m = x.refMake(st, rm, T)
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(u.Elts) {
				fin(st, m)
				return
			}
			kv := u.Elts[i].(*ast.KeyValueExpr)
			evE(kv.Key, t.Key(), st, func(st *State, kk Val) {
				evE(kv.Value, t.Elem(), st, func(st *State, v Val) {
					x.mapSet(st, m, kk, v, t, u.Pos())
					rec(st, i+1)
				})
			})
		}
		rec(st, 0)
	default:
		x.unsupported(st, u.Pos(), "composite literal")
	}
}

func (x *Exec) slice(u *ast.SliceExpr, st *State, c *C, k func(*State, Val)) {
	gt := c.pkg.Info.TypeOf(u.X)
	x.ev(u.X, st, c, func(st *State, bv Val) {
		idx := func(e ast.Expr, st *State, k func(*State, string)) {
			if e == nil {
				k(st, "")
				return
			}
			x.ev(e, st, c, func(st *State, v Val) {
				t, ok := x.term(st, v, types.Typ[types.Int])
				if !ok {
					x.unsupported(st, e.Pos(), "slice index")
					return
				}
				k(st, t.S)
			})
		}
		idx(u.Low, st, func(st *State, lo string) {
			idx(u.High, st, func(st *State, hi string) {
				if p, ok := bv.(Ptr); ok { // pointer to array
					bv, _ = x.readPath(st, p)
				}
				b, ok := x.term(st, bv, gt)
				if !ok {
					x.unsupported(st, u.Pos(), "slice of this value")
					return
				}
				l := x.lenOf(st, b, gt)
				rt := c.pkg.Info.TypeOf(u)
				if lo == "" {
					lo = "0"
				}
				if hi == "" {
					hi = l
				}
				if a, isA := types.Unalias(gt).Underlying().(*types.Array); isA {
					if a.Len() >= 1 && a.Len() <= 4 {
						var ps []string
						for i := 0; i < int(a.Len()); i++ {
							ps = append(ps, fmt.Sprintf("%s.%d", parenT(b.S), i))
						}
						b.S = "seq![" + strings.Join(ps, ", ") + "]"
					}
				}
				if lo == "0" && hi == l {
					nt := b
					nt.T = rt
					if b.Nil == "" && isSlice(gt) {
						nt.Nil = ""
					}
					k(st, nt)
					return
				}
				// Go allows up to the capacity; within the length is what the code may rely on
				goal := "(0 <= " + lo + " && " + lo + " <= " + hi + " && " + hi + " <= " + l + ")"
				triv := false
				if a, ok := litInt(lo); ok {
					if h, ok := litInt(hi); ok {
						if n, ok := litInt(l); ok && a.Sign() >= 0 && a.Cmp(h) <= 0 && h.Cmp(n) <= 0 {
							triv = true
						}
					}
				}
				if !triv && !st.known[goal] {
					x.oblig(st, "bounds", "slice bounds in range", u.Pos(), goal)
					st.fact(goal)
				}
				nt := Term{S: parenT(b.S) + ".subrange(" + lo + ", " + hi + ")", T: rt, Fam: b.Fam, Sub: hi != l || b.Sub}
				k(st, x.shortSeq(st, nt))
			})
		})
	})
}

// ---------------------------------------------------------------- operators

func (x *Exec) binop(op token.Token, a, b Val, t types.Type, st *State, p token.Pos) Val {
	at, ok1 := x.term(st, a, t)
	bt, ok2 := x.term(st, b, nil)
	if !ok1 || !ok2 {
		x.unsupported(st, p, "operands of "+op.String())
		return x.havoc(st, "op", t)
	}
	if isString(t) && op == token.ADD {
		return x.concat(at, bt, t)
	}
	if !isInt(t) {
		return x.havoc(st, "op", t)
	}
	A, okA := litInt(at.S)
	B, okB := litInt(bt.S)
	if okA && okB {
		r := new(big.Int)
		done := true
		switch op {
		case token.ADD:
			r.Add(A, B)
		case token.SUB:
			r.Sub(A, B)
		case token.MUL:
			r.Mul(A, B)
		case token.SHL:
			if B.IsInt64() && B.Int64() < 256 {
				r.Lsh(A, uint(B.Int64()))
			} else {
				done = false
			}
		case token.SHR:
			if B.IsInt64() && B.Int64() < 256 {
				r.Rsh(A, uint(B.Int64()))
			} else {
				done = false
			}
		case token.AND:
			r.And(A, B)
		case token.OR:
			r.Or(A, B)
		case token.XOR:
			r.Xor(A, B)
		case token.QUO:
			if B.Sign() != 0 {
				r.Quo(A, B)
			} else {
				done = false
			}
		case token.REM:
			if B.Sign() != 0 {
				r.Rem(A, B)
			} else {
				done = false
			}
		default:
			done = false
		}
		if done {
			return Term{S: intLit(wrapBig(r, t)), T: t}
		}
	}
	w, _, _ := intRange(t)
	unsigned := strings.HasPrefix(w, "wu")
	res := func(s string) Val { return x.shortInt(st, Term{S: s, T: t}) }
	switch op {
	case token.ADD:
		if okA && A.Sign() == 0 {
			return Term{S: bt.S, T: t}
		}
		if okB && B.Sign() == 0 {
			return Term{S: at.S, T: t}
		}
		return res(wrapT(at.S+" + "+bt.S, t))
	case token.SUB:
		if okB && B.Sign() == 0 {
			return Term{S: at.S, T: t}
		}
		return res(wrapT(at.S+" - "+bt.S, t))
	case token.MUL:
		return res(wrapT(parenT(at.S)+" * "+parenT(bt.S), t))
	case token.QUO, token.REM:
		if !okB || B.Sign() == 0 {
			x.oblig(st, "div0", "division by zero", p, "("+bt.S+" != 0)")
			st.fact("(" + bt.S + " != 0)")
		}
		o := "/"
		f := "godiv"
		if op == token.REM {
			o = "%"
			f = "gomod"
		}
		if unsigned {
			return res("(" + parenT(at.S) + " " + o + " " + parenT(bt.S) + ")")
		}
		return res(wrapT(f+"("+at.S+", "+bt.S+")", t))
	case token.SHL:
		if okB && B.IsInt64() && B.Int64() < 64 {
			m := new(big.Int).Lsh(big.NewInt(1), uint(B.Int64()))
			return res(wrapT(parenT(at.S)+" * "+m.String(), t))
		}
		x.shiftCheck(st, bt, p)
		return res(wrapT("shl_i("+at.S+", "+bt.S+")", t))
	case token.SHR:
		if okB && B.IsInt64() && B.Int64() < 64 {
			m := new(big.Int).Lsh(big.NewInt(1), uint(B.Int64()))
			return res("(" + parenT(at.S) + " / " + m.String() + ")")
		}
		x.shiftCheck(st, bt, p)
		return res("shr_i(" + at.S + ", " + bt.S + ")")
	case token.AND:
		for i, q := range []*big.Int{B, A} {
			if q == nil || (i == 0 && !okB) || (i == 1 && !okA) {
				continue
			}
			m := new(big.Int).Add(q, big.NewInt(1))
			if q.Sign() > 0 && new(big.Int).And(m, q).Sign() == 0 {
				o := at.S
				if i == 1 {
					o = bt.S
				}
				return res("(" + parenT(o) + " % " + m.String() + ")")
			}
		}
		return res("and_" + strings.TrimPrefix(w, "w") + "(" + at.S + ", " + bt.S + ")")
	case token.OR:
		return res("or_" + strings.TrimPrefix(w, "w") + "(" + at.S + ", " + bt.S + ")")
	case token.XOR:
		return res("xor_" + strings.TrimPrefix(w, "w") + "(" + at.S + ", " + bt.S + ")")
	case token.AND_NOT:
		return res("andnot_" + strings.TrimPrefix(w, "w") + "(" + at.S + ", " + bt.S + ")")
	}
	x.unsupported(st, p, "operator "+op.String())
	return x.havoc(st, "op", t)
}

func (x *Exec) shiftCheck(st *State, b Term, p token.Pos) {
	if b.T != nil {
		w, _, _ := intRange(b.T)
		if strings.HasPrefix(w, "wu") {
			return
		}
	}
	x.oblig(st, "shift", "shift count is not negative", p, "(0 <= "+b.S+")")
}

// shortInt names an integer result and records its range.
func (x *Exec) shortInt(st *State, t Term) Term {
	if len(t.S) > 40 {
		n := x.sym(st, "n", "int")
		st.fact(n + " == " + t.S)
		t.S = n
		x.typeFacts(st, n, t.T)
	}
	return t
}

func (x *Exec) concat(a, b Term, t types.Type) Term {
	pa, pb := a.Parts, b.Parts
	if pa == nil {
		pa = []string{a.S}
	}
	if pb == nil {
		pb = []string{b.S}
	}
	var parts []string
	for _, p := range append(append([]string(nil), pa...), pb...) {
		if strings.HasPrefix(p, "Seq::<") && strings.HasSuffix(p, "::empty()") && litLen(p) == 0 {
			continue
		}
		if n := len(parts); n > 0 {
			if l1, ok := litBytes(parts[n-1]); ok {
				if l2, ok := litBytes(p); ok {
					parts[n-1] = x.litJoin(parts[n-1], p, l1+l2)
					continue
				}
			}
		}
		parts = append(parts, p)
	}
	if len(parts) == 0 {
		return Term{S: "Seq::<u8>::empty()", T: t}
	}
	if len(parts) == 1 {
		return Term{S: parts[0], T: t}
	}
	var ps []string
	for _, p := range parts {
		ps = append(ps, parenT(p))
	}
	return Term{S: "(" + strings.Join(ps, " + ") + ")", T: t, Parts: parts}
}

// litBytes decodes a literal byte sequence term.
func litBytes(s string) (string, bool) {
	if strings.HasPrefix(s, "gs_") && strings.HasSuffix(s, "()") && strings.Count(s, "(") == 1 {
		var b []byte
		h := s[3 : len(s)-2]
		for i := 0; i+1 < len(h); i += 2 {
			var v int
			if _, err := fmt.Sscanf(h[i:i+2], "%02x", &v); err != nil {
				return "", false
			}
			b = append(b, byte(v))
		}
		return string(b), true
	}
	if strings.HasPrefix(s, "seq![") && strings.HasSuffix(s, "u8]") {
		var b []byte
		for _, p := range strings.Split(s[5:len(s)-1], ", ") {
			var v int
			if n, err := fmt.Sscanf(p, "%du8", &v); n != 1 || err != nil || p != fmt.Sprintf("%du8", v) {
				return "", false
			}
			b = append(b, byte(v))
		}
		return string(b), true
	}
	return "", false
}

func (x *Exec) litJoin(a, b, l string) string {
	if strings.HasPrefix(a, "gs_") || strings.HasPrefix(b, "gs_") {
		return x.g.lit(l)
	}
	return bytesLit(l)
}

// eqTerm is the Verus boolean for a == b.
func (x *Exec) eqTerm(st *State, a, b Val, t types.Type, p token.Pos) (string, bool) {
	if bx, ok := a.(Box); ok {
		a = st.heap[bx.Obj]
	}
	if bx, ok := b.(Box); ok {
		b = st.heap[bx.Obj]
	}
	_, na := a.(NilV)
	_, nb := b.(NilV)
	if na && nb {
		return "true", true
	}
	if na {
		a, b = b, a
		nb = true
	}
	if nb {
		switch u := a.(type) {
		case Term:
			tt := u.T
			if tt == nil {
				tt = t
			}
			switch types.Unalias(tt).Underlying().(type) {
			case *types.Slice:
				return x.nilOf(st, u), true
			case *types.Map:
				if _, ok := refMap(tt); ok {
					return "(" + parenT(u.S) + " == 0)", true
				}
				return x.sym(st, "nilmap", "bool"), true
			}
			if x.g.isHeapPtr(tt) {
				return "(" + parenT(u.S) + " == 0)", true
			}
			if isErrorType(tt) {
				if u.S == "GoErr::Nil" {
					return "true", true
				}
				if strings.HasPrefix(u.S, "GoErr::") {
					return "false", true
				}
				return "(" + u.S + " == GoErr::Nil)", true
			}
			if u.S == "None" || strings.HasPrefix(u.S, "None::<") {
				return "true", true
			}
			return "!(" + u.S + " is Some)", true
		case Ptr, Clos, FuncRef, DB, Hash:
			return "false", true
		case MapV:
			m, _ := st.heap[u.Obj].(MapLit)
			return fmt.Sprint(m.Nil), true
		case SliceLit:
			return "false", true
		case Opaque:
			return "false", true
		}
		return "", false
	}
	if pa, ok := a.(Ptr); ok {
		if pb, ok := b.(Ptr); ok {
			return fmt.Sprint(pa.Obj == pb.Obj && strings.Join(pa.Path, ".") == strings.Join(pb.Path, ".")), true
		}
		return "", false
	}
	at, ok1 := x.term(st, a, t)
	bt, ok2 := x.term(st, b, t)
	if !ok1 || !ok2 {
		return "", false
	}
	if x.g.isHeapPtr(t) {
		return "(" + parenT(at.S) + " == " + parenT(bt.S) + ")", true
	}
	if _, isP := types.Unalias(t).Underlying().(*types.Pointer); isP {
		// pointer identity is not modelled
		return x.sym(st, "ptreq", "bool"), true
	}
	if at.S == bt.S && !isIface(t) || (at.S == bt.S && isErrorType(t) && strings.HasPrefix(at.S, "GoErr::Named")) {
		return "true", true
	}
	if keysDistinct(at.S, bt.S) {
		return "false", true
	}
	if isErrorType(t) {
		// distinct error constructors
		ca, cb := errCtor(at.S), errCtor(bt.S)
		if ca != "" && cb != "" && (ca != cb || ca == "GoErr::Named") {
			return "false", true
		}
		if ca == "GoErr::Status" || cb == "GoErr::Status" {
			return x.sym(st, "erreq", "bool"), true // identity of status errors is not modelled
		}
		return "(" + at.S + " == " + bt.S + ")", true
	}
	if bo, ok := types.Unalias(t).Underlying().(*types.Basic); ok && bo.Info()&types.IsBoolean != 0 {
		for i := 0; i < 2; i++ {
			if bt.S == "true" {
				return at.S, true
			}
			if bt.S == "false" {
				return notTerm(at.S), true
			}
			at, bt = bt, at
		}
	}
	return "(" + at.S + " == " + bt.S + ")", true
}

func errCtor(s string) string {
	for _, c := range []string{"GoErr::Nil", "GoErr::Named", "GoErr::Status", "GoErr::Opaque"} {
		if strings.HasPrefix(s, c) {
			return c
		}
	}
	return ""
}
