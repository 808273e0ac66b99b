package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// Heap structs: objects of a struct type declared `heap T $ghost` live in a ghost heap, a
// map from identities to records, so that linked nodes can be reached through pointers to
// each other. A pointer is the identity (0 is nil); a field read goes through the heap, a
// field write and an allocation change it. A slice field holds nil exactly when it is empty:
// every write of one is obliged to keep it that way.

func (g *Gen) isHeap(t types.Type) bool {
	if t == nil {
		return false
	}
	return g.heapTypes[namedKey(t)]
}

func (g *Gen) isHeapPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok && g.isHeap(p.Elem())
}

// heapElem is the heap struct type behind a pointer to it, or the type itself.
func heapElem(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) structHeap(st *State, t types.Type) (name, term string) {
	n := x.g.cs.Heaps[namedKey(heapElem(t))]
	if st.ghost[n] == "" {
		st.ghost[n] = x.sym(st, "mem", ghostTypes[n])
	}
	return n, st.ghost[n]
}

// heapRec is the record of a heap object with its slices nil exactly when empty.
func (x *Exec) heapField(st *State, id string, t types.Type, f *types.Var) Val {
	_, h := x.structHeap(st, t)
	fs := h + "[" + id + "]." + fieldName(f.Name())
	v := x.fieldVal(st, fs, f.Type(), false)
	if tm, ok := v.(Term); ok && isSlice(f.Type()) {
		tm.Nil = "(" + fs + ".len() == 0)"
		return tm
	}
	return v
}

// heapStore gives the term of a value kept in a field of a heap object.
func (x *Exec) heapStore(st *State, v Val, f *types.Var, p token.Pos) (string, bool) {
	v = x.convertAssign(st, v, f.Type())
	if isSlice(f.Type()) {
		t, ok := x.term(st, v, f.Type())
		if !ok {
			return "", false
		}
		if nl := x.nilOf(st, t); nl != "true" && nl != "("+t.S+".len() == 0)" {
			x.oblig(st, "nilfield", "a slice kept in a node is nil or not empty: ."+f.Name(), p, "("+nl+" == ("+t.S+".len() == 0))")
		}
		x.freeze(st, t)
		return t.S, true
	}
	return x.toTerm(st, v, f.Type())
}

func (x *Exec) heapWrite(st *State, id string, t types.Type, f *types.Var, v Val, p token.Pos) {
	s, ok := x.heapStore(st, v, f, p)
	if !ok {
		x.unsupported(st, p, "value of a node's field")
		return
	}
	n, h := x.structHeap(st, t)
	rec := x.g.structName(types.Unalias(heapElem(t)).(*types.Named)) + " { " + fieldName(f.Name()) + ": " + s + ", .." + h + "[" + id + "] }"
	x.setHeap(st, n, h+".insert("+id+", "+rec+")")
}

func (x *Exec) heapAlloc(st *State, v Struct, p token.Pos) (Term, bool) {
	n, h := x.structHeap(st, v.T)
	su := types.Unalias(v.T).Underlying().(*types.Struct)
	var ps []string
	for _, f := range structFields(su) {
		s, ok := x.heapStore(st, v.F[f.Name()], f, p)
		if !ok {
			x.unsupported(st, p, "field of a new node")
			return Term{}, false
		}
		ps = append(ps, fieldName(f.Name())+": "+s)
	}
	id := x.sym(st, "node", "int")
	st.fact("(" + id + " > 0 && !" + h + ".dom().contains(" + id + "))")
	x.setHeap(st, n, h+".insert("+id+", "+x.g.structName(types.Unalias(v.T).(*types.Named))+" { "+strings.Join(ps, ", ")+" })")
	return Term{S: id, T: types.NewPointer(v.T)}, true
}

// heapParts gives the heap objects embedded in a new struct value their place.
func (x *Exec) heapParts(st *State, s Struct, p token.Pos) Struct {
	su := types.Unalias(s.T).Underlying().(*types.Struct)
	for _, f := range structFields(su) {
		if !x.g.isHeap(f.Type()) {
			continue
		}
		in, ok := s.F[f.Name()].(Struct)
		if !ok {
			continue
		}
		if t, ok := x.heapAlloc(st, in, p); ok {
			t.T = f.Type()
			s = setPath(s, []string{f.Name()}, t).(Struct)
		}
	}
	return s
}

// heapModified notes the heaps an assignment may change; true when the target is one.
func (x *Exec) heapTarget(e ast.Expr, info *types.Info, m *modset) bool {
	se, ok := ast.Unparen(e).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	t := info.TypeOf(se.X)
	if t == nil || !(x.g.isHeapPtr(t) || x.g.isHeap(t)) {
		return false
	}
	m.addGhost(x.g.cs.Heaps[namedKey(heapElem(t))])
	return true
}

// ---- logical parameters

func mentions(expr, name string) bool {
	return regexp.MustCompile(`(^|[^A-Za-z0-9_$.])` + regexp.QuoteMeta(name) + `($|[^A-Za-z0-9_])`).MatchString(expr)
}

func (c *Contract) mentionsGiven(expr string) bool {
	for _, g := range c.Given {
		if mentions(expr, g[0]) {
			return true
		}
	}
	return false
}

func (c *Contract) givenBinder() string {
	var p []string
	for _, g := range c.Given {
		p = append(p, g[0]+": "+g[1])
	}
	return strings.Join(p, ", ")
}
