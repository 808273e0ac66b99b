package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// View says how an object of the repository that implements the store interfaces
// is a store: "view T keep F1, F2; db EXPR; inv EXPR" with $o for the object (a
// struct term) and $p for the store held in its field Parent.
type View struct {
	Type    string
	Keep    map[string]bool
	Parent  string
	DB, Inv string
}

func parseView(s string) (*View, error) {
	v := &View{Keep: map[string]bool{}}
	for i, p := range strings.Split(s, ";") {
		p = strings.TrimSpace(p)
		w := strings.SplitN(p, " ", 2)
		switch {
		case i == 0:
			v.Type = p
		case w[0] == "keep":
			for _, n := range splitNames(w[1]) {
				v.Keep[n] = true
			}
		case w[0] == "parent":
			v.Parent = strings.TrimSpace(w[1])
		case w[0] == "db":
			v.DB = w[1]
		case w[0] == "inv":
			v.Inv = w[1]
		default:
			return nil, fmt.Errorf("bad view %q", s)
		}
	}
	return v, nil
}

// viewOf turns an object with a view into a store handle; the returned function
// makes the object agree with the store after the callee has changed it.
func (x *Exec) viewOf(st *State, v Val, pos token.Pos) (DB, func(st *State), bool) {
	p, ok := v.(Ptr)
	if !ok || x.con == nil {
		return DB{}, nil, false
	}
	pt, ok := types.Unalias(p.T).Underlying().(*types.Pointer)
	if !ok {
		return DB{}, nil, false
	}
	vw := x.con.Views[namedKey(pt.Elem())]
	if vw == nil {
		return DB{}, nil, false
	}
	inst := func(st *State, e string) (string, bool) {
		ov, ok := x.readPath(st, p)
		if !ok {
			return "", false
		}
		o, ok := x.toTerm(st, ov, pt.Elem())
		if !ok {
			return "", false
		}
		s := x.sym(st, "view", x.g.vtype(pt.Elem()))
		st.fact(s + " == " + o)
		e = strings.ReplaceAll(e, "$o", s)
		if vw.Parent != "" {
			sv, isS := ov.(Struct)
			if !isS {
				return "", false
			}
			d, isD := sv.F[vw.Parent].(DB)
			if !isD {
				return "", false
			}
			e = strings.ReplaceAll(e, "$p", st.ghost["db:"+d.Slot])
		}
		for g, t := range st.ghost {
			if strings.HasPrefix(g, "$") && strings.Contains(e, g) {
				e = strings.ReplaceAll(e, g, t)
			}
		}
		return e, true
	}
	d := x.newDB(st, "view")
	e, ok := inst(st, vw.DB)
	iv, ok2 := inst(st, vw.Inv)
	if !ok || !ok2 {
		return DB{}, nil, false
	}
	st.fact(st.ghost["db:"+d.Slot] + " == " + e)
	x.oblig(st, "view", "the object behaves as a store: "+vw.Inv, pos, iv)
	return d, func(st *State) {
		ov, _ := x.readPath(st, p)
		if s, isS := ov.(Struct); isS {
			n := Struct{T: s.T, F: map[string]Val{}}
			for _, k := range sortedKeys(s.F) {
				if vw.Keep[k] {
					n.F[k] = s.F[k]
				} else {
					n.F[k] = x.havocVal(st, k, s.F[k], nil)
				}
			}
			x.writePath(st, p, n)
		}
		for _, k := range sortedKeys(st.ghost) {
			if k == "$bmaps" || k == "$mmaps" {
				st.ghost[k] = x.sym(st, "heap", ghostTypes[k])
			}
		}
		if e, ok := inst(st, vw.DB); ok {
			st.fact(st.ghost["db:"+d.Slot] + " == " + e)
		}
		if iv, ok := inst(st, vw.Inv); ok {
			st.fact(iv)
		}
		x.g.assumed["a function given an object as a store uses it only through the store interface, whose methods keep the object's view"] = true
	}, true
}
