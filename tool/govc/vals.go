package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Val is a symbolic value.
type Val interface{}

// Term is a value denoted by a Verus expression.
type Term struct {
	S     string
	T     types.Type
	Nil   string   // for slices, maps: Verus boolean, "" when unknown
	Fam   int      // slices: backing-array family; 0 = borrowed
	Parts []string // byte-string concatenations, flattened
	Sub   bool     // a shortened view of a longer slice
}

// Ptr is a non-nil pointer to a concrete object (or a field inside it).
type Ptr struct {
	Obj  int
	Path []string
	T    types.Type // the pointer type
}

// Struct is a concrete struct value.
type Struct struct {
	T types.Type
	F map[string]Val
}

// NilV is the nil value of pointer, func or interface type.
type NilV struct{ T types.Type }

// Clos is a function literal.
type Clos struct {
	Lit *ClosLit
}

// FuncRef is a named function, possibly bound to a receiver.
type FuncRef struct {
	F    *types.Func
	Recv Val
}

// DB is a key-value store handle.
type DB struct {
	Slot     string
	ReadOnly bool
}

// Hash is a running hash.
type Hash struct{ Obj int }

// MapV is a reference to a map object.
type MapV struct {
	Obj int
	T   types.Type
}

// MapLit is the content of a map object: concrete entries, or a term.
type MapLit struct {
	Ents []MapEnt
	Term string // non-empty when the content is symbolic
	Nil  bool
}

// MapEnt is one entry of a concrete map.
type MapEnt struct {
	K string
	V Val
}

// Tuple is a multi-value.
type Tuple []Val

// Box marks a local variable that lives in the heap.
type Box struct{ Obj int }

// Opaque is a handle the engine knows by kind (locks, transactions, ...).
type Opaque struct {
	Kind string
	T    types.Type
	ID   int
	Data map[string]Val
	S    string // the value as a term, when it came from a call
}

// Poison is a value that may not be read (possibly overwritten through an alias).
type Poison struct{ Why string }

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func lastElem(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func namedKey(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
}

func (g *Gen) inRepo(n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func isReaderType(t types.Type) bool { return namedKey(t) == "verifiable.KeyReader" }

func isDBType(t types.Type) bool {
	k := namedKey(t)
	return k == "verifiable.KeyReader" || k == "verifiable.KeyWriter"
}

// vtype gives the Verus type modelling a Go type.
func (g *Gen) vtype(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Named:
		if isErrorType(u) {
			return "GoErr"
		}
		if g.heapTypes[namedKey(u)] {
			return g.structName(u)
		}
		switch u.Underlying().(type) {
		case *types.Struct:
			if !g.inRepo(u) {
				return "GAny"
			}
			return g.structName(u)
		case *types.Interface:
			return "Option<GAny>"
		}
		return g.vtype(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsString != 0:
			return "Seq<u8>"
		case u.Kind() == types.UntypedNil:
			return "Option<GAny>"
		}
		return "GAny"
	case *types.Pointer:
		if g.heapTypes[namedKey(u.Elem())] {
			return "int"
		}
		if selfReaching(u.Elem()) {
			return "Option<GAny>"
		}
		return "Option<" + g.vtype(u.Elem()) + ">"
	case *types.Slice:
		return "Seq<" + g.elemType(u.Elem()) + ">"
	case *types.Array:
		if u.Len() >= 1 && u.Len() <= 4 {
			e := g.elemType(u.Elem())
			return "(" + strings.Repeat(e+",", int(u.Len())) + ")"
		}
		return "Seq<" + g.elemType(u.Elem()) + ">"
	case *types.Map:
		if _, ok := refMap(t); ok {
			return "int"
		}
		return "Map<" + g.vtype(u.Key()) + "," + g.vtype(u.Elem()) + ">"
	case *types.Struct:
		return g.structName(u)
	case *types.Interface, *types.Signature:
		return "Option<GAny>"
	}
	return "GAny"
}

// selfReaching tells whether a named struct holds pointers to itself (directly): such
// pointers are opaque to the verifier, which has no induction over linked nodes.
func selfReaching(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for _, f := range structFields(st) {
		if p, ok := types.Unalias(f.Type()).(*types.Pointer); ok && types.Identical(types.Unalias(p.Elem()), n) {
			return true
		}
	}
	return false
}

func isByte(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// elemType is the Verus type of slice and array elements (bytes are u8).
func (g *Gen) elemType(t types.Type) string {
	if isByte(t) {
		return "u8"
	}
	return g.vtype(t)
}

func (g *Gen) structName(t types.Type) string {
	name := ""
	var st *types.Struct
	if n, ok := t.(*types.Named); ok {
		name = mangle(lastElem(shortPkg(n.Obj().Pkg()))) + "_" + n.Obj().Name()
		st = n.Underlying().(*types.Struct)
	} else {
		st = t.(*types.Struct)
		h := sha256.Sum256([]byte(st.String()))
		name = "anon_" + hex.EncodeToString(h[:4])
	}
	if _, ok := g.structs[name]; ok {
		return name
	}
	g.structs[name] = "" // cycle guard
	var b strings.Builder
	fmt.Fprintf(&b, "#[verifier::ext_equal]\npub ghost struct %s {\n", name)
	for _, f := range structFields(st) {
		vt := g.vtype(f.Type())
		if g.isHeap(f.Type()) { // where it lives
			vt = "int"
		}
		fmt.Fprintf(&b, "    pub %s: %s,\n", fieldName(f.Name()), vt)
	}
	b.WriteString("}\n")
	g.structs[name] = b.String()
	return name
}

func fieldName(n string) string {
	switch n {
	case "mut", "pub", "let", "impl", "trait", "as", "crate", "dyn", "enum", "struct", "static", "unsafe", "while", "async", "await", "box", "priv", "do", "virtual", "yield", "try", "macro", "abstract", "become", "override", "typeof", "unsized", "type", "fn", "match", "ref", "self", "in", "mod", "use", "move", "loop", "where", "final", "super", "Self", "choose", "forall", "exists", "spec", "proof", "exec", "open", "closed", "tracked", "ghost":
		return n + "_"
	}
	return n
}

// structFields lists the modelled fields: protobuf bookkeeping and locks are dropped.
func structFields(st *types.Struct) []*types.Var {
	var r []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "state" || f.Name() == "sizeCache" || f.Name() == "unknownFields" || f.Name() == "_" {
			if p := f.Pkg(); p != nil && strings.HasSuffix(p.Path(), "/pb") {
				continue
			}
		}
		if f.Embedded() && strings.HasPrefix(f.Name(), "Unimplemented") {
			continue
		}
		r = append(r, f)
	}
	return r
}

func (g *Gen) zero(t types.Type) Val {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Term{S: "false", T: t}
		case u.Info()&types.IsInteger != 0:
			return Term{S: "0", T: t}
		case u.Info()&types.IsString != 0:
			return Term{S: "Seq::<u8>::empty()", T: t}
		}
		return Term{S: "arbitrary::<GAny>()", T: t}
	case *types.Slice:
		g.fam++
		return Term{S: "Seq::<" + g.elemType(u.Elem()) + ">::empty()", T: t, Nil: "true", Fam: g.fam}
	case *types.Map:
		if _, ok := refMap(t); ok {
			return Term{S: "0", T: t, Nil: "true"}
		}
		return NilV{T: t}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && !g.inRepo(n) {
			return Opaque{Kind: namedKey(t), T: t}
		}
		s := Struct{T: t, F: map[string]Val{}}
		for _, f := range structFields(u) {
			s.F[f.Name()] = g.zero(f.Type())
		}
		return s
	case *types.Array:
		z := g.zero(u.Elem())
		zt, ok := z.(Term)
		if !ok {
			return Term{S: "arbitrary()", T: t}
		}
		es := zt.S
		if isByte(u.Elem()) {
			es = "0u8"
		}
		if u.Len() >= 1 && u.Len() <= 4 {
			return Term{S: "(" + strings.Repeat(es+",", int(u.Len())) + ")", T: t}
		}
		g.fam++
		if u.Len() == 0 {
			return Term{S: "Seq::<" + g.elemType(u.Elem()) + ">::empty()", T: t, Fam: g.fam}
		}
		return Term{S: fmt.Sprintf("Seq::new(%d, |z_: int| %s)", u.Len(), es), T: t, Fam: g.fam}
	}
	if isErrorType(t) {
		return Term{S: "GoErr::Nil", T: t}
	}
	return NilV{T: t}
}

// intKind returns the wrap function of an integer type, its minimum and maximum.
func intRange(t types.Type) (wrap, lo, hi string) {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return "", "", ""
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return "wi64", "-0x8000_0000_0000_0000", "0x7fff_ffff_ffff_ffff"
	case types.Uint, types.Uint64, types.Uintptr:
		return "wu64", "0", "0xffff_ffff_ffff_ffff"
	case types.Int32:
		return "wi32", "-0x8000_0000", "0x7fff_ffff"
	case types.Uint32:
		return "wu32", "0", "0xffff_ffff"
	case types.Int16:
		return "wi16", "-0x8000", "0x7fff"
	case types.Uint16:
		return "wu16", "0", "0xffff"
	case types.Int8:
		return "wi8", "-0x80", "0x7f"
	case types.Uint8:
		return "wu8", "0", "0xff"
	}
	return "", "", ""
}

func isInt(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSlice(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok
}

func isIface(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok
}

func (g *Gen) lit(s string) string {
	n := "gs_" + hex.EncodeToString([]byte(s))
	if s == "" {
		return "Seq::<u8>::empty()"
	}
	if _, ok := g.lits[n]; !ok {
		g.lits[n] = s
	}
	return n + "()"
}

func bytesLit(s string) string {
	if s == "" {
		return "Seq::<u8>::empty()"
	}
	var p []string
	for i := 0; i < len(s); i++ {
		p = append(p, fmt.Sprintf("%du8", s[i]))
	}
	return "seq![" + strings.Join(p, ", ") + "]"
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
