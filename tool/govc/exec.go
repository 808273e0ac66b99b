package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Oblig is one proof obligation.
type Oblig struct {
	ID     string // stable name: function # kind # ordinal
	Func   string
	Kind   string
	Text   string // human description
	Pos    string // repository position
	Decls  []Decl
	Facts  []string
	Hints  []string
	Goal   string
	Fn     string // generated Verus function name
	Rlimit string
	Cover  bool // must fail: reachability check
	Final  bool // not worth another try
	// result
	Status string // discharged, failed, error
	Detail string
	Millis int64
}

// Decl is one symbolic variable.
type Decl struct{ N, T string }

// Gen generates the obligations of one property.
type Gen struct {
	prog       *Prog
	cs         *Contracts
	structs    map[string]string
	lits       map[string]string
	uninterp   map[string]string
	heapTypes  map[string]bool
	obligs     []*Oblig
	fam        int
	fresh      int
	ids        map[string]int
	queue      []string
	queued     map[string]bool
	globQueued map[string]bool
	globals    map[types.Object]Val
	assumed    map[string]bool // externs and assumptions used
	inlined    map[string]bool
	havocked   map[string]bool
	uses       map[string]bool
	paths      int
	errIDs     map[string]int
	constSeen  map[string]bool
	globOrder  []string
	edges      map[string]map[string]bool
	forced     map[string]bool
}

// ClosLit is a function literal with its package.
type ClosLit struct {
	Lit *ast.FuncLit
	Pkg *Pkg
	Key string
}

// State is a symbolic state on one path.
type State struct {
	env      map[types.Object]Val
	names    map[string]types.Object
	heap     map[int]Val
	ghost    map[string]string // "db:slot" -> term, other ghost variables
	decls    []Decl
	facts    []string
	known    map[string]bool
	defers   [][]deferred
	pre      *State // state at the head of the current loop iteration
	lets     map[string]string
	depth    int
	hints    []scopedHint
	frozen   map[string]string
	acq, rel *State // when the lock was last taken, last released
}

type scopedHint struct {
	cl     Clause
	pre    *State
	frozen string // already instantiated: from a call that has returned
}

type deferred struct {
	call *ast.CallExpr
	pkg  *Pkg
	fv   Val
	args []Val
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[types.Object]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.names = make(map[string]types.Object, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	n.heap = make(map[int]Val, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]string, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.known = make(map[string]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	n.lets = make(map[string]string, len(s.lets))
	for k, v := range s.lets {
		n.lets[k] = v
	}
	n.decls = s.decls[:len(s.decls):len(s.decls)]
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.hints = s.hints[:len(s.hints):len(s.hints)]
	n.defers = append([][]deferred(nil), s.defers...)
	return &n
}

func (s *State) fact(f string) {
	if f == "true" || s.known[f] {
		return
	}
	s.known[f] = true
	s.facts = append(s.facts, f)
}

// Exec executes one function under contract.
type Exec struct {
	self       Val // the receiver of a method value being iterated ($self)
	selfT      types.Type
	g          *Gen
	key        string
	con        *Contract
	loopOrd    map[string]int // "stack|pos" -> ordinal
	entry      *State
	entryEnv   map[string]string // parameter name -> entry term
	results    []string
	sig        *types.Signature
	params     []types.Object
	stack      []string
	unknownFam map[string]bool
	retry      bool
	npaths     int
	aborted    string
}

// C is the control context.
type C struct {
	pkg   *Pkg
	ret   func(*State, []Val)
	brk   map[string]func(*State)
	cont  map[string]func(*State)
	res   []types.Object // named results
	sig   *types.Signature
	stack string
}

func (c *C) with(label string, brk, cont func(*State)) *C {
	n := *c
	n.brk = map[string]func(*State){}
	n.cont = map[string]func(*State){}
	for k, v := range c.brk {
		n.brk[k] = v
	}
	for k, v := range c.cont {
		n.cont[k] = v
	}
	if brk != nil {
		n.brk[""] = brk
		if label != "" {
			n.brk[label] = brk
		}
	}
	if cont != nil {
		n.cont[""] = cont
		if label != "" {
			n.cont[label] = cont
		}
	}
	return &n
}

func (x *Exec) pos(p token.Pos) string {
	q := x.g.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, repoDir+"/") + ":" + fmt.Sprint(q.Line)
}

func (g *Gen) name(base string) string {
	g.fresh++
	return fmt.Sprintf("v%d_%s", g.fresh, mangle(base))
}

// sym declares a fresh symbolic variable.
func (x *Exec) sym(st *State, base, vt string) string {
	n := x.g.name(base)
	st.decls = append(st.decls, Decl{n, vt})
	return n
}

// short replaces a long term by a fresh variable equal to it.
func (x *Exec) short(st *State, t Term) Term {
	if len(t.S) <= 60 || t.Parts != nil {
		return t
	}
	n := x.sym(st, "t", x.g.vtype(t.T))
	st.fact(n + " == " + t.S)
	t.S = n
	return t
}

// typeFacts adds the range facts of a freshly read term.
func (x *Exec) typeFacts(st *State, s string, t types.Type) {
	if isInt(t) {
		_, lo, hi := intRange(t)
		st.fact("(" + lo + " <= " + s + " && " + s + " <= " + hi + ")")
	}
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok && a.Len() > 4 {
		st.fact(fmt.Sprintf("%s.len() == %d", s, a.Len()))
	}
}

// havoc gives a fresh symbolic value of a type.
func (x *Exec) havoc(st *State, base string, t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tu.Len(); i++ {
			r = append(r, x.havoc(st, base, tu.At(i).Type()))
		}
		return r
	}
	if isDBType(t) {
		return x.newDB(st, base)
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, isS := n.Underlying().(*types.Struct); isS && !x.g.inRepo(n) {
			return Opaque{Kind: namedKey(t), T: t}
		}
	}
	n := x.sym(st, base, x.g.vtype(t))
	x.typeFacts(st, n, t)
	tm := Term{S: n, T: t}
	if isSlice(t) {
		st.fact("is_len(" + n + ".len() as int)")
	}
	return tm
}

func (x *Exec) newDB(st *State, base string) DB {
	x.g.fresh++
	slot := fmt.Sprintf("%s_%d", mangle(base), x.g.fresh)
	st.ghost["db:"+slot] = x.sym(st, "db", "Db")
	return DB{Slot: slot}
}

func (x *Exec) unsupported(st *State, p token.Pos, why string) {
	x.oblig(st, "unsupported", why, p, "false")
}

// oblig emits an obligation at the current state.
func (x *Exec) oblig(st *State, kind, text string, p token.Pos, goal string) {
	if goal == "true" || st.known[goal] {
		return
	}
	if strings.HasSuffix(kind, "bounds") || kind == "nil" || kind == "conv" {
		// trivially true goals
	}
	g := x.g
	base := x.key + "#" + kind
	g.ids[base]++
	o := &Oblig{ID: fmt.Sprintf("%s.%d", base, g.ids[base]), Func: x.key, Kind: kind, Text: text, Pos: x.pos(p), Goal: goal}
	if x.con != nil {
		o.Rlimit = x.con.Rlimit
	}
	hints := x.instHints(st)
	o.Decls = append(o.Decls, st.decls...)
	o.Facts = append(o.Facts, st.facts...)
	if kind != "unsupported" {
		o.Hints = hints
	}
	g.obligs = append(g.obligs, o)
}

func (x *Exec) instHints(st *State) []string {
	var r []string
	for _, h := range st.hints {
		if h.frozen != "" {
			r = append(r, h.frozen)
			continue
		}
		s, ok := x.spec(st, h.pre, h.cl.Expr, nil)
		if ok {
			r = append(r, s)
		}
	}
	return r
}

// spec instantiates a specification formula in a state. ok is false when it
// mentions a name that is not in scope ($-names and unknown lower-case names
// are left to Verus).
func (x *Exec) spec(st, pre *State, expr string, extra map[string]string) (string, bool) {
	ok := true
	var lookup func(n string) (string, bool)
	mk := func(s *State, ex map[string]string) func(n string) (string, bool) {
		return func(n string) (string, bool) {
			if ex != nil {
				if v, has := ex[n]; has {
					return v, true
				}
			}
			if v, has := s.lets[n]; has {
				return v, true
			}
			if n == "$self" && x.self != nil {
				if t, good := x.specTerm(s, x.self, x.selfT); good {
					return t, true
				}
			}
			if strings.HasPrefix(n, "$") {
				if v, has := s.ghost[n]; has {
					return v, true
				}
				ok = false
				return n, true
			}
			if o, has := s.names[n]; has {
				v, has := s.env[o]
				if has {
					t, good := x.specTerm(s, v, o.Type())
					if good {
						return x.nameLambda(s, t, o.Type()), true
					}
				}
				ok = false
				return n, true
			}
			if strings.HasPrefix(n, "v_") {
				ok = false
			}
			return "", false
		}
	}
	lookup = mk(st, extra)
	var special func(name, arg string) (string, bool)
	special = func(name, arg string) (string, bool) {
		switch name {
		case "old":
			if x.entry == nil { // a precondition or let: the state is the entry state
				return template(arg, lookup, special), true
			}
			return template(arg, func(n string) (string, bool) {
				if v, has := x.entryEnv[n]; has {
					return v, true
				}
				if v, has := x.entry.lets[n]; has {
					return v, true
				}
				if strings.HasPrefix(n, "$") {
					if v, has := x.entry.ghost[n]; has {
						return v, true
					}
				}
				return "", false
			}, special), true
		case "pre":
			if pre == nil {
				ok = false
				return "false", true
			}
			return template(arg, mk(pre, nil), special), true
		case "lit":
			return x.g.lit(strings.Trim(strings.TrimSpace(arg), `"`)), true
		case "named_err":
			return x.g.errTerm(strings.TrimSpace(arg)), true
		case "isnil":
			an := strings.TrimSpace(arg)
			if v, has := extra["$nil_"+an]; has {
				return v, true
			}
			if o, has := st.names[an]; has {
				if v, has := st.env[o]; has {
					if b, isB := v.(Box); isB {
						v = st.heap[b.Obj]
					}
					if t, isT := x.term(st, v, o.Type()); isT && isSlice(o.Type()) {
						return x.nilOf(st, t), true
					}
				}
			}
			ok = false
			return "false", true
		case "has":
			// has(name): true when the name is in scope (used to guard hints)
			if _, h := lookup(strings.TrimSpace(arg)); h && ok {
				return "true", true
			}
			ok = false
			return "true", true
		}
		return "", false
	}
	s := template(expr, lookup, special)
	return s, ok
}

// nameLambda names a term containing a lambda, which may not occur in a trigger.
func (x *Exec) nameLambda(st *State, t string, gt types.Type) string {
	if !strings.Contains(t, "|z_") || isDBType(gt) {
		return t
	}
	if n, ok := st.lets["lam:"+t]; ok {
		return n
	}
	n := x.sym(st, "lam", x.g.vtype(gt))
	st.fact(n + " == " + t)
	st.lets["lam:"+t] = n
	return n
}

func (g *Gen) errTerm(key string) string {
	if _, ok := g.errIDs[key]; !ok {
		g.errIDs[key] = len(g.errIDs) + 1
	}
	return "GoErr::Named(ge_" + mangle(key) + "())"
}

// specTerm converts a value to a term for use in a formula.
func (x *Exec) specTerm(st *State, v Val, t types.Type) (string, bool) {
	switch u := v.(type) {
	case Box:
		return x.specTerm(st, st.heap[u.Obj], t)
	case DB:
		return st.ghost["db:"+u.Slot], true
	case SliceLit:
		t, ok := x.term(st, u, u.T)
		return t.S, ok
	case Hash:
		t, ok := st.heap[u.Obj].(Term)
		return t.S, ok
	case Opaque:
		return u.S, u.S != ""
	case Clos, FuncRef, Tuple, Poison:
		return "", false
	case MapV:
		m, ok := st.heap[u.Obj].(MapLit)
		if ok {
			s, good := x.mapTerm(st, m, u.T)
			return s, good
		}
		return "", false
	}
	s, ok := x.toTerm(st, v, t)
	return s, ok
}

func (x *Exec) mapTerm(st *State, m MapLit, t types.Type) (string, bool) {
	mt := types.Unalias(t).Underlying().(*types.Map)
	s := m.Term
	if s == "" {
		s = "Map::<" + x.g.vtype(mt.Key()) + "," + x.g.vtype(mt.Elem()) + ">::empty()"
	}
	ents := m.Ents
	lits := true
	for _, e := range ents {
		lits = lits && reLit.FindString(e.K) == e.K && e.K != ""
	}
	if lits { // distinct literal keys: the order of insertion does not matter
		ents = append([]MapEnt(nil), ents...)
		sort.SliceStable(ents, func(i, j int) bool { return ents[i].K < ents[j].K })
	}
	for _, e := range ents {
		ev, ok := x.toTerm(st, e.V, mt.Elem())
		if !ok {
			return "", false
		}
		s += ".insert(" + e.K + ", " + ev + ")"
	}
	return s, true
}

// toTerm converts a value to a Verus term of the model type of t.
func (x *Exec) toTerm(st *State, v Val, t types.Type) (string, bool) {
	g := x.g
	switch u := v.(type) {
	case Term:
		// non-interface value stored into an interface: wrap opaquely
		if t != nil && isIface(t) && !isErrorType(t) && u.T != nil && !isIface(u.T) {
			return g.wrapIface(u.T, u.S), true
		}
		return u.S, true
	case NilV:
		if t == nil {
			t = u.T
		}
		switch types.Unalias(t).Underlying().(type) {
		case *types.Slice:
			return "Seq::<" + g.elemType(types.Unalias(t).Underlying().(*types.Slice).Elem()) + ">::empty()", true
		case *types.Map:
			if _, ok := refMap(t); ok {
				return "0", true
			}
			m := types.Unalias(t).Underlying().(*types.Map)
			return "Map::<" + g.vtype(m.Key()) + "," + g.vtype(m.Elem()) + ">::empty()", true
		}
		if isErrorType(t) {
			return "GoErr::Nil", true
		}
		vt := g.vtype(t)
		if vt == "int" {
			return "0", true
		}
		if strings.HasPrefix(vt, "Option<") {
			return "None::<" + vt[7:len(vt)-1] + ">", true
		}
		return "", false
	case Ptr:
		if t != nil && isIface(t) {
			if st.ghost["$spawn"] != "" {
				if s, ok := x.toTerm(st, u, nil); ok {
					return g.wrapIface(u.T, s), true
				}
			}
			return g.wrapIface(u.T, "arbitrary::<"+g.vtype(u.T)+">()"), true
		}
		inner, ok := x.readPath(st, u)
		if !ok {
			return "", false
		}
		pt, isP := types.Unalias(u.T).(*types.Pointer)
		if !isP {
			return "", false
		}
		s, ok := x.toTerm(st, inner, pt.Elem())
		if !ok {
			return "", false
		}
		return "Some(" + s + ")", true
	case Struct:
		st0 := types.Unalias(u.T).Underlying().(*types.Struct)
		var p []string
		for _, f := range structFields(st0) {
			s, ok := x.toTerm(st, u.F[f.Name()], f.Type())
			if !ok {
				s = "arbitrary::<" + g.vtype(f.Type()) + ">()"
			}
			p = append(p, fieldName(f.Name())+": "+s)
		}
		return g.vtype(u.T) + " { " + strings.Join(p, ", ") + " }", true
	case Box:
		return x.toTerm(st, st.heap[u.Obj], t)
	case SliceLit:
		tm, ok := x.litTerm(st, u).(Term)
		return tm.S, ok
	case MapV:
		if m, ok := st.heap[u.Obj].(MapLit); ok {
			s, ok := x.mapTerm(st, m, u.T)
			if ok && t != nil && isIface(t) {
				s = g.wrapIface(u.T, s)
			}
			return s, ok
		}
	case Clos, FuncRef:
		return "Some(arbitrary::<GAny>())", true
	case Opaque:
		if u.S != "" {
			if t != nil && isIface(t) {
				return g.wrapIface(u.T, u.S), true
			}
			return u.S, true
		}
		if t != nil && strings.HasPrefix(g.vtype(t), "Option<") {
			return "Some(arbitrary::<GAny>())", true
		}
		return "arbitrary::<GAny>()", true
	case DB:
		return "Some(arbitrary::<GAny>())", true
	}
	return "", false
}

// wrapIface models storing a concrete value in an interface.
func (g *Gen) wrapIface(t types.Type, s string) string {
	vt := g.vtype(t)
	n := "box_" + mangle(vt)
	g.uninterp[n] = fmt.Sprintf("pub uninterp spec fn %s(x: %s) -> Option<GAny>;", n, vt)
	return n + "(" + s + ")"
}

func (x *Exec) readPath(st *State, p Ptr) (Val, bool) {
	v, ok := st.heap[p.Obj]
	if !ok {
		return nil, false
	}
	for _, f := range p.Path {
		s, ok := v.(Struct)
		if !ok {
			return nil, false
		}
		v = s.F[f]
	}
	return v, true
}

func (x *Exec) writePath(st *State, p Ptr, nv Val) {
	st.heap[p.Obj] = setPath(st.heap[p.Obj], p.Path, nv)
}

func setPath(v Val, path []string, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := v.(Struct)
	n := Struct{T: s.T, F: make(map[string]Val, len(s.F))}
	for k, e := range s.F {
		n.F[k] = e
	}
	n.F[path[0]] = setPath(s.F[path[0]], path[1:], nv)
	return n
}

func (x *Exec) alloc(st *State, v Val) int {
	x.g.fresh++
	st.heap[x.g.fresh] = v
	return x.g.fresh
}

// expandStruct turns a struct-typed term into a concrete Struct value.
func (x *Exec) expandStruct(st *State, s string, t types.Type, owned bool) Val {
	su, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return Term{S: s, T: t}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && !x.g.inRepo(n) {
		return Opaque{Kind: namedKey(t), T: t}
	}
	r := Struct{T: t, F: map[string]Val{}}
	for _, f := range structFields(su) {
		fs := s + "." + fieldName(f.Name())
		r.F[f.Name()] = x.fieldVal(st, fs, f.Type(), owned)
	}
	return r
}

func (x *Exec) fieldVal(st *State, fs string, t types.Type, owned bool) Val {
	if x.g.isHeap(t) { // where the embedded object lives
		return Term{S: fs, T: t}
	}
	if _, ok := types.Unalias(t).Underlying().(*types.Struct); ok && owned {
		return x.expandStruct(st, fs, t, owned)
	}
	x.typeFacts(st, fs, t)
	tm := Term{S: fs, T: t}
	if owned && isSlice(t) {
		x.g.fam++
		tm.Fam = x.g.fam
	}
	if isSlice(t) {
		st.fact("is_len(" + fs + ".len() as int)")
	}
	return tm
}

func (x *Exec) bind(st *State, o types.Object, v Val) {
	if o == nil || o.Name() == "_" {
		return
	}
	st.names[o.Name()] = o
	if s, ok := v.(Struct); ok {
		st.env[o] = Box{x.alloc(st, s)}
		return
	}
	st.env[o] = v
}

func (x *Exec) assignVar(st *State, o types.Object, v Val) {
	if b, ok := st.env[o].(Box); ok {
		if _, isBox := v.(Box); isBox {
			v = st.heap[v.(Box).Obj]
		}
		st.heap[b.Obj] = v
		return
	}
	if b, ok := v.(Box); ok {
		v = st.heap[b.Obj]
	}
	if _, ok := st.env[o]; !ok {
		x.bind(st, o, v)
		return
	}
	st.env[o] = v
}

// branch splits on a Verus boolean.
func (x *Exec) branch(st *State, cond string, kt, kf func(*State)) {
	switch cond {
	case "true":
		kt(st)
		return
	case "false":
		kf(st)
		return
	}
	neg := notTerm(cond)
	if st.known[cond] {
		kt(st)
		return
	}
	if st.known[neg] {
		kf(st)
		return
	}
	s2 := st.clone()
	st.fact(cond)
	kt(st)
	s2.fact(neg)
	kf(s2)
}

func notTerm(c string) string {
	if c == "true" {
		return "false"
	}
	if c == "false" {
		return "true"
	}
	if strings.HasPrefix(c, "!(") && matchingClose(c, 1) == len(c)-1 {
		return c[2 : len(c)-1]
	}
	return "!(" + c + ")"
}

func matchingClose(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// ---------------------------------------------------------------- functions

// VerifyFunc generates the obligations of one function against its contract.
func (g *Gen) VerifyFunc(key string) {
	con := g.cs.Funcs[key]
	fo := g.prog.ByKey[key]
	if fo == nil {
		g.obligs = append(g.obligs, &Oblig{ID: key + "#missing.1", Func: key, Kind: "missing", Text: "the function under contract " + key + " no longer exists", Goal: "false"})
		return
	}
	unk := map[string]bool{}
	for try := 0; try < 4; try++ {
		mark := len(g.obligs)
		ids := map[string]int{}
		for k, v := range g.ids {
			ids[k] = v
		}
		x := &Exec{g: g, key: key, con: con, loopOrd: map[string]int{}, unknownFam: unk}
		x.run(fo)
		if !x.retry {
			return
		}
		g.obligs = g.obligs[:mark]
		g.ids = ids
	}
}

func (x *Exec) run(fo *types.Func) {
	g := x.g
	fd := g.prog.Funcs[fo]
	pkg := g.prog.FPkg[fo]
	con := x.con
	sig := fo.Type().(*types.Signature)
	x.sig = sig
	for _, u := range con.Uses {
		g.uses[u] = true
	}
	if fd.Body == nil {
		return
	}
	st := newState()
	x.numberLoops(fd.Body, pkg, x.key, map[string]bool{x.key: true})
	var objs []types.Object
	addP := func(id *ast.Ident, t types.Type) types.Object {
		if id == nil || id.Name == "_" {
			return types.NewParam(fd.Pos(), pkg.Types, "_", t)
		}
		return pkg.Info.Defs[id]
	}
	if fd.Recv != nil {
		var id *ast.Ident
		if len(fd.Recv.List[0].Names) > 0 {
			id = fd.Recv.List[0].Names[0]
		}
		objs = append(objs, addP(id, sig.Recv().Type()))
	}
	pi := 0
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			objs = append(objs, addP(nil, sig.Params().At(pi).Type()))
			pi++
		}
		for _, n := range f.Names {
			objs = append(objs, addP(n, sig.Params().At(pi).Type()))
			pi++
		}
	}
	x.params = objs
	if len(objs) != len(con.Params) {
		x.oblig(st, "signature", fmt.Sprintf("contract of %s names %d parameters, the function has %d", x.key, len(con.Params), len(objs)), fd.Pos(), "false")
		return
	}
	x.entryEnv = map[string]string{}
	g.initGhost(x, st)
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if r, ok := n.(*ast.RangeStmt); ok {
			if t := pkg.Info.TypeOf(r.X); t != nil {
				if ch, ok := types.Unalias(t).Underlying().(*types.Chan); ok {
					st.ghost["$recv"] = "Seq::<" + g.vtype(ch.Elem()) + ">::empty()"
				}
			}
		}
		return true
	})
	for i, o := range objs {
		if fs, ok := types.Unalias(o.Type()).Underlying().(*types.Signature); ok {
			gn := "$calls_" + con.Params[i]
			ct := callsType(g, fs)
			ghostTypes[gn] = ct
			n := x.sym(st, "calls", ct)
			st.fact(n + " == " + strings.Replace(ct, "Seq<", "Seq::<", 1) + "::empty()")
			st.ghost[gn] = n
		}
	}
	for i, o := range objs {
		pn := con.Params[i]
		v := x.paramVal(st, pn, o.Type(), con.Modifies[pn])
		x.bind(st, o, v)
		delete(st.names, o.Name())
		if s, ok := x.specTerm(st, v, o.Type()); ok {
			x.entryEnv[pn] = s
		}
	}
	// contract names: parameters by contract name denote current values in hints and invariants
	for i, o := range objs {
		st.names[con.Params[i]] = o
		if o.Name() != "_" {
			st.names[o.Name()] = o
		}
		if _, ok := st.env[o]; !ok {
			st.env[o] = Term{S: x.entryEnv[con.Params[i]], T: o.Type()}
		}
	}
	for _, gv := range con.Given {
		st.lets[gv[0]] = x.sym(st, gv[0], gv[1])
	}
	for _, l := range con.Lets {
		s, _ := x.spec(st, nil, l[1], nil)
		st.lets[l[0]] = paren(s)
	}
	for _, r := range con.Requires {
		s, _ := x.spec(st, nil, r.Expr, nil)
		st.fact(s)
	}
	for _, r := range con.Assume {
		s, _ := x.spec(st, nil, r.Expr, nil)
		st.fact(s)
		g.assumed["assume in contract of "+x.key+": "+r.Expr] = true
	}
	for _, h := range con.Hints {
		st.hints = append(st.hints, scopedHint{cl: h})
	}
	x.entry = st.clone()
	// reachability of the precondition
	cov := len(g.obligs)
	x.oblig(st, "cover", "precondition of "+x.key+" is satisfiable", fd.Pos(), "cover_false()")
	if len(g.obligs) > cov {
		g.obligs[cov].Cover = true
		g.obligs[cov].Hints = nil
		g.obligs[cov].Goal = "false"
	}
	c := &C{pkg: pkg, sig: sig, brk: map[string]func(*State){}, cont: map[string]func(*State){}, stack: x.key}
	x.setupResults(st, fd.Type, c, sig)
	st.defers = append(st.defers, nil)
	c.ret = func(s *State, vals []Val) {
		x.finishDefers(s, c, vals, func(s *State, vals []Val) {
			x.checkPost(s, vals, fd.Body.Rbrace)
		})
	}
	x.stmts(fd.Body.List, st, c, func(s *State) {
		c.ret(s, x.namedResults(s, c))
	})
}

func (x *Exec) setupResults(st *State, ft *ast.FuncType, c *C, sig *types.Signature) {
	if ft.Results == nil {
		return
	}
	for _, f := range ft.Results.List {
		for _, n := range f.Names {
			o := c.pkg.Info.Defs[n]
			if o == nil {
				o = types.NewVar(n.Pos(), c.pkg.Types, "_", sig.Results().At(len(c.res)).Type())
			}
			c.res = append(c.res, o)
			st.names[o.Name()] = o
			x.bind(st, o, x.g.zero(o.Type()))
			if _, ok := st.env[o]; !ok {
				st.env[o] = x.g.zero(o.Type())
			}
		}
	}
}

func (x *Exec) namedResults(st *State, c *C) []Val {
	var r []Val
	for _, o := range c.res {
		r = append(r, x.readVar(st, o))
	}
	return r
}

// finishDefers runs the deferred calls of the current frame, then k.
func (x *Exec) finishDefers(st *State, c *C, vals []Val, k func(*State, []Val)) {
	for i, o := range c.res {
		if i < len(vals) {
			x.assignVar(st, o, vals[i])
		}
	}
	top := len(st.defers) - 1
	ds := st.defers[top]
	st.defers = st.defers[:top]
	var run func(st *State, i int)
	run = func(st *State, i int) {
		if i < 0 {
			if len(c.res) > 0 {
				vals = x.namedResults(st, c)
			}
			k(st, vals)
			return
		}
		d := ds[i]
		x.applyCall(d.call, d.fv, d.args, st, &C{pkg: d.pkg, stack: c.stack}, func(st *State, _ Val) { run(st, i-1) })
	}
	run(st, len(ds)-1)
}

func (x *Exec) paramVal(st *State, name string, t types.Type, mod bool) Val {
	g := x.g
	if isDBType(t) {
		st.ghost["db:"+name] = x.sym(st, name, "Db")
		x.entryEnv[name] = st.ghost["db:"+name]
		return DB{Slot: name}
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok && mod && !g.heapTypes[namedKey(p.Elem())] {
		sv := x.sym(st, name, g.vtype(p.Elem()))
		return Ptr{Obj: x.alloc(st, x.expandStruct(st, sv, p.Elem(), true)), T: t}
	}
	v := x.havoc(st, name, t)
	if tm, ok := v.(Term); ok {
		if _, isS := types.Unalias(t).Underlying().(*types.Struct); isS {
			return x.expandStruct(st, tm.S, t, false)
		}
		if mod {
			x.g.fam++
			tm.Fam = x.g.fam
			return tm
		}
		if isSlice(t) && x.con != nil && x.con.Consumes[name] {
			x.g.fam++
			tm.Fam = x.g.fam
			return tm
		}
	}
	return v
}

func (x *Exec) checkPost(st *State, vals []Val, p token.Pos) {
	x.npaths++
	x.g.paths++
	con := x.con
	extra := map[string]string{}
	for i, rn := range con.Results {
		if i < len(vals) {
			rt := x.sig.Results().At(i).Type()
			v := vals[i]
			if con.Fresh[rn] {
				if t, ok := v.(Term); ok && isSlice(rt) && t.Fam == 0 && t.Nil != "true" {
					x.oblig(st, "frame", "result "+rn+" of "+x.key+" must be freshly allocated", p, "false")
				}
			}
			if s, ok := x.specTermAt(st, v, rt); ok {
				extra[rn] = s
				if t, ok := v.(Term); ok && isSlice(rt) {
					extra["$nil_"+rn] = x.nilOf(st, t)
				}
			}
		}
	}
	for i, o := range x.params {
		pn := con.Params[i]
		if con.Modifies[pn] {
			if s, ok := x.specTerm(st, st.env[o], o.Type()); ok && isDBType(o.Type()) {
				extra[pn] = s
			} else {
				// final content of the parameter object as bound at entry
				v := x.entry.env[o]
				if s, ok := x.specTerm(st, v, o.Type()); ok {
					extra[pn] = s
				}
			}
		} else if s, ok := x.entryEnv[pn]; ok {
			extra[pn] = s
		}
	}
	for _, k := range sortedKeys(ghostTypes) {
		if k != "$nread" && !con.Modifies[k] && x.entry.ghost[k] != "" && st.ghost[k] != x.entry.ghost[k] {
			x.oblig(st, "frame", k+" is changed, which the contract of "+x.key+" does not allow", p, "("+st.ghost[k]+" == "+x.entry.ghost[k]+")")
		}
	}
	for i, o := range x.params {
		pn := con.Params[i]
		if isDBType(o.Type()) && !con.Modifies[pn] && st.ghost["db:"+pn] != x.entry.ghost["db:"+pn] {
			x.oblig(st, "frame", "the store is changed, which the contract of "+x.key+" does not allow", p, "("+st.ghost["db:"+pn]+" == "+x.entry.ghost["db:"+pn]+")")
		}
	}
	for i, e := range con.Ensures {
		s, ok := x.spec(st, nil, e.Expr, extra)
		lab := e.Label
		if lab == "" {
			lab = fmt.Sprintf("post%d", i+1)
		}
		if !ok {
			x.oblig(st, "ensures["+lab+"]", "postcondition of "+x.key+" ("+e.Src+") cannot be stated here: "+e.Expr, p, "false")
			continue
		}
		st2 := st
		x.obligExtra(st2, "ensures["+lab+"]", "postcondition of "+x.key+" ("+e.Src+"): "+oneLine(e.Expr), p, s, extra)
	}
}

func (x *Exec) obligExtra(st *State, kind, text string, p token.Pos, goal string, extra map[string]string) {
	if goal == "true" || st.known[goal] {
		return
	}
	n := len(x.g.obligs)
	x.oblig(st, kind, text, p, goal)
	if len(x.g.obligs) > n {
		// hints mentioning results
		for _, h := range x.con.Hints {
			if s, ok := x.spec(st, nil, h.Expr, extra); ok {
				found := false
				for _, e := range x.g.obligs[n].Hints {
					if e == s {
						found = true
					}
				}
				if !found {
					x.g.obligs[n].Hints = append(x.g.obligs[n].Hints, s)
				}
			}
		}
	}
}

func oneLine(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

// ---------------------------------------------------------------- loops: numbering

// numberLoops assigns ordinals to the loops of a body, in source order, walking
// into the functions that will be inlined at their call sites.
func (x *Exec) numberLoops(body ast.Node, pkg *Pkg, stack string, seen map[string]bool) {
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			k := stack + "|" + x.g.prog.Fset.Position(n.Pos()).String()
			x.loopOrd[k] = len(x.loopOrd) + 1
		case *ast.CallExpr:
			// arguments come first in evaluation order; approximate with source order
			if fo := x.g.staticCallee(s, pkg); fo != nil {
				key := funcKey(fo)
				if con := x.conOf(key); con != nil && !con.Inline {
					return true
				}
				if fd := x.g.prog.Funcs[fo]; fd != nil && fd.Body != nil && !seen[key] && builtins[key] == nil {
					seen2 := map[string]bool{key: true}
					for k := range seen {
						seen2[k] = true
					}
					x.numberLoops(fd.Body, x.g.prog.FPkg[fo], stack+">"+key, seen2)
				}
			}
		}
		return true
	})
}

func (g *Gen) staticCallee(call *ast.CallExpr, pkg *Pkg) *types.Func {
	f := ast.Unparen(call.Fun)
	switch e := f.(type) {
	case *ast.Ident:
		if fo, ok := pkg.Info.Uses[e].(*types.Func); ok {
			return fo
		}
	case *ast.SelectorExpr:
		if sel, ok := pkg.Info.Selections[e]; ok {
			if sel.Kind() == types.MethodVal {
				if fo, ok := sel.Obj().(*types.Func); ok && !types.IsInterface(sel.Recv()) {
					return fo
				}
			}
			return nil
		}
		if fo, ok := pkg.Info.Uses[e.Sel].(*types.Func); ok {
			return fo
		}
	}
	return nil
}

// ---------------------------------------------------------------- statements

func (x *Exec) stmts(l []ast.Stmt, st *State, c *C, k func(*State)) {
	if x.aborted != "" {
		return
	}
	if len(l) == 0 {
		k(st)
		return
	}
	if len(x.g.obligs) > 12000 {
		x.aborted = "too many obligations"
		x.unsupported(st, l[0].Pos(), "path explosion: more than 12000 obligations")
		return
	}
	x.stmt(l[0], "", st, c, func(st *State) { x.stmts(l[1:], st, c, k) })
}

func (x *Exec) stmt(s ast.Stmt, label string, st *State, c *C, k func(*State)) {
	switch s := s.(type) {
	case nil:
		k(st)
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		x.stmts(s.List, st, c, k)
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
			x.stmt(s.Stmt, s.Label.Name, st, c, k)
		default:
			c2 := c.with("", nil, nil)
			c2.brk[s.Label.Name] = k
			x.stmt(s.Stmt, "", st, c2, k)
		}
	case *ast.ExprStmt:
		x.ev(s.X, st, c, func(st *State, _ Val) { k(st) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k(st)
			return
		}
		var specs func(st *State, i int)
		specs = func(st *State, i int) {
			if i == len(gd.Specs) {
				k(st)
				return
			}
			vs := gd.Specs[i].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if o := c.pkg.Info.Defs[n]; o != nil && n.Name != "_" {
						x.bind(st, o, x.zeroVar(o.Type()))
					}
				}
				specs(st, i+1)
				return
			}
			var lhs []ast.Expr
			for _, n := range vs.Names {
				lhs = append(lhs, n)
			}
			x.assign(lhs, vs.Values, token.DEFINE, st, c, s.Pos(), func(st *State) { specs(st, i+1) })
		}
		specs(st, 0)
	case *ast.AssignStmt:
		if s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
			x.assign(s.Lhs, s.Rhs, s.Tok, st, c, s.Pos(), k)
			return
		}
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		x.lv(s.Lhs[0], st, c, func(st *State, l lval) {
			x.ev(s.Rhs[0], st, c, func(st *State, r Val) {
				lt := c.pkg.Info.TypeOf(s.Lhs[0])
				v := x.binop(op, l.get(st), r, lt, st, s.Pos())
				l.set(st, v)
				k(st)
			})
		})
	case *ast.IncDecStmt:
		x.lv(s.X, st, c, func(st *State, l lval) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			lt := c.pkg.Info.TypeOf(s.X)
			l.set(st, x.binop(op, l.get(st), Term{S: "1", T: lt}, lt, st, s.Pos()))
			k(st)
		})
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			c.ret(st, x.namedResults(st, c))
			return
		}
		x.evList(s.Results, st, c, func(st *State, vs []Val) {
			if len(vs) == 1 {
				if t, ok := vs[0].(Tuple); ok {
					vs = t
				}
			}
			out := make([]Val, len(vs))
			for i := range vs {
				var rt types.Type
				if c.sig != nil && i < c.sig.Results().Len() {
					rt = c.sig.Results().At(i).Type()
				}
				out[i] = x.convertAssign(st, vs[i], rt)
			}
			c.ret(st, out)
		})
	case *ast.IfStmt:
		x.stmt(s.Init, "", st, c, func(st *State) {
			x.cond(s.Cond, st, c, func(st *State) {
				x.stmts(s.Body.List, st, c, k)
			}, func(st *State) {
				x.stmt(s.Else, "", st, c, k)
			})
		})
	case *ast.SwitchStmt:
		x.switchStmt(s, label, st, c, k)
	case *ast.TypeSwitchStmt:
		x.unsupported(st, s.Pos(), "type switch")
	case *ast.ForStmt:
		x.forStmt(s, label, st, c, k)
	case *ast.RangeStmt:
		x.rangeStmt(s, label, st, c, k)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		var f func(*State)
		switch s.Tok {
		case token.BREAK:
			f = c.brk[l]
		case token.CONTINUE:
			f = c.cont[l]
		}
		if f == nil {
			x.unsupported(st, s.Pos(), "branch statement "+s.Tok.String())
			return
		}
		f(st)
	case *ast.DeferStmt:
		x.evCallee(s.Call, st, c, func(st *State, fv Val) {
			x.evList(s.Call.Args, st, c, func(st *State, args []Val) {
				top := len(st.defers) - 1
				st.defers[top] = append(st.defers[top][:len(st.defers[top]):len(st.defers[top])], deferred{s.Call, c.pkg, fv, args})
				k(st)
			})
		})
	case *ast.SelectStmt:
		x.selectStmt(s, label, st, c, k)
	case *ast.SendStmt:
		x.ev(s.Chan, st, c, func(st *State, ch Val) {
			x.ev(s.Value, st, c, func(st *State, v Val) {
				x.sendHook(st, c, s, ch, v)
				k(st)
			})
		})
	case *ast.GoStmt:
		x.goHook(st, c, s, k)
	default:
		x.unsupported(st, s.Pos(), fmt.Sprintf("statement %T", s))
	}
}

func (x *Exec) zeroVar(t types.Type) Val {
	return x.g.zero(t)
}

func (x *Exec) switchStmt(s *ast.SwitchStmt, label string, st *State, c *C, k func(*State)) {
	x.stmt(s.Init, "", st, c, func(st *State) {
		run := func(st *State, tag Val) {
			c2 := c.with(label, k, nil)
			if f, ok := c.cont[""]; ok {
				c2.cont[""] = f
			}
			clauses := s.Body.List
			var def *ast.CaseClause
			defIdx := -1
			body := func(st *State, i int) {
				// fallthrough support
				var rec func(st *State, i int)
				rec = func(st *State, i int) {
					cc := clauses[i].(*ast.CaseClause)
					n := len(cc.Body)
					if n > 0 {
						if b, ok := cc.Body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
							x.stmts(cc.Body[:n-1], st, c2, func(st *State) { rec(st, i+1) })
							return
						}
					}
					x.stmts(cc.Body, st, c2, k)
				}
				rec(st, i)
			}
			for i, cl := range clauses {
				if cc := cl.(*ast.CaseClause); cc.List == nil {
					def, defIdx = cc, i
				}
			}
			var try func(st *State, i, j int)
			try = func(st *State, i, j int) {
				if i == len(clauses) {
					if def != nil {
						body(st, defIdx)
					} else {
						k(st)
					}
					return
				}
				cc := clauses[i].(*ast.CaseClause)
				if j >= len(cc.List) {
					try(st, i+1, 0)
					return
				}
				if s.Tag == nil {
					x.cond(cc.List[j], st, c, func(st *State) { body(st, i) }, func(st *State) { try(st, i, j+1) })
					return
				}
				x.ev(cc.List[j], st, c, func(st *State, v Val) {
					cond, ok := x.eqTerm(st, tag, v, c.pkg.Info.TypeOf(s.Tag), cc.List[j].Pos())
					if !ok {
						x.unsupported(st, cc.List[j].Pos(), "switch comparison")
						return
					}
					x.branch(st, cond, func(st *State) { body(st, i) }, func(st *State) { try(st, i, j+1) })
				})
			}
			try(st, 0, 0)
		}
		if s.Tag == nil {
			run(st, nil)
		} else {
			x.ev(s.Tag, st, c, run)
		}
	})
}

func (x *Exec) selectStmt(s *ast.SelectStmt, label string, st *State, c *C, k func(*State)) {
	c2 := c.with(label, k, nil)
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		st2 := st.clone()
		body := func(st *State) { x.stmts(cc.Body, st, c2, k) }
		x.stmt(cc.Comm, "", st2, c, body)
	}
}

func (x *Exec) assign(lhs, rhs []ast.Expr, tok token.Token, st *State, c *C, p token.Pos, k func(*State)) {
	if len(lhs) > 1 && len(rhs) == 1 {
		x.evMulti(rhs[0], len(lhs), st, c, func(st *State, vs []Val) {
			x.assignVals(lhs, vs, tok, st, c, p, k)
		})
		return
	}
	if tok == token.ASSIGN && len(lhs) == 1 {
		// evaluate target operands first, then the value
		x.ev(rhs[0], st, c, func(st *State, v Val) {
			x.assignVals(lhs, []Val{v}, tok, st, c, p, k)
		})
		return
	}
	x.evList(rhs, st, c, func(st *State, vs []Val) {
		x.assignVals(lhs, vs, tok, st, c, p, k)
	})
}

func (x *Exec) assignVals(lhs []ast.Expr, vs []Val, tok token.Token, st *State, c *C, p token.Pos, k func(*State)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(lhs) {
			k(st)
			return
		}
		if i >= len(vs) {
			x.unsupported(st, p, "assignment count")
			return
		}
		if id, ok := ast.Unparen(lhs[i]).(*ast.Ident); ok {
			if id.Name == "_" {
				rec(st, i+1)
				return
			}
			if o := c.pkg.Info.Defs[id]; o != nil {
				x.bind(st, o, x.copyVal(st, x.convertAssign(st, vs[i], o.Type())))
				rec(st, i+1)
				return
			}
		}
		x.lv(lhs[i], st, c, func(st *State, l lval) {
			if se, ok := ast.Unparen(lhs[i]).(*ast.SelectorExpr); ok && x.con != nil && x.con.Guarded[se.Sel.Name] {
				x.guardWrite(st, p)
			}
			l.set(st, x.copyVal(st, x.convertAssign(st, vs[i], c.pkg.Info.TypeOf(lhs[i]))))
			rec(st, i+1)
		})
	}
	rec(st, 0)
}

// copyVal gives value semantics to structs.
func (x *Exec) copyVal(st *State, v Val) Val {
	if b, ok := v.(Box); ok {
		return st.heap[b.Obj]
	}
	return v
}

// convertAssign adapts a value to the static type it is assigned to (nil, interfaces).
func (x *Exec) convertAssign(st *State, v Val, t types.Type) Val {
	if n, ok := v.(NilV); ok && t != nil {
		if _, isB := types.Unalias(n.T).(*types.Basic); isB || n.T == nil {
			switch u := types.Unalias(t).Underlying().(type) {
			case *types.Slice:
				x.g.fam++
				return Term{S: "Seq::<" + x.g.elemType(u.Elem()) + ">::empty()", T: t, Nil: "true", Fam: x.g.fam}
			}
			if isErrorType(t) {
				return Term{S: "GoErr::Nil", T: t}
			}
			return NilV{T: t}
		}
	}
	if tm, ok := v.(Term); ok && t != nil {
		if isIface(t) && !isErrorType(t) && tm.T != nil && !isIface(tm.T) {
			return Term{S: x.g.wrapIface(tm.T, tm.S), T: t}
		}
		if !isIface(t) {
			tm.T = t
			return tm
		}
	}
	return v
}

// ---------------------------------------------------------------- loops

type modset struct {
	vars  map[types.Object]bool
	roots map[types.Object]bool // pointer variables written through
	db    bool
	heap  bool
	ghost bool
	gset  map[string]bool // single ghosts modified
}

func (m *modset) addGhost(k string) {
	if m.gset == nil {
		m.gset = map[string]bool{}
	}
	m.gset[k] = true
}

// modified over-approximates what a loop body assigns.
func (x *Exec) modified(nodes []ast.Node, pkg *Pkg, m *modset, seen map[ast.Node]bool) {
	addLHS := func(e ast.Expr) {
		e = ast.Unparen(e)
		if id, ok := e.(*ast.Ident); ok {
			if o := pkg.Info.Uses[id]; o != nil {
				m.vars[o] = true
			}
			if o := pkg.Info.Defs[id]; o != nil {
				m.vars[o] = true
			}
			return
		}
		if x.heapTarget(e, pkg.Info, m) {
			return
		}
		// field or element of something
		for {
			switch u := e.(type) {
			case *ast.SelectorExpr:
				e = ast.Unparen(u.X)
				continue
			case *ast.IndexExpr:
				e = ast.Unparen(u.X)
				continue
			case *ast.SliceExpr:
				e = ast.Unparen(u.X)
				continue
			case *ast.StarExpr:
				e = ast.Unparen(u.X)
				continue
			}
			break
		}
		if id, ok := e.(*ast.Ident); ok {
			if o := pkg.Info.Uses[id]; o != nil {
				m.roots[o] = true
			}
		} else {
			m.heap = true
		}
	}
	for _, n := range nodes {
		if n == nil || seen[n] {
			continue
		}
		seen[n] = true
		ast.Inspect(n, func(n ast.Node) bool {
			x.refModified(n, pkg.Info, m)
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					addLHS(l)
				}
			case *ast.IncDecStmt:
				addLHS(s.X)
			case *ast.RangeStmt:
				if s.Key != nil {
					addLHS(s.Key)
				}
				if s.Value != nil {
					addLHS(s.Value)
				}
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					addLHS(s.X)
					e := ast.Unparen(s.X)
					if _, ok := e.(*ast.CompositeLit); !ok {
						// &local
						if id, ok := e.(*ast.Ident); ok {
							if o := pkg.Info.Uses[id]; o != nil {
								m.roots[o] = true
							}
						}
					}
				}
			case *ast.CompositeLit:
				if t := pkg.Info.TypeOf(s); t != nil {
					t = heapElem(t)
					if x.g.isHeap(t) {
						m.addGhost(x.g.cs.Heaps[namedKey(t)])
					} else if su, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
						for _, f := range structFields(su) {
							if x.g.isHeap(f.Type()) {
								m.addGhost(x.g.cs.Heaps[namedKey(f.Type())])
							}
						}
					}
				}
			case *ast.SendStmt:
				m.ghost = true
			case *ast.CallExpr:
				if id, ok := ast.Unparen(s.Fun).(*ast.Ident); ok {
					if b, ok := pkg.Info.Uses[id].(*types.Builtin); ok {
						if (b.Name() == "copy" || b.Name() == "delete") && len(s.Args) > 0 {
							addLHS(s.Args[0])
							if sl, ok := ast.Unparen(s.Args[0]).(*ast.SliceExpr); ok {
								addLHS(sl.X)
							}
						}
						return true
					}
					if o := pkg.Info.Uses[id]; o != nil {
						if _, isV := o.(*types.Var); isV {
							m.ghost = true
							m.heap = true
						}
					}
				}
				if nt, ok := types.Unalias(pkg.Info.TypeOf(s.Fun)).(*types.Named); ok && x.con != nil && x.con.Records[namedKey(nt)] != "" {
					m.addGhost(x.con.Records[namedKey(nt)])
				}
				// a store passed as a reader cannot be written through
				sig, _ := pkg.Info.TypeOf(s.Fun).(*types.Signature)
				for i, a := range s.Args {
					if t := pkg.Info.TypeOf(a); t != nil && isDBType(t) {
						if sig != nil && i < sig.Params().Len() && !sig.Variadic() && isReaderType(sig.Params().At(i).Type()) {
							continue
						}
						m.db = true
					}
				}
				if se, ok := ast.Unparen(s.Fun).(*ast.SelectorExpr); ok {
					if t := pkg.Info.TypeOf(se.X); t != nil {
						if isDBType(t) && se.Sel.Name != "Get" {
							m.db = true
						}
						if sel, ok := pkg.Info.Selections[se]; ok && sel.Kind() == types.MethodVal {
							keep, contracted := false, false
							if fo := x.g.staticCallee(s, pkg); fo != nil {
								con := x.conOf(funcKey(fo))
								if con != nil && !con.Inline {
									contracted = true
									keep = len(con.Params) > 0 && !con.Modifies[con.Params[0]] && !con.Consumes[con.Params[0]]
								}
							}
							if !keep {
								addLHS(se.X) // a method may change its receiver
							}
							if isDBType(t) {
								m.addGhost("$fault")
							} else if !contracted {
								m.ghost = true
							}
						}
					}
				}
				if fo := x.g.staticCallee(s, pkg); fo != nil {
					key := funcKey(fo)
					con := x.conOf(key)
					if con != nil && !con.Inline {
						for k := range con.Modifies {
							if strings.HasPrefix(k, "$") {
								m.addGhost(k)
							}
						}
						i := 0
						if fo.Type().(*types.Signature).Recv() != nil {
							i = 1
						}
						for j, a := range s.Args {
							if i+j < len(con.Params) && (con.Modifies[con.Params[i+j]] || con.Consumes[con.Params[i+j]]) {
								addLHS(a)
							}
						}
					} else if fd := x.g.prog.Funcs[fo]; fd != nil && fd.Body != nil && builtins[key] == nil {
						var m2 = modset{vars: map[types.Object]bool{}, roots: map[types.Object]bool{}}
						x.modified([]ast.Node{fd.Body}, x.g.prog.FPkg[fo], &m2, seen)
						if len(m2.roots) > 0 || m2.heap {
							m.heap = m.heap || m2.heap
							for _, a := range s.Args {
								addLHS(a)
							}
						}
						m.db = m.db || m2.db
						m.ghost = m.ghost || m2.ghost
						for k := range m2.gset {
							m.addGhost(k)
						}
					}
				}
			}
			return true
		})
	}
}

// havocLoop havocs what the loop may modify.
func (x *Exec) havocLoop(st *State, m *modset, key string) {
	var objs []types.Object
	for o := range m.vars {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		v, ok := st.env[o]
		if !ok {
			continue
		}
		if b, ok := v.(Box); ok {
			st.heap[b.Obj] = x.havocVal(st, o.Name(), st.heap[b.Obj], o.Type())
			continue
		}
		nv := x.havocVal(st, o.Name(), v, o.Type())
		if t, ok := nv.(Term); ok {
			if ot, ok := v.(Term); ok {
				t.Fam = ot.Fam
				if x.unknownFam[key+"/"+o.Name()] {
					t.Fam = 0
				}
				nv = t
			}
		}
		st.env[o] = nv
	}
	objs = nil
	for o := range m.roots {
		if !m.vars[o] {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		v, ok := st.env[o]
		if !ok {
			continue
		}
		switch u := v.(type) {
		case Ptr:
			if con, ok := st.heap[u.Obj]; ok {
				st.heap[u.Obj] = x.havocVal(st, o.Name(), con, nil)
			}
		case Box:
			st.heap[u.Obj] = x.havocVal(st, o.Name(), st.heap[u.Obj], o.Type())
		case MapV:
			if ml, ok := st.heap[u.Obj].(MapLit); ok {
				if !ml.Nil || len(ml.Ents) > 0 {
					st.heap[u.Obj] = MapLit{Term: x.sym(st, o.Name(), x.g.vtype(u.T))}
				}
			}
		case Hash:
			st.heap[u.Obj] = Term{S: x.sym(st, "h", "Seq<u8>"), T: types.NewSlice(types.Typ[types.Uint8])}
		case Term:
			nv := x.havocVal(st, o.Name(), v, o.Type())
			if t, ok := nv.(Term); ok {
				t.Fam = u.Fam
				t.Nil = u.Nil
				nv = t
			}
			st.env[o] = nv
		}
	}
	if m.db {
		for _, k := range sortedKeys(st.ghost) {
			if strings.HasPrefix(k, "db:") {
				st.ghost[k] = x.sym(st, "db", "Db")
			}
		}
	}
	if m.heap {
		var ids []int
		for id := range st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if _, ok := st.heap[id].(Struct); ok {
				st.heap[id] = x.havocVal(st, "obj", st.heap[id], nil)
			}
		}
	}
	if m.db {
		m.addGhost("$fault")
	}
	if m.ghost || m.gset["$ev"] {
		// a transaction in the loop is not the first one
		st.ghost["$nread1"] = "true"
	}
	if m.ghost || len(m.gset) > 0 {
		for _, k := range sortedKeys(st.ghost) {
			if k == "$rdb" || (!m.ghost && !m.gset[k]) {
				continue
			}
			if strings.HasPrefix(k, "$") && ghostTypes[ghostBase(k)] != "" && !ghostConst[ghostBase(k)] {
				st.ghost[k] = x.sym(st, k, ghostTypes[ghostBase(k)])
			}
		}
	}
}

func (x *Exec) havocVal(st *State, name string, v Val, t types.Type) Val {
	switch u := v.(type) {
	case Term:
		if x.g.isHeap(u.T) { // an embedded object stays where it is
			return u
		}
		if t == nil {
			t = u.T
		}
		nv := x.havoc(st, name, t)
		if nt, ok := nv.(Term); ok && isSlice(t) {
			nt.Fam = u.Fam
			return nt
		}
		return nv
	case Struct:
		r := Struct{T: u.T, F: map[string]Val{}}
		for _, k := range sortedKeys(u.F) {
			r.F[k] = x.havocVal(st, name+"_"+k, u.F[k], nil)
		}
		return r
	case NilV:
		if t == nil {
			t = u.T
		}
		return x.havoc(st, name, t)
	case Ptr:
		if t == nil {
			t = u.T
		}
		return x.havoc(st, name, t)
	case MapLit:
		return u
	}
	return v
}

func (x *Exec) loopKey(c *C, p token.Pos) string {
	return c.stack + "|" + x.g.prog.Fset.Position(p).String()
}

func (x *Exec) loopSpec(c *C, p token.Pos) *LoopSpec {
	n, ok := x.loopOrd[x.loopKey(c, p)]
	if !ok {
		return nil
	}
	return x.con.Loops[n]
}

// matchVars binds specification variable names that are not in scope to loop
// variables of the declared type, in order (tolerates renaming).
func (x *Exec) matchVars(st *State, ls *LoopSpec, m *modset) {
	if ls == nil {
		return
	}
	used := map[types.Object]bool{}
	var missing [][2]string
	for _, v := range ls.Vars {
		if o, ok := st.names[v[0]]; ok {
			if _, has := st.env[o]; has && typeMatches(o.Type(), v[1]) {
				used[o] = true
				continue
			}
		}
		missing = append(missing, v)
	}
	if len(missing) == 0 {
		return
	}
	var cands []types.Object
	for o := range m.vars {
		if _, ok := st.env[o]; ok && !used[o] {
			cands = append(cands, o)
		}
	}
	for o := range m.roots {
		if _, ok := st.env[o]; ok && !used[o] && !m.vars[o] {
			cands = append(cands, o)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Pos() < cands[j].Pos() })
	for _, v := range missing {
		for _, o := range cands {
			if !used[o] && typeMatches(o.Type(), v[1]) {
				used[o] = true
				st.names[v[0]] = o
				break
			}
		}
	}
}

func typeMatches(t types.Type, s string) bool {
	ts := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return ts == s || strings.TrimPrefix(ts, "verifiable.") == s
}

func (x *Exec) checkInv(st *State, pre *State, ls *LoopSpec, n int, kind string, p token.Pos) {
	if ls == nil {
		return
	}
	if kind == "entry" {
		saved := st.hints
		st.hints = st.hints[:len(st.hints):len(st.hints)]
		self := st.clone()
		for _, h := range ls.Hints {
			st.hints = append(st.hints, scopedHint{cl: h, pre: self})
		}
		defer func() { st.hints = saved }()
	}
	for i, inv := range ls.Inv {
		s, ok := x.spec(st, pre, inv.Expr, nil)
		lab := inv.Label
		if lab == "" {
			lab = fmt.Sprint(i + 1)
		}
		if !ok {
			s = "false"
		}
		x.oblig(st, fmt.Sprintf("loop%d.inv[%s].%s", n, lab, kind), fmt.Sprintf("invariant of loop %d of %s (%s), %s: %s", n, x.key, inv.Src, kind, oneLine(inv.Expr)), p, s)
	}
}

func (x *Exec) assumeInv(st *State, ls *LoopSpec) {
	if ls == nil {
		return
	}
	for _, inv := range ls.Inv {
		s, ok := x.spec(st, nil, inv.Expr, nil)
		if ok {
			st.fact(s)
		}
	}
}

func (x *Exec) forStmt(s *ast.ForStmt, label string, st *State, c *C, k func(*State)) {
	ls := x.loopSpec(c, s.Pos())
	n := x.loopOrd[x.loopKey(c, s.Pos())]
	x.stmt(s.Init, "", st, c, func(st *State) {
		if ls == nil {
			// try concrete unrolling
			if x.unroll(s, label, st.clone(), c, nil, 0) {
				x.unroll(s, label, st, c, k, 0)
				return
			}
			x.oblig(st, fmt.Sprintf("loop%d.noinv", n), fmt.Sprintf("loop at %s has no invariant in the contract of %s: termination is not shown", x.pos(s.Pos()), x.key), s.Pos(), x.noDecreases(s))
		}
		m := &modset{vars: map[types.Object]bool{}, roots: map[types.Object]bool{}}
		nodes := []ast.Node{s.Body}
		if s.Cond != nil {
			nodes = append(nodes, s.Cond)
		}
		if s.Post != nil {
			nodes = append(nodes, s.Post)
		}
		x.modified(nodes, c.pkg, m, map[ast.Node]bool{})
		x.matchVars(st, ls, m)
		// the loop's own counter is $i
		if as, ok := s.Init.(*ast.AssignStmt); ok && ls != nil {
			for _, l := range as.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					if o := c.pkg.Info.Defs[id]; o != nil && isInt(o.Type()) {
						st.names["$idx"] = o
						break
					}
				}
			}
		}
		x.loopLets(st, ls)
		setIdx := func(st *State) {
			if o, ok := st.names["$idx"]; ok {
				if s, ok := x.specTerm(st, st.env[o], o.Type()); ok {
					st.ghost["$i"] = s
					st.ghost[fmt.Sprintf("$i%d", n)] = s
				}
			}
		}
		setIdx(st)
		x.checkInv(st, nil, ls, n, "entry", s.Pos())
		outerPre, outerHints := st.pre, len(st.hints)
		famBefore := x.famSnapshot(st, m)
		x.havocLoop(st, m, x.loopKey(c, s.Pos()))
		setIdx(st)
		x.assumeInv(st, ls)
		head := st.clone()
		st.pre = head
		if ls != nil {
			for _, h := range ls.Hints {
				st.hints = append(st.hints, scopedHint{cl: h, pre: head})
			}
		}
		exit := func(st *State) {
			st.pre = outerPre
			_ = outerHints
			k(st)
		}
		end := func(st *State) {
			x.stmt(s.Post, "", st, c, func(st *State) {
				setIdx(st)
				x.famCheck(st, m, famBefore, x.loopKey(c, s.Pos()))
				x.checkInv(st, head, ls, n, "preserved", s.Pos())
				x.checkDec(st, head, ls, n, s.Pos())
			})
		}
		c2 := c.with(label, exit, end)
		body := func(st *State) {
			x.stmts(s.Body.List, st, c2, end)
		}
		if s.Cond == nil {
			body(st)
			return
		}
		x.cond(s.Cond, st, c2, body, exit)
	})
}

func (x *Exec) loopLets(st *State, ls *LoopSpec) {
	if ls == nil {
		return
	}
	for _, l := range ls.Lets {
		if s, ok := x.spec(st, nil, l[1], nil); ok {
			st.lets[l[0]] = paren(s)
		}
	}
}

func (x *Exec) noDecreases(s *ast.ForStmt) string { return "false" }

func (x *Exec) checkDec(st, head *State, ls *LoopSpec, n int, p token.Pos) {
	if ls == nil || ls.Dec == "" || ls.Dec == "*" {
		return
	}
	a, ok1 := x.spec(st, nil, ls.Dec, nil)
	b, ok2 := x.spec(head, nil, ls.Dec, nil)
	goal := "false"
	if ok1 && ok2 {
		goal = "0 <= (" + b + ") && (" + a + ") < (" + b + ")"
	}
	x.oblig(st, fmt.Sprintf("loop%d.decreases", n), fmt.Sprintf("loop %d of %s terminates: %s decreases", n, x.key, ls.Dec), p, goal)
}

func (x *Exec) famSnapshot(st *State, m *modset) map[types.Object]int {
	r := map[types.Object]int{}
	for o := range m.vars {
		if t, ok := st.env[o].(Term); ok && isSlice(o.Type()) {
			r[o] = t.Fam
		}
	}
	return r
}

func (x *Exec) famCheck(st *State, m *modset, before map[types.Object]int, key string) {
	for o, f := range before {
		if t, ok := st.env[o].(Term); ok && t.Fam != f && f != 0 {
			kk := key + "/" + o.Name()
			if !x.unknownFam[kk] {
				x.unknownFam[kk] = true
				x.retry = true
			}
		}
	}
}

// unroll executes a loop whose condition is decided concretely at every
// iteration; with k == nil it only tests whether that is possible.
func (x *Exec) unroll(s *ast.ForStmt, label string, st *State, c *C, k func(*State), n int) bool {
	if s.Cond == nil || n > 80 {
		return false
	}
	if k == nil {
		// dry run: only literal counters can be decided; execute cond and post symbolically
		saved := x.g.obligs
		savedFresh := x.g.fresh
		ids := map[string]int{}
		for kk, v := range x.g.ids {
			ids[kk] = v
		}
		ok := false
		cur := st
		// the body must not assign the variables of the condition
		m := &modset{vars: map[types.Object]bool{}, roots: map[types.Object]bool{}}
		x.modified([]ast.Node{s.Body}, c.pkg, m, map[ast.Node]bool{})
		bad := false
		ast.Inspect(s.Cond, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := c.pkg.Info.Uses[id]; o != nil && (m.vars[o]) {
					bad = true
				}
			}
			return true
		})
		if !bad {
			for i := 0; i <= 80; i++ {
				res := ""
				var next *State
				x.ev(s.Cond, cur, c, func(st *State, v Val) {
					if t, isT := v.(Term); isT {
						res = t.S
					}
					next = st
				})
				if res == "false" {
					ok = true
					break
				}
				if res != "true" || next == nil {
					break
				}
				var after *State
				x.stmt(s.Post, "", next, c, func(st *State) { after = st })
				if after == nil {
					break
				}
				cur = after
			}
		}
		x.g.obligs = saved
		x.g.ids = ids
		_ = savedFresh
		return ok
	}
	x.ev(s.Cond, st, c, func(st *State, v Val) {
		t, _ := v.(Term)
		if t.S == "false" {
			k(st)
			return
		}
		next := func(st *State) {
			x.stmt(s.Post, "", st, c, func(st *State) { x.unroll(s, label, st, c, k, n+1) })
		}
		c2 := c.with(label, k, next)
		x.stmts(s.Body.List, st, c2, next)
	})
	return true
}

func (x *Exec) rangeStmt(s *ast.RangeStmt, label string, st *State, c *C, k func(*State)) {
	ls := x.loopSpec(c, s.Pos())
	n := x.loopOrd[x.loopKey(c, s.Pos())]
	rt := c.pkg.Info.TypeOf(s.X)
	x.ev(s.X, st, c, func(st *State, rv Val) {
		if b, ok := rv.(Box); ok {
			rv = st.heap[b.Obj]
		}
		bindKV := func(st *State, kv, vv Val) {
			set := func(e ast.Expr, v Val) {
				if e == nil || v == nil {
					return
				}
				id, ok := e.(*ast.Ident)
				if ok && id.Name == "_" {
					return
				}
				if ok {
					if o := c.pkg.Info.Defs[id]; o != nil {
						x.bind(st, o, v)
						return
					}
					if o := c.pkg.Info.Uses[id]; o != nil {
						x.assignVar(st, o, v)
						return
					}
				}
				x.unsupported(st, e.Pos(), "range target")
			}
			set(s.Key, kv)
			set(s.Value, vv)
		}
		// literal slices with concrete elements
		if lit, ok := rv.(SliceLit); ok && ls == nil {
			var it func(st *State, i int)
			it = func(st *State, i int) {
				if i == len(lit.E) {
					k(st)
					return
				}
				next := func(st *State) { it(st, i+1) }
				bindKV(st, Term{S: fmt.Sprint(i), T: types.Typ[types.Int]}, lit.E[i])
				x.stmts(s.Body.List, st, c.with(label, k, next), next)
			}
			it(st, 0)
			return
		}
		if lit, ok := rv.(SliceLit); ok {
			rv = x.litTerm(st, lit)
		}
		var lenS string
		kind := "slice"
		var elemT types.Type
		var seq Term
		switch u := types.Unalias(rt).Underlying().(type) {
		case *types.Slice:
			elemT = u.Elem()
		case *types.Array:
			elemT = u.Elem()
			if u.Len() <= 4 && u.Len() > 0 {
				if t, ok := rv.(Term); ok {
					var it func(st *State, i int)
					it = func(st *State, i int) {
						if i == int(u.Len()) {
							k(st)
							return
						}
						next := func(st *State) { it(st, i+1) }
						bindKV(st, Term{S: fmt.Sprint(i), T: types.Typ[types.Int]}, x.elem(st, Term{S: fmt.Sprintf("%s.%d", t.S, i)}, u.Elem()))
						x.stmts(s.Body.List, st, c.with(label, k, next), next)
					}
					it(st, 0)
					return
				}
			}
		case *types.Chan:
			kind = "chan"
			elemT = u.Elem()
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				kind = "int"
			}
		case *types.Map:
			kind = "map"
			elemT = u.Elem()
		default:
			x.unsupported(st, s.Pos(), "range over "+rt.String())
			return
		}
		if kind == "slice" {
			t, ok := rv.(Term)
			if !ok {
				if nv, isN := rv.(NilV); isN {
					t = x.g.zero(nv.T).(Term)
				} else {
					x.unsupported(st, s.Pos(), "range value")
					return
				}
			}
			seq = x.short(st, t)
			lenS = seq.S + ".len() as int"
			st.fact("is_len(" + lenS + ")")
		}
		if kind == "int" {
			t, ok := rv.(Term)
			if !ok {
				x.unsupported(st, s.Pos(), "range value")
				return
			}
			seq = t
			lenS = t.S
			if ls == nil {
				var cnt int
				if _, err := fmt.Sscanf(t.S, "%d", &cnt); err == nil && fmt.Sprint(cnt) == t.S && cnt <= 80 {
					var it func(st *State, i int)
					it = func(st *State, i int) {
						if i >= cnt {
							k(st)
							return
						}
						next := func(st *State) { it(st, i+1) }
						bindKV(st, Term{S: fmt.Sprint(i), T: c.pkg.Info.TypeOf(s.X)}, nil)
						x.stmts(s.Body.List, st, c.with(label, k, next), next)
					}
					it(st, 0)
					return
				}
			}
		}
		m := &modset{vars: map[types.Object]bool{}, roots: map[types.Object]bool{}}
		x.modified([]ast.Node{s.Body}, c.pkg, m, map[ast.Node]bool{})
		for _, e := range []ast.Expr{s.Key, s.Value} {
			if id, ok := e.(*ast.Ident); ok && id != nil {
				if o := c.pkg.Info.Uses[id]; o != nil {
					m.vars[o] = true
				}
			}
		}
		x.matchVars(st, ls, m)
		oi, hadI := st.ghost["$i"]
		os, hadS := st.ghost["$s"]
		or, hadR := st.ghost["$recv"]
		if kind == "slice" {
			st.ghost["$s"] = seq.S
		}
		st.ghost["$i"] = "0"
		if kind == "chan" {
			st.ghost["$recv"] = "Seq::<" + x.g.vtype(elemT) + ">::empty()"
		}
		x.loopLets(st, ls)
		x.checkInv(st, nil, ls, n, "entry", s.Pos())
		outerPre := st.pre
		famBefore := x.famSnapshot(st, m)
		x.havocLoop(st, m, x.loopKey(c, s.Pos()))
		i := x.sym(st, "i", "int")
		st.ghost["$i"] = i
		st.ghost[fmt.Sprintf("$i%d", n)] = i
		st.fact("0 <= " + i)
		if kind == "slice" || kind == "int" {
			if kind == "int" {
				st.fact("(" + lenS + " >= 0 ==> " + i + " <= " + lenS + ")")
			} else {
				st.fact(i + " <= " + lenS)
			}
		}
		if kind == "chan" {
			st.ghost["$recv"] = x.sym(st, "recv", "Seq<"+x.g.vtype(elemT)+">")
			st.fact(st.ghost["$recv"] + ".len() == " + i)
			st.fact(i + " < 0x4000_0000_0000_0000")
			x.g.assumed["a channel delivers fewer than 2^62 values"] = true
		}
		x.assumeInv(st, ls)
		head := st.clone()
		st.pre = head
		if ls != nil {
			for _, h := range ls.Hints {
				st.hints = append(st.hints, scopedHint{cl: h, pre: head})
			}
		}
		restore := func(st *State) {
			st.pre = outerPre
		}
		_ = hadI
		_ = oi
		_ = hadS
		_ = os
		_ = hadR
		_ = or
		exit := func(st *State) {
			restore(st)
			k(st)
		}
		end := func(st *State) {
			st.ghost["$i"] = "(" + i + " + 1)"
			if kind == "chan" {
				// $recv already extended
			}
			if kind == "slice" {
				st.ghost["$s"] = seq.S
			}
			x.famCheck(st, m, famBefore, x.loopKey(c, s.Pos()))
			x.checkInv(st, head, ls, n, "preserved", s.Pos())
			if ls != nil && ls.Dec != "" {
				x.checkDec(st, head, ls, n, s.Pos())
			}
		}
		c2 := c.with(label, exit, end)
		enter := func(st *State) {
			switch kind {
			case "slice":
				bindKV(st, Term{S: i, T: types.Typ[types.Int]}, x.elem(st, Term{S: seq.S + "[" + i + "]"}, elemT))
			case "int":
				bindKV(st, Term{S: i, T: rt}, nil)
			case "chan":
				v := x.havoc(st, "rx", elemT)
				ts, _ := x.toTerm(st, v, elemT)
				st.ghost["$recv"] = st.ghost["$recv"] + ".push(" + ts + ")"
				bindKV(st, v, nil)
			case "map":
				mt := types.Unalias(rt).Underlying().(*types.Map)
				bindKV(st, x.havoc(st, "k", mt.Key()), x.havoc(st, "v", mt.Elem()))
			}
			x.stmts(s.Body.List, st, c2, end)
		}
		switch kind {
		case "slice", "int":
			x.branch(st, i+" < "+lenS, enter, exit)
		default:
			s2 := st.clone()
			enter(st)
			exit(s2)
		}
	})
}

// paren wraps an expression that another operator could take apart.
func paren(s string) string {
	if strings.HasPrefix(s, "if ") || strings.ContainsAny(s, "=<>&|+-*/%") {
		return "(" + s + ")"
	}
	return s
}
