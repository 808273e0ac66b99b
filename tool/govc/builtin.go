package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type builtinFn func(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val))
type rawFn func(x *Exec, call *ast.CallExpr, f FuncRef, st *State, c *C, k func(*State, Val))

var builtins map[string]builtinFn
var rawBuiltins map[string]rawFn

var tBytes = types.NewSlice(types.Typ[types.Uint8])
var tBool = types.Typ[types.Bool]
var tErr = types.Universe.Lookup("error").Type()

func (x *Exec) fresh(t Term) Term {
	x.g.fam++
	t.Fam = x.g.fam
	t.Nil = "false"
	return t
}

func (x *Exec) errSym(st *State, base string) Term {
	return Term{S: x.sym(st, base, "GoErr"), T: tErr}
}

func init() {
	builtins = map[string]builtinFn{
		"bytes.Equal":                                  biBytesEqual,
		"crypto/sha256.New":                            biShaNew,
		"math/bits.OnesCount64":                        biPopcount,
		"math/bits.OnesCount":                          biPopcount,
		"crypto/sha256.Sum256":                         biSha256,
		"google.golang.org/grpc/status.Errorf":         biStatusErr,
		"google.golang.org/grpc/status.Error":          biStatusErr,
		"google.golang.org/grpc/status.FromError":      biStatusFrom,
		"errors.New":                                   biErrNew,
		"fmt.Errorf":                                   biErrNew,
		"errors.Is":                                    biErrIs,
		"encoding/json.Marshal":                        biMarshal("json"),
		"encoding/json.Unmarshal":                      biUnmarshal("json"),
		"google.golang.org/protobuf/proto.Marshal":     biMarshal("pb"),
		"google.golang.org/protobuf/proto.Unmarshal":   biUnmarshal("pb"),
		"verifiable.KeyReader.Get":                     biKVGet,
		"verifiable.KeyWriter.Set":                     biKVSet,
		"verifiable.StorageReader.ExecuteReadOnly":     biExecRead,
		"verifiable.StorageWriter.ExecuteUpdate":       biExecUpdate,
		"verifiable.AuthorizationOracle.VerifyAllowed": biVerifyAllowed,
		"verifiable.MutatorService.QueueMutation":      biQueue,
		"log.Fatal":                                    biFatal,
		"log.Fatalf":                                   biFatal,
		"log.Fatalln":                                  biFatal,
		"os.Exit":                                      biFatal,
		"log.Printf":                                   biNop,
		"log.Println":                                  biNop,
		"log.Print":                                    biNop,
		"fmt.Printf":                                   biHavocNoArgs,
		"fmt.Println":                                  biHavocNoArgs,
		"fmt.Sprintf":                                  biSprintf,
		"github.com/jackc/pgx/v5.Row.Scan":             biRowScan,
		"sync.Mutex.Lock":                              biLock("Free", "Excl"),
		"sync.Mutex.Unlock":                            biLock("Excl", "Free"),
		"sync.RWMutex.Lock":                            biLock("Free", "Excl"),
		"sync.RWMutex.Unlock":                          biLock("Excl", "Free"),
		"sync.RWMutex.RLock":                           biLock("Free", "Shared"),
		"sync.RWMutex.RUnlock":                         biLock("Shared", "Free"),
		"reflect.DeepEqual":                            biDeepEqual,
		"path.Match":                                   biGlob,
		"encoding/hex.EncodeToString":                  biHex,
		"strings.Join":                                 biTotal("str_join"),
		"path/filepath.Join":                           biTotal("path_join"),
		"github.com/continusec/objecthash.ObjectHash":  biPure("oh_plain", true),
		"github.com/continusec/objecthash.ObjectHashWithStdRedaction": biPure("oh_std", true),
		"github.com/continusec/objecthash.CommonJSONHash":             biPure("oh_json", true),
		"github.com/continusec/objecthash.UnredactableWithStdPrefix":  biPure("oh_unred", false),
		"github.com/continusec/objecthash.Filtered":                   biPure("oh_filtered", false),
	}
	rawBuiltins = map[string]rawFn{
		"encoding/binary.bigEndian.PutUint64": rawPutUint64,
	}
}

func biNop(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	k(st, Tuple{})
}

func biHavocNoArgs(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	k(st, x.resultHavoc(st, f.F.Name(), f.F.Type().(*types.Signature)))
}

func biFatal(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	if x.con != nil && len(x.con.Exits) > 0 {
		for i, e := range x.con.Exits {
			lab := e.Label
			if lab == "" {
				lab = fmt.Sprintf("exit%d", i+1)
			}
			s, ok := x.spec(st, nil, e.Expr, nil)
			if !ok {
				s = "false"
			}
			x.oblig(st, "exits["+lab+"]", "what holds when "+x.key+" ends the process ("+e.Src+"): "+oneLine(e.Expr), call.Pos(), s)
		}
		return
	}
	x.oblig(st, "fatal", "the process is never ended by "+f.F.Name(), call.Pos(), "false")
}

func biBytesEqual(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	a, ok1 := x.term(st, args[0], tBytes)
	b, ok2 := x.term(st, args[1], tBytes)
	if !ok1 || !ok2 {
		x.unsupported(st, call.Pos(), "bytes.Equal operands")
		return
	}
	if a.S == b.S {
		k(st, Term{S: "true", T: tBool})
		return
	}
	k(st, Term{S: "(" + a.S + " =~= " + b.S + ")", T: tBool})
}

func biPopcount(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	a, ok := x.term(st, args[0], types.Typ[types.Uint64])
	if !ok {
		x.unsupported(st, call.Pos(), "OnesCount operand")
		return
	}
	k(st, Term{S: "popcount(" + a.S + ")", T: types.Typ[types.Int]})
}

func biDeepEqual(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	ta, tb := c.pkg.Info.TypeOf(call.Args[0]), c.pkg.Info.TypeOf(call.Args[1])
	if isSlice(ta) && types.Identical(ta, tb) {
		a, ok1 := x.term(st, args[0], ta)
		b, ok2 := x.term(st, args[1], tb)
		if ok1 && ok2 {
			// nil and empty differ for DeepEqual
			r := x.sym(st, "deq", "bool")
			st.fact("(" + r + " ==> " + a.S + " =~= " + b.S + ")")
			st.fact("((" + a.S + " =~= " + b.S + " && " + a.S + ".len() > 0) ==> " + r + ")")
			k(st, Term{S: r, T: tBool})
			return
		}
	}
	k(st, Term{S: x.sym(st, "deq", "bool"), T: tBool})
}

func biShaNew(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	k(st, Hash{Obj: x.alloc(st, Term{S: "Seq::<u8>::empty()", T: tBytes})})
}

func biSha256(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	a, ok := x.term(st, args[0], tBytes)
	if !ok {
		x.unsupported(st, call.Pos(), "sha256 argument")
		return
	}
	s := "sha(" + a.S + ")"
	t := x.shortSeq(st, Term{S: s, T: f.F.Type().(*types.Signature).Results().At(0).Type()})
	st.fact(t.S + ".len() == 32")
	k(st, x.fresh(t))
}

func (x *Exec) hashCall(h Hash, name string, args []Val, st *State, p token.Pos, k func(*State, Val)) {
	cur := st.heap[h.Obj].(Term)
	switch name {
	case "Write":
		a, ok := x.term(st, args[0], tBytes)
		if !ok {
			break
		}
		st.heap[h.Obj] = x.concat(cur, a, tBytes)
		k(st, Tuple{Term{S: x.lenOf(st, a, tBytes), T: types.Typ[types.Int]}, Term{S: "GoErr::Nil", T: tErr}})
		return
	case "Reset":
		st.heap[h.Obj] = Term{S: "Seq::<u8>::empty()", T: tBytes}
		k(st, Tuple{})
		return
	case "Sum":
		a, ok := x.term(st, args[0], tBytes)
		if !ok {
			break
		}
		d := x.shortSeq(st, Term{S: "sha(" + cur.S + ")", T: tBytes})
		st.fact(d.S + ".len() == 32")
		if a.Fam == 0 && a.Nil != "true" && litLen(a.S) != 0 {
			x.mutateFam(st, a, p, true)
		}
		r := x.concat(Term{S: a.S, Parts: a.Parts}, d, tBytes)
		k(st, x.fresh(r))
		return
	case "Size":
		k(st, Term{S: "32", T: types.Typ[types.Int]})
		return
	case "BlockSize":
		k(st, Term{S: "64", T: types.Typ[types.Int]})
		return
	}
	x.unsupported(st, p, "hash method "+name)
}

func biStatusErr(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	code, ok := x.term(st, args[0], nil)
	if !ok {
		x.unsupported(st, call.Pos(), "status code")
		return
	}
	if code.S == "0" {
		k(st, Term{S: "GoErr::Nil", T: tErr})
		return
	}
	k(st, Term{S: "GoErr::Status(" + code.S + ")", T: tErr})
}

func biStatusFrom(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	e, ok := x.term(st, args[0], tErr)
	if !ok {
		x.unsupported(st, call.Pos(), "status.FromError")
		return
	}
	s := "(" + e.S + " == GoErr::Nil || (" + e.S + " is Status))"
	switch errCtor(e.S) {
	case "GoErr::Nil", "GoErr::Status":
		s = "true"
	case "GoErr::Named":
		s = "false"
	case "GoErr::Opaque":
		s = x.sym(st, "isst", "bool")
	default:
		// an opaque error may carry a status
		b := x.sym(st, "isst", "bool")
		st.fact("((" + e.S + " == GoErr::Nil || (" + e.S + " is Status)) ==> " + b + ")")
		st.fact("((" + e.S + " is Named) ==> !" + b + ")")
		s = b
	}
	k(st, Tuple{Opaque{Kind: "status", T: f.F.Type().(*types.Signature).Results().At(0).Type()}, Term{S: s, T: tBool}})
}

func biErrNew(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	k(st, Term{S: "GoErr::Opaque(" + x.sym(st, "eid", "int") + ")", T: tErr})
}

func biErrIs(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	a, ok1 := x.term(st, args[0], tErr)
	b, ok2 := x.term(st, args[1], tErr)
	r := x.sym(st, "is", "bool")
	if ok1 && ok2 {
		st.fact("((" + a.S + " == " + b.S + ") ==> " + r + ")")
		st.fact("(!(" + a.S + " is Opaque) && !(" + a.S + " == " + b.S + ") ==> !" + r + ")")
	}
	k(st, Term{S: r, T: tBool})
}

// dynamic gives the concrete type and term of an argument passed as an interface.
func (x *Exec) dynamic(st *State, e ast.Expr, v Val, c *C) (types.Type, string, bool) {
	T := c.pkg.Info.TypeOf(e)
	switch u := v.(type) {
	case Ptr:
		s, ok := x.toTerm(st, u, u.T)
		return u.T, s, ok
	case Term:
		if u.T != nil && !isIface(u.T) {
			T = u.T
		}
		return T, u.S, true
	case Struct:
		s, ok := x.toTerm(st, u, u.T)
		return u.T, s, ok
	case SliceLit:
		s, ok := x.toTerm(st, u, u.T)
		return u.T, s, ok
	case MapV:
		m, ok := st.heap[u.Obj].(MapLit)
		if ok {
			s, ok := x.mapTerm(st, m, u.T)
			return u.T, s, ok
		}
	case NilV:
		s, ok := x.toTerm(st, u, T)
		return T, s, ok
	}
	return T, "", false
}

func (g *Gen) declFn(name, sig string) string {
	g.uninterp[name] = "pub uninterp spec fn " + name + sig + ";"
	return name
}

func biMarshal(fmtName string) builtinFn {
	return func(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
		T, s, ok := x.dynamic(st, call.Args[0], args[0], c)
		r := x.fresh(x.havoc(st, fmtName, tBytes).(Term))
		r.Nil = ""
		e := x.errSym(st, "merr")
		if ok && isIface(T) && fmtName == "pb" {
			enc := x.g.declFn("msg_enc", "(x: GAny) -> Seq<u8>")
			st.fact("((" + e.S + " == GoErr::Nil && (" + s + " is Some)) ==> " + r.S + " == " + enc + "(" + s + "->0))")
			r.Nil = x.sym(st, "isnil", "bool")
			st.fact("(" + r.Nil + " ==> " + r.S + " == Seq::<u8>::empty())")
			x.g.assumed["protobuf marshalling is a function of the message"] = true
		} else if ok {
			// pointers and values serialise alike
			if p, isP := types.Unalias(T).Underlying().(*types.Pointer); isP {
				vt := x.g.vtype(p.Elem())
				if _, isS := types.Unalias(p.Elem()).Underlying().(*types.Struct); isS {
					enc := x.g.declFn(fmtName+"_enc_"+mangle(vt), "(x: "+vt+") -> Seq<u8>")
					dec := x.g.declFn(fmtName+"_dec_"+mangle(vt), "(b: Seq<u8>) -> "+vt)
					st.fact("((" + e.S + " == GoErr::Nil && (" + s + " is Some)) ==> " + r.S + " == " + enc + "(" + s + "->0))")
					if fmtName == "pb" {
						st.fact("((" + e.S + " == GoErr::Nil && (" + s + " is Some)) ==> " + dec + "(" + r.S + ") == " + s + "->0)")
						x.g.assumed["protobuf marshalling followed by unmarshalling gives the same message (nil and empty byte strings identified)"] = true
					}
				}
			} else {
				vt := x.g.vtype(T)
				enc := x.g.declFn(fmtName+"_enc_"+mangle(vt), "(x: "+vt+") -> Seq<u8>")
				st.fact("((" + e.S + " == GoErr::Nil) ==> " + r.S + " == " + enc + "(" + s + "))")
				if fmtName == "json" {
					can := x.g.declFn(fmtName+"_can_"+mangle(vt), "(x: "+vt+") -> bool")
					st.fact("((" + e.S + " == GoErr::Nil) == " + can + "(" + s + "))")
				}
			}
			x.g.assumed[fmtName+" marshalling is a function of the value"] = true
		}
		k(st, Tuple{r, e})
	}
}

// biPure models an external function as a partial function of its arguments:
// whether it fails, and its result when it does not, depend on them alone.
func biPure(name string, hash bool) builtinFn {
	return func(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
		sig := f.F.Type().(*types.Signature)
		var ts, ps []string
		for i := range args {
			pt := sig.Params().At(i).Type()
			s, ok := x.toTerm(st, args[i], pt)
			if !ok {
				x.unsupported(st, call.Pos(), "argument of "+f.F.Name())
				return
			}
			ts = append(ts, s)
			ps = append(ps, fmt.Sprintf("x%d: %s", i, x.g.vtype(pt)))
		}
		rt := sig.Results().At(0).Type()
		fn := x.g.declFn(name, "("+strings.Join(ps, ", ")+") -> "+x.g.vtype(rt))
		okf := x.g.declFn(name+"_ok", "("+strings.Join(ps, ", ")+") -> bool")
		r := x.havoc(st, name, rt)
		rs := r.(Term)
		if isSlice(rt) {
			rs = x.fresh(rs)
			rs.Nil = ""
		}
		e := x.errSym(st, "oerr")
		al := "(" + strings.Join(ts, ", ") + ")"
		st.fact("((" + e.S + " == GoErr::Nil) == " + okf + al + ")")
		st.fact("((" + e.S + " == GoErr::Nil) ==> " + rs.S + " == " + fn + al + ")")
		if hash {
			st.fact("((" + e.S + " == GoErr::Nil) ==> " + rs.S + ".len() == 32)")
			x.g.assumed["objecthash functions return 32-byte hashes"] = true
		}
		x.g.assumed["objecthash."+f.F.Name()+" is a (partial) function of its arguments"] = true
		k(st, Tuple{rs, e})
	}
}

// biTotal is a library function known only as some function of its arguments.
func biTotal(name string) builtinFn {
	return func(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
		sig := f.F.Type().(*types.Signature)
		if n := sig.Params().Len(); sig.Variadic() && call.Ellipsis == 0 && len(args) >= n-1 {
			args = append(append([]Val(nil), args[:n-1]...), SliceLit{E: args[n-1:], T: sig.Params().At(n - 1).Type()})
		}
		var ts, ps []string
		for i := range args {
			pt := sig.Params().At(i).Type()
			s, ok := x.toTerm(st, args[i], pt)
			if !ok {
				x.unsupported(st, call.Pos(), "argument of "+f.F.Name())
				return
			}
			ts = append(ts, s)
			ps = append(ps, fmt.Sprintf("x%d: %s", i, x.g.vtype(pt)))
		}
		rt := sig.Results().At(0).Type()
		fn := x.g.declFn(name, "("+strings.Join(ps, ", ")+") -> "+x.g.vtype(rt))
		x.g.assumed[f.F.Pkg().Path()+"."+f.F.Name()+" is a function of its arguments"] = true
		k(st, Term{S: fn + "(" + strings.Join(ts, ", ") + ")", T: rt})
	}
}

// biGlob: path.Match answers whether a name matches a pattern, and nothing matches a malformed one.
func biGlob(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	p, ok1 := x.toTerm(st, args[0], types.Typ[types.String])
	n, ok2 := x.toTerm(st, args[1], types.Typ[types.String])
	if !ok1 || !ok2 {
		x.unsupported(st, call.Pos(), "path.Match operands")
		return
	}
	fn := x.g.declFn("glob", "(x0: Seq<u8>, x1: Seq<u8>) -> bool")
	e := x.errSym(st, "gerr")
	m := fn + "(" + p + ", " + n + ")"
	st.fact("(" + e.S + " != GoErr::Nil ==> !" + m + ")")
	x.g.assumed["path.Match is a function of its arguments and false when it returns an error"] = true
	k(st, Tuple{Term{S: m, T: tBool}, e})
}

func isZeroVal(g *Gen, v Val) bool {
	switch u := v.(type) {
	case NilV:
		return true
	case Term:
		return u.S == "0" || u.S == "false" || u.S == "GoErr::Nil" || litLen(u.S) == 0 || strings.HasPrefix(u.S, "None")
	case Struct:
		for _, e := range u.F {
			if !isZeroVal(g, e) {
				return false
			}
		}
		return true
	}
	return false
}

func biUnmarshal(fmtName string) builtinFn {
	return func(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
		data, ok := x.term(st, args[0], tBytes)
		p, isP := args[1].(Ptr)
		e := x.errSym(st, "uerr")
		if ok && !isP && st.ghost["$out"] != "" {
			x.setOut(st, "Out::Bytes("+data.S+", "+e.S+")")
			k(st, e)
			return
		}
		if !ok || !isP {
			x.havocArg(st, args[1])
			k(st, e)
			return
		}
		x.ownedWrite(st, p, call.Pos())
		T := types.Unalias(p.T).(*types.Pointer).Elem()
		vt := x.g.vtype(T)
		old, _ := x.readPath(st, p)
		zero := fmtName == "pb" || isZeroVal(x.g, old)
		nv := x.sym(st, "dec", vt)
		dec := x.g.declFn(fmtName+"_dec_"+mangle(vt), "(b: Seq<u8>) -> "+vt)
		if zero {
			st.fact("((" + e.S + " == GoErr::Nil) ==> " + nv + " == " + dec + "(" + data.S + "))")
		} else {
			mg := x.g.declFn(fmtName+"_merge_"+mangle(vt), "(o: "+vt+", b: Seq<u8>) -> "+vt)
			os, ok := x.toTerm(st, old, T)
			if ok {
				st.fact("((" + e.S + " == GoErr::Nil) ==> " + nv + " == " + mg + "(" + os + ", " + data.S + "))")
			}
		}
		// whether the bytes decode is a function of the bytes
		okf := x.g.declFn(fmtName+"_valid_"+mangle(vt), "(b: Seq<u8>) -> bool")
		if zero {
			st.fact("((" + e.S + " == GoErr::Nil) == " + okf + "(" + data.S + "))")
		}
		if fmtName == "json" {
			st.fact("((" + e.S + " == GoErr::Nil) ==> " + data.S + ".len() > 0)")
			x.g.assumed["the empty byte string is not JSON"] = true
		}
		x.g.assumed[fmtName+" unmarshalling is a function of the bytes"] = true
		x.ownedVal(st, nv, T, 0, func(st *State, v Val) {
			x.writePath(st, p, v)
			k(st, e)
		})
	}
}

// ownedVal makes a freshly decoded value concrete: pointers to repository
// messages become objects of the function's own, one path for nil and one not.
func (x *Exec) ownedVal(st *State, s string, T types.Type, depth int, k func(*State, Val)) {
	if pt, ok := types.Unalias(T).(*types.Pointer); ok {
		n, ok := types.Unalias(pt.Elem()).(*types.Named)
		if !ok || !x.g.inRepo(n) || depth > 2 {
			k(st, Term{S: s, T: T})
			return
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			k(st, Term{S: s, T: T})
			return
		}
		x.branch(st, "("+s+" is Some)", func(st *State) {
			x.ownedVal(st, s+"->0", n, depth+1, func(st *State, v Val) { k(st, Ptr{Obj: x.alloc(st, v), T: T}) })
		}, func(st *State) { k(st, NilV{T}) })
		return
	}
	su, ok := types.Unalias(T).Underlying().(*types.Struct)
	if !ok {
		k(st, Term{S: s, T: T})
		return
	}
	v := x.expandStruct(st, s, T, true)
	sv, ok := v.(Struct)
	if !ok {
		k(st, v)
		return
	}
	fs := structFields(su)
	var step func(st *State, i int, r Struct)
	step = func(st *State, i int, r Struct) {
		for i < len(fs) {
			if _, ok := types.Unalias(fs[i].Type()).(*types.Pointer); ok {
				break
			}
			i++
		}
		if i == len(fs) {
			k(st, r)
			return
		}
		x.ownedVal(st, s+"."+fieldName(fs[i].Name()), fs[i].Type(), depth, func(st *State, v Val) {
			n := Struct{T: r.T, F: map[string]Val{}}
			for a, b := range r.F {
				n.F[a] = b
			}
			n.F[fs[i].Name()] = v
			step(st, i+1, n)
		})
	}
	step(st, 0, sv)
}

// ---------------------------------------------------------------- storage

func (x *Exec) dbOf(st *State, v Val) (DB, bool) {
	d, ok := v.(DB)
	return d, ok
}

func pvalVariant(T types.Type) (string, types.Type, bool) {
	p, ok := types.Unalias(T).Underlying().(*types.Pointer)
	if !ok {
		return "", nil, false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return "", nil, false
	}
	switch n.Obj().Name() {
	case "LeafData", "LeafNode", "TreeNode", "LogTreeHash", "EntryIndex", "ObjectSize", "MapNode":
		return n.Obj().Name(), p.Elem(), true
	}
	return "", nil, false
}

func biKVGet(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	d, ok := x.dbOf(st, f.Recv)
	p, isP := args[2].(Ptr)
	key, ok2 := x.term(st, args[1], tBytes)
	if t, isT := f.Recv.(Term); isT && ok2 && st.ghost["$out"] != "" {
		x.nilCheck(st, t, "store", call.Pos())
		e := x.errSym(st, "gerr")
		x.setOut(st, "Out::Asked("+t.S+", "+key.S+", "+e.S+")")
		k(st, e)
		return
	}
	if !ok || !isP || !ok2 {
		x.unsupported(st, call.Pos(), "KeyReader.Get on an unknown store")
		return
	}
	db := st.ghost["db:"+d.Slot]
	e := x.errSym(st, "gerr")
	variant, T, known := pvalVariant(p.T)
	if !known {
		x.unsupported(st, call.Pos(), "KeyReader.Get into "+p.T.String())
		return
	}
	x.ownedWrite(st, p, call.Pos())
	nv := x.sym(st, "got", x.g.vtype(T))
	keyS := x.shortSeq(st, key).S
	st.fact("((" + e.S + " == GoErr::Nil) ==> (" + db + ".dom().contains(" + keyS + ") && ((" + db + "[" + keyS + "] is " + variant + ") ==> " + nv + " == " + db + "[" + keyS + "]->" + variant + "_0)))")
	st.fact("((" + e.S + " == " + x.g.errTerm("verifiable.ErrNoSuchKey") + ") ==> !" + db + ".dom().contains(" + keyS + "))")
	fl := x.sym(st, "fault", "bool")
	st.fact(fl + " == (" + st.ghost["$fault"] + " || !(" + e.S + " == GoErr::Nil || " + e.S + " == " + x.g.errTerm("verifiable.ErrNoSuchKey") + "))")
	st.ghost["$fault"] = fl
	x.writePath(st, p, x.expandStruct(st, nv, T, true))
	x.g.assumed["KeyReader.Get returns the stored value, ErrNoSuchKey exactly for an absent key, or some other error"] = true
	k(st, e)
}

func biKVSet(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	d, ok := x.dbOf(st, f.Recv)
	key, ok2 := x.term(st, args[1], tBytes)
	if !ok || !ok2 {
		x.unsupported(st, call.Pos(), "KeyWriter.Set on an unknown store")
		return
	}
	db := st.ghost["db:"+d.Slot]
	e := x.errSym(st, "serr")
	keyS := x.shortSeq(st, key).S
	T, s, ok3 := x.dynamic(st, call.Args[2], args[2], c)
	n := x.sym(st, "db", "Db")
	if _, isN := args[2].(NilV); isN {
		st.fact("((" + e.S + " == GoErr::Nil) ==> " + n + " == " + db + ".remove(" + keyS + "))")
	} else if isIface(T) && ok3 {
		any := x.g.declFn("pval_any", "(x: GAny) -> PVal")
		st.fact("((" + e.S + " == GoErr::Nil) ==> " + n + " == (if " + s + " is Some { " + db + ".insert(" + keyS + ", " + any + "(" + s + "->0)) } else { " + db + ".remove(" + keyS + ") }))")
	} else {
		variant, _, known := pvalVariant(T)
		if !known || !ok3 {
			x.unsupported(st, call.Pos(), "KeyWriter.Set of "+T.String())
			return
		}
		x.oblig(st, "nil", "the value written is not a nil pointer", call.Pos(), "("+s+" is Some)")
		st.fact("((" + e.S + " == GoErr::Nil) ==> " + n + " == " + db + ".insert(" + keyS + ", PVal::" + variant + "(" + s + "->0)))")
	}
	st.fact("(!(" + e.S + " == GoErr::Nil) ==> " + n + " == " + db + ")")
	fl := x.sym(st, "fault", "bool")
	st.fact(fl + " == (" + st.ghost["$fault"] + " || !(" + e.S + " == GoErr::Nil))")
	st.ghost["$fault"] = fl
	st.ghost["db:"+d.Slot] = n
	x.g.assumed["KeyWriter.Set stores the value under exactly that key or returns an error"] = true
	k(st, e)
}

func (x *Exec) event(st *State, ev string) {
	n := x.sym(st, "ev", "Seq<Ev>")
	st.fact(n + " == " + st.ghost["$ev"] + ".push(" + ev + ")")
	st.ghost["$ev"] = n
}

func biExecRead(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	x.execTx(call, f, args, st, c, k, false)
}

func biExecUpdate(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	x.execTx(call, f, args, st, c, k, true)
}

func (x *Exec) execTx(call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val), upd bool) {
	if t, ok := f.Recv.(Term); ok {
		x.nilCheck(st, t, "storage", call.Pos())
	}
	if _, ok := f.Recv.(NilV); ok {
		x.oblig(st, "nil", "storage is nil", call.Pos(), "false")
		return
	}
	ns, ok := x.term(st, args[1], tBytes)
	if !ok {
		x.unsupported(st, call.Pos(), "namespace")
		return
	}
	kind := "Read"
	if upd {
		kind = "Update"
	}
	x.event(st, "Ev::"+kind+"("+ns.S+")")
	// the store may fail before running the function
	s0 := st.clone()
	s0.ghost["$fault"] = "true"
	e0 := x.errSym(s0, "txerr")
	s0.fact("!(" + e0.S + " == GoErr::Nil)")
	if cur := s0.ghost["$txs"]; cur != "" {
		d := x.sym(s0, "db", "Db")
		n := x.sym(s0, "txs", "Seq<Tx>")
		s0.fact(n + " == " + cur + ".push(Tx { ns: " + ns.S + ", upd: " + fmt.Sprint(upd) + ", before: " + d + ", after: " + d + ", ok: false })")
		s0.ghost["$txs"] = n
	}
	k(s0, e0)
	// or run it on the committed state
	var slot string
	x.g.fresh++
	slot = fmt.Sprintf("tx_%d", x.g.fresh)
	if st.ghost["$nread1"] == "" {
		st.ghost["db:"+slot] = st.ghost["$rdb"]
		st.ghost["$nread1"] = "true"
	} else {
		st.ghost["db:"+slot] = x.sym(st, "db", "Db")
	}
	x.g.assumed["a storage transaction runs its function once on a state of the namespace, and returns the function's error or a storage error"] = true
	before := st.ghost["db:"+slot]
	if st.ghost["$tx0"] != "" {
		st.ghost["$tx0"] = before
	}
	note := func(st *State, ok string) {
		if cur := st.ghost["$txs"]; cur != "" {
			n := x.sym(st, "txs", "Seq<Tx>")
			st.fact(n + " == " + cur + ".push(Tx { ns: " + ns.S + ", upd: " + fmt.Sprint(upd) + ", before: " + before + ", after: " + st.ghost["db:"+slot] + ", ok: " + ok + " })")
			st.ghost["$txs"] = n
		}
	}
	x.applyCall(call, args[2], []Val{args[0], DB{Slot: slot, ReadOnly: !upd}}, st, c, func(st *State, r Val) {
		e, ok := x.term(st, r, tErr)
		if !ok {
			x.unsupported(st, call.Pos(), "transaction result")
			return
		}
		s1 := st.clone()
		note(st, "("+e.S+" == GoErr::Nil)")
		k(st, Term{S: e.S, T: tErr})
		if errCtor(e.S) == "GoErr::Nil" || errCtor(e.S) == "" {
			s1.ghost["$fault"] = "true"
			e1 := x.errSym(s1, "txerr")
			s1.fact("(" + e.S + " == GoErr::Nil)")
			s1.fact("!(" + e1.S + " == GoErr::Nil)")
			note(s1, "false")
			k(s1, e1)
		}
	})
}

func biVerifyAllowed(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	if t, ok := f.Recv.(Term); ok {
		x.nilCheck(st, t, "access policy", call.Pos())
	}
	sig := f.F.Type().(*types.Signature)
	am := x.havoc(st, "am", sig.Results().At(0).Type()).(Term)
	e := x.errSym(st, "autherr")
	var ts []string
	for i := 1; i <= 4; i++ {
		t, ok := x.term(st, args[i], nil)
		if !ok {
			x.unsupported(st, call.Pos(), "VerifyAllowed arguments")
			return
		}
		ts = append(ts, t.S)
	}
	st.fact("((" + e.S + " == GoErr::Nil) ==> (" + am.S + " is Some))")
	x.event(st, "Ev::Auth(AuthEv { acct: "+ts[0]+", apikey: "+ts[1]+", name: "+ts[2]+", perm: "+ts[3]+", ok: ("+e.S+" == GoErr::Nil), filter: "+am.S+"->0.FieldFilter })")
	x.g.assumed["an access policy that allows an operation returns a non-nil modifier"] = true
	k(st, Tuple{am, e})
}

func biQueue(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	if t, ok := f.Recv.(Term); ok {
		x.nilCheck(st, t, "mutator", call.Pos())
	}
	ns, ok1 := x.term(st, args[1], tBytes)
	m, ok2 := x.toTerm(st, args[2], f.F.Type().(*types.Signature).Params().At(2).Type())
	if !ok1 || !ok2 {
		x.unsupported(st, call.Pos(), "QueueMutation arguments")
		return
	}
	x.event(st, "Ev::Queue("+ns.S+", "+m+")")
	k(st, x.errSym(st, "qerr"))
}

// ---------------------------------------------------------------- language builtins

// lvSlice resolves a destination of copy and friends: base location, offset and length.
func (x *Exec) lvSlice(e ast.Expr, st *State, c *C, k func(st *State, b lval, cur Term, off, n string, gt types.Type)) {
	e = ast.Unparen(e)
	if se, ok := e.(*ast.SliceExpr); ok {
		gt := c.pkg.Info.TypeOf(se.X)
		x.lv(se.X, st, c, func(st *State, b lval) {
			get := func(e ast.Expr, def string, st *State, k func(*State, string)) {
				if e == nil {
					k(st, def)
					return
				}
				x.ev(e, st, c, func(st *State, v Val) {
					t, _ := x.term(st, v, nil)
					k(st, t.S)
				})
			}
			cur, ok := x.term(st, b.get(st), gt)
			if !ok {
				x.unsupported(st, e.Pos(), "copy destination")
				return
			}
			l := x.lenOf(st, cur, gt)
			get(se.Low, "0", st, func(st *State, lo string) {
				get(se.High, l, st, func(st *State, hi string) {
					goal := "(0 <= " + lo + " && " + lo + " <= " + hi + " && " + hi + " <= " + l + ")"
					if !(lo == "0" && hi == l) {
						x.oblig(st, "bounds", "slice bounds in range", e.Pos(), goal)
						st.fact(goal)
					}
					k(st, b, cur, lo, "("+hi+" - "+lo+")", gt)
				})
			})
		})
		return
	}
	gt := c.pkg.Info.TypeOf(e)
	x.lv(e, st, c, func(st *State, b lval) {
		cur, ok := x.term(st, b.get(st), gt)
		if !ok {
			x.unsupported(st, e.Pos(), "copy destination")
			return
		}
		k(st, b, cur, "0", x.lenOf(st, cur, gt), gt)
	})
}

func rawPutUint64(x *Exec, call *ast.CallExpr, f FuncRef, st *State, c *C, k func(*State, Val)) {
	x.lvSlice(call.Args[0], st, c, func(st *State, b lval, cur Term, off, n string, gt types.Type) {
		x.ev(call.Args[1], st, c, func(st *State, v Val) {
			t, _ := x.term(st, v, nil)
			x.oblig(st, "bounds", "PutUint64 has 8 bytes of room", call.Pos(), "("+n+" >= 8)")
			st.fact("(" + n + " >= 8)")
			x.mutateFam(st, cur, call.Pos(), false)
			b.set(st, x.shortSeq(st, Term{S: "cpy(" + cur.S + ", " + off + ", be64(" + t.S + "))", T: gt, Nil: "false", Fam: cur.Fam}))
			k(st, Tuple{})
		})
	})
}

func (x *Exec) langBuiltin(name string, call *ast.CallExpr, st *State, c *C, k func(*State, Val)) {
	T := c.pkg.Info.TypeOf(call)
	switch name {
	case "len":
		at := c.pkg.Info.TypeOf(call.Args[0])
		x.ev(call.Args[0], st, c, func(st *State, v Val) {
			switch types.Unalias(at).Underlying().(type) {
			case *types.Map, *types.Chan:
				n := x.havoc(st, "len", T).(Term)
				st.fact("(0 <= " + n.S + ")")
				k(st, n)
				return
			}
			if l, ok := v.(SliceLit); ok {
				k(st, Term{S: fmt.Sprint(len(l.E)), T: T})
				return
			}
			t, ok := x.term(st, v, at)
			if !ok {
				x.unsupported(st, call.Pos(), "len")
				return
			}
			k(st, Term{S: x.lenOf(st, t, at), T: T})
		})
	case "cap":
		x.ev(call.Args[0], st, c, func(st *State, v Val) {
			n := x.havoc(st, "cap", T).(Term)
			if t, ok := x.term(st, v, c.pkg.Info.TypeOf(call.Args[0])); ok {
				st.fact("(" + x.lenOf(st, t, c.pkg.Info.TypeOf(call.Args[0])) + " <= " + n.S + ")")
			}
			k(st, n)
		})
	case "append":
		x.appendCall(call, st, c, k)
	case "copy":
		x.lvSlice(call.Args[0], st, c, func(st *State, b lval, cur Term, off, n string, gt types.Type) {
			x.ev(call.Args[1], st, c, func(st *State, v Val) {
				s, ok := x.term(st, v, c.pkg.Info.TypeOf(call.Args[1]))
				if !ok {
					x.unsupported(st, call.Pos(), "copy source")
					return
				}
				sl := x.lenOf(st, s, c.pkg.Info.TypeOf(call.Args[1]))
				x.mutateFam(st, cur, call.Pos(), false)
				x.freezeSrc(st, s, gt)
				b.set(st, x.shortSeq(st, Term{S: "cpyn(" + cur.S + ", " + off + ", " + s.S + ", imin(" + n + ", " + sl + "))", T: gt, Nil: "false", Fam: cur.Fam}))
				k(st, Term{S: "imin(" + n + ", " + sl + ")", T: T})
			})
		})
	case "make":
		switch u := types.Unalias(T).Underlying().(type) {
		case *types.Slice:
			x.ev(call.Args[1], st, c, func(st *State, v Val) {
				n, ok := x.term(st, v, nil)
				if !ok {
					x.unsupported(st, call.Pos(), "make length")
					return
				}
				if l, isL := litInt(n.S); !isL || l.Sign() < 0 {
					goal := "(0 <= " + n.S + ")"
					if !st.known[goal] && !strings.HasSuffix(n.S, ".len() as int)") {
						x.oblig(st, "bounds", "make length is not negative", call.Pos(), goal)
						st.fact(goal)
					}
				}
				x.g.fam++
				if n.S == "0" {
					k(st, Term{S: "Seq::<" + x.g.elemType(u.Elem()) + ">::empty()", T: T, Nil: "false", Fam: x.g.fam})
					return
				}
				z := ""
				if isByte(u.Elem()) {
					z = "0u8"
				} else {
					z, _ = x.toTerm(st, x.g.zero(u.Elem()), u.Elem())
				}
				if z == "" {
					z = "arbitrary()"
				}
				k(st, Term{S: "Seq::new((" + n.S + ") as nat, |z_: int| " + z + ")", T: T, Nil: "false", Fam: x.g.fam})
			})
		case *types.Map:
			if rm, ok := refMap(T); ok {
				k(st, x.refMake(st, rm, T))
				return
			}
			_ = u
			k(st, MapV{Obj: x.alloc(st, MapLit{}), T: T})
		default:
			if st.ghost["$spawn"] != "" {
				k(st, Term{S: x.sym(st, "chan", x.g.vtype(T)), T: T})
				return
			}
			k(st, Opaque{Kind: "chan", T: T})
		}
	case "new":
		et := types.Unalias(T).(*types.Pointer).Elem()
		k(st, Ptr{Obj: x.alloc(st, x.g.zero(et)), T: T})
	case "delete":
		x.evList(call.Args, st, c, func(st *State, vs []Val) {
			rm, ok := refMap(c.pkg.Info.TypeOf(call.Args[0]))
			if !ok {
				x.unsupported(st, call.Pos(), "delete")
				return
			}
			x.refDelete(st, vs[0], vs[1], rm, call.Pos())
			k(st, Tuple{})
		})
	case "panic":
		x.oblig(st, "panic", "panic is not reached", call.Pos(), "false")
	case "close":
		x.ev(call.Args[0], st, c, func(st *State, _ Val) { k(st, Tuple{}) })
	case "min", "max":
		x.evList(call.Args, st, c, func(st *State, vs []Val) {
			t, _ := x.term(st, vs[0], T)
			for _, v := range vs[1:] {
				u, _ := x.term(st, v, T)
				t = Term{S: "i" + name + "(" + t.S + ", " + u.S + ")", T: T}
			}
			k(st, t)
		})
	case "recover":
		k(st, x.havoc(st, "rec", T))
	case "print", "println":
		k(st, Tuple{})
	default:
		x.unsupported(st, call.Pos(), "builtin "+name)
	}
}

func (x *Exec) freezeSrc(st *State, s Term, gt types.Type) {}

func (x *Exec) appendCall(call *ast.CallExpr, st *State, c *C, k func(*State, Val)) {
	T := c.pkg.Info.TypeOf(call)
	et := types.Unalias(T).Underlying().(*types.Slice).Elem()
	x.evList(call.Args, st, c, func(st *State, vs []Val) {
		a, ok := x.term(st, x.convertAssign(st, vs[0], T), T)
		if !ok {
			x.unsupported(st, call.Pos(), "append")
			return
		}
		if len(vs) == 1 {
			k(st, a)
			return
		}
		fam := a.Fam
		if litLen(a.S) == 0 && a.Nil == "true" {
			x.g.fam++
			fam = x.g.fam
		} else {
			if a.Fam == 0 && a.Sub {
				x.oblig(st, "frame", "append into the middle of a slice the function does not own", call.Pos(), "false")
			}
			x.mutateFam(st, a, call.Pos(), true)
		}
		var r Term
		if call.Ellipsis.IsValid() {
			b, ok := x.term(st, vs[1], c.pkg.Info.TypeOf(call.Args[1]))
			if !ok {
				x.unsupported(st, call.Pos(), "append")
				return
			}
			r = x.concat(a, b, T)
		} else if isByte(et) {
			var ps []string
			for _, v := range vs[1:] {
				s, ok := x.asElem(st, v, et)
				if !ok {
					x.unsupported(st, call.Pos(), "append element")
					return
				}
				ps = append(ps, s)
			}
			r = x.concat(a, Term{S: "seq![" + strings.Join(ps, ", ") + "]"}, T)
		} else {
			s := parenT(a.S)
			for _, v := range vs[1:] {
				v = x.convertAssign(st, v, et)
				x.freeze(st, v)
				e, ok := x.asElem(st, v, et)
				if !ok {
					x.unsupported(st, call.Pos(), "append element")
					return
				}
				s += ".push(" + e + ")"
			}
			r = x.shortSeq(st, Term{S: s, T: T})
		}
		r.T = T
		r.Fam = fam
		r.Nil = "false"
		if call.Ellipsis.IsValid() {
			r.Nil = ""
		}
		k(st, r)
	})
}

// tracedChan says whether values of this type go through the channel the contract speaks of.
func (x *Exec) tracedChan(et types.Type) bool {
	t := "Seq<" + x.g.vtype(et) + ">"
	return ghostTypes["$rcv"] == t || ghostTypes["$sent"] == t
}

// received notes a value taken from a channel, or the zero value once it is closed.
func (x *Exec) received(st *State, v Val, et types.Type, ok string) {
	ts, good := x.toTerm(st, v, et)
	if !good {
		return
	}
	if z, okz := x.toTerm(st, x.g.zero(et), et); okz {
		st.fact("(!" + ok + " ==> " + ts + " == " + z + ")")
	}
	if !x.tracedChan(et) {
		return
	}
	if x.con != nil && x.con.ChanInv != "" {
		st.fact("(" + ok + " ==> " + strings.ReplaceAll(x.con.ChanInv, "$v", ts) + ")")
	}
	if cur := st.ghost["$rcv"]; cur != "" && strings.HasPrefix(ghostTypes["$rcv"], "Seq<") {
		n := x.sym(st, "recv", ghostTypes["$rcv"])
		st.fact(n + " == (if " + ok + " { " + cur + ".push(" + ts + ") } else { " + cur + " })")
		st.ghost["$rcv"] = n
	}
}

// biHex: hexadecimal text of a byte string.
func biHex(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	t, ok := x.term(st, args[0], tBytes)
	if !ok {
		x.unsupported(st, call.Pos(), "hex operand")
		return
	}
	k(st, Term{S: "hex_enc(" + t.S + ")", T: types.Typ[types.String]})
}

func (x *Exec) setOut(st *State, v string) {
	n := x.sym(st, "out", ghostTypes["$out"])
	st.fact(n + " == " + v)
	st.ghost["$out"] = n
}

func (x *Exec) sendHook(st *State, c *C, s *ast.SendStmt, ch, v Val) {
	if cur := st.ghost["$sent"]; cur != "" {
		et := types.Unalias(c.pkg.Info.TypeOf(s.Chan)).Underlying().(*types.Chan).Elem()
		ts, ok := x.toTerm(st, v, et)
		if !ok {
			ts = "arbitrary()"
		}
		if x.con.ChanInv != "" {
			x.oblig(st, "chan", "what is sent satisfies "+x.con.ChanInv, s.Pos(), strings.ReplaceAll(x.con.ChanInv, "$v", ts))
		}
		n := x.sym(st, "sent", ghostTypes["$sent"])
		st.fact(n + " == " + cur + ".push(" + ts + ")")
		st.ghost["$sent"] = n
	}
	x.freeze(st, v)
}

// goHook records the goroutines a function starts: what they run, and on which object.
func (x *Exec) goHook(st *State, c *C, s *ast.GoStmt, k func(*State)) {
	cur := st.ghost["$spawn"]
	fo := x.g.staticCallee(s.Call, c.pkg)
	if cur == "" || fo == nil || len(s.Call.Args) > 0 {
		x.unsupported(st, s.Pos(), "go statement")
		return
	}
	x.evCallee(s.Call, st, c, func(st *State, v Val) {
		f, ok := v.(FuncRef)
		if !ok {
			x.unsupported(st, s.Pos(), "go statement")
			return
		}
		on := "None"
		if f.Recv != nil {
			rt := fo.Type().(*types.Signature).Recv().Type()
			t, ok := x.toTerm(st, f.Recv, rt)
			if !ok {
				x.unsupported(st, s.Pos(), "go statement receiver")
				return
			}
			on = x.g.wrapIface(rt, t)
		}
		n := x.sym(st, "spawn", ghostTypes["$spawn"])
		st.fact(n + " == " + cur + ".push(Spawn { f: " + x.g.lit(funcKey(fo)) + ", on: " + on + " })")
		st.ghost["$spawn"] = n
		k(st)
	})
}

// biSprintf: a constant format with plain %s, %x, %q-free verbs of strings and byte slices is the
// concatenation of its pieces; anything else is an arbitrary string.
func biSprintf(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	tv := c.pkg.Info.Types[call.Args[0]]
	str := types.Typ[types.String]
	if tv.Value == nil || tv.Value.Kind() != constant.String || call.Ellipsis != 0 {
		biHavocNoArgs(x, call, f, args, st, c, k)
		return
	}
	format := constant.StringVal(tv.Value)
	out := Term{S: "Seq::<u8>::empty()", T: str}
	n := 1
	for len(format) > 0 {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			i = len(format)
		}
		if i > 0 {
			out = x.concat(out, Term{S: x.g.lit(format[:i]), T: str}, str)
			format = format[i:]
			continue
		}
		if len(format) < 2 {
			biHavocNoArgs(x, call, f, args, st, c, k)
			return
		}
		verb := format[1]
		format = format[2:]
		if verb == '%' {
			out = x.concat(out, Term{S: x.g.lit("%"), T: str}, str)
			continue
		}
		if (verb != 's' && verb != 'x') || n >= len(args) {
			biHavocNoArgs(x, call, f, args, st, c, k)
			return
		}
		at := c.pkg.Info.TypeOf(call.Args[n])
		pt := types.Type(str)
		switch u := types.Unalias(at).(type) {
		case *types.Basic:
			if u.Info()&types.IsString == 0 {
				pt = nil
			}
		case *types.Slice:
			pt = tBytes
			if b, ok := types.Unalias(u.Elem()).(*types.Basic); !ok || b.Kind() != types.Uint8 {
				pt = nil
			}
		default:
			// a named type may print itself in its own way
			pt = nil
		}
		if pt == nil {
			biHavocNoArgs(x, call, f, args, st, c, k)
			return
		}
		t, ok := x.term(st, args[n], pt)
		if !ok {
			biHavocNoArgs(x, call, f, args, st, c, k)
			return
		}
		if verb == 'x' {
			t = Term{S: "hex_enc(" + t.S + ")", T: str}
		}
		out = x.concat(out, Term{S: t.S, T: str, Parts: t.Parts}, str)
		n++
	}
	if n != len(args) {
		biHavocNoArgs(x, call, f, args, st, c, k)
		return
	}
	k(st, out)
}

// biRowScan: reading the single column of a row either fails, saying that there is no row only
// when there is none, or gives the row's value.
func biRowScan(x *Exec, call *ast.CallExpr, f FuncRef, args []Val, st *State, c *C, k func(*State, Val)) {
	r, ok := x.toTerm(st, f.Recv, f.F.Type().(*types.Signature).Recv().Type())
	bt := "Option<GAny>"
	e := x.errSym(st, "serr")
	var p Ptr
	isP := false
	if len(args) == 1 {
		p, isP = args[0].(Ptr)
	}
	if !ok || !isP || !isByteSlice(types.Unalias(p.T).Underlying().(*types.Pointer).Elem()) {
		for _, a := range args {
			x.havocArg(st, a)
		}
		k(st, e)
		return
	}
	x.ownedWrite(st, p, call.Pos())
	rowv := x.g.declFn("row_first", "(r: "+bt+") -> Option<Seq<u8>>")
	nv := x.sym(st, "col", "Seq<u8>")
	none := x.g.errTerm("github.com/jackc/pgx/v5.ErrNoRows")
	st.fact("(" + e.S + " == GoErr::Nil ==> " + rowv + "(" + r + ") == Some(" + nv + "))")
	st.fact("(" + e.S + " == " + none + " ==> " + rowv + "(" + r + ") is None)")
	st.fact("(" + e.S + " != " + x.g.errTerm("verifiable.ErrNoSuchKey") + ")")
	if b := st.ghost["$broke"]; b != "" {
		nb := x.sym(st, "broke", "bool")
		st.fact("(" + b + " ==> " + nb + ")")
		st.fact("(!" + nb + " ==> " + e.S + " == (if " + rowv + "(" + r + ") is Some { GoErr::Nil } else { " + none + " }))")
		st.fact("(" + nb + " && !" + b + " ==> " + e.S + " != GoErr::Nil && " + e.S + " != " + none + ")")
		st.ghost["$broke"] = nb
	}
	x.g.assumed["a row read from postgres gives its value, or says that there is none, or fails"] = true
	x.g.fam++
	x.writePath(st, p, Term{S: nv, T: tBytes, Nil: "false", Fam: x.g.fam})
	k(st, e)
}

func isByteSlice(t types.Type) bool {
	u, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := types.Unalias(u.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
