package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- synthetic error types standing for errors.New, fmt.Errorf, errors.Join
var zzPkg = types.NewPackage("zz", "zz")
var zzError, zzJoin *types.Named

func initZZ() {
	errT := types.Universe.Lookup("error").Type()
	mkNamed := func(name string, fs []*types.Var) *types.Named {
		n := types.NewNamed(types.NewTypeName(token.NoPos, zzPkg, name, nil), types.NewStruct(fs, nil), nil)
		recv := types.NewVar(token.NoPos, zzPkg, "e", types.NewPointer(n))
		n.AddMethod(types.NewFunc(token.NoPos, zzPkg, "Error", types.NewSignatureType(recv, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)))
		return n
	}
	zzError = mkNamed("errorString", []*types.Var{
		types.NewField(0, zzPkg, "Msg", types.Typ[types.String], false),
		types.NewField(0, zzPkg, "Wrapped", errT, false),
	})
	zzJoin = mkNamed("joinError", []*types.Var{
		types.NewField(0, zzPkg, "Errs", types.NewSlice(errT), false),
	})
}

func (e *Eng) newError(s *State, msg *T, wrapped Val) Val {
	p := e.allocObj(s, zzError)
	e.store(s, PtrV{ref: p.ref, owner: zzError, path: ".Msg", typ: types.Typ[types.String]}, msg)
	if wrapped != nil {
		e.store(s, PtrV{ref: p.ref, owner: zzError, path: ".Wrapped", typ: types.Universe.Lookup("error").Type()}, wrapped)
	}
	return IfaceV{dyn: types.NewPointer(zzError), val: p}
}

func isZZ(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && p.Elem() == types.Type(n)
}

// errorText is err.Error() for string building.
func (e *Eng) errorText(s *State, v IfaceV) *T {
	if v.dyn != nil && isZZ(v.dyn, zzError) {
		p := v.val.(PtrV)
		return e.load(s, PtrV{ref: p.ref, owner: zzError, path: ".Msg", typ: types.Typ[types.String]}).(*T)
	}
	return App("errtext", SStr, e.ifaceTerm(v))
}

func (e *Eng) varargs(s *State, v Val, el types.Type) ([]Val, bool) {
	sv, ok := v.(SliceV)
	if !ok || !sv.len.isNum() {
		return nil, false
	}
	var out []Val
	for k := int64(0); k < sv.len.ival.Int64(); k++ {
		out = append(out, e.load(s, elemPtr(sv.arr, Add(sv.off, Num(k)), el)))
	}
	return out, true
}

var anyT = types.Universe.Lookup("any").Type()

// sprint renders one operand for a verb.
func (e *Eng) sprint(s *State, verb byte, v Val) *T {
	iv, ok := v.(IfaceV)
	if !ok {
		return App("fmt_op", SStr, e.flat(v, nil)...)
	}
	if iv.dyn != nil {
		if b, ok := types.Unalias(iv.dyn).Underlying().(*types.Basic); ok {
			t := iv.val.(*T)
			if b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') {
				if _, named := types.Unalias(iv.dyn).(*types.Named); !named {
					return t
				}
			}
			if b.Info()&types.IsString != 0 && verb == 'q' {
				if t.op == "strc" {
					return StrC(fmt.Sprintf("%q", t.sval))
				}
				return App("fmt_quote", SStr, t)
			}
			if b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v') {
				if t.isNum() {
					return StrC(t.ival.String())
				}
				return App("itoa", SStr, t)
			}
		}
		if types.Implements(iv.dyn, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) && (verb == 's' || verb == 'v' || verb == 'w') {
			return e.errorText(s, iv)
		}
		if verb == 'T' {
			return StrC(typeKey(iv.dyn))
		}
	}
	if verb == 'w' || (verb == 's' || verb == 'v') && e.staticIface[e.ifaceTerm(iv).id] != nil && e.staticIface[e.ifaceTerm(iv).id].String() == "error" {
		return e.errorText(s, iv)
	}
	ts := e.argTerms(s, iv, anyT)
	return App("fmt_"+string(rune(verb)), SStr, ts...)
}

func (e *Eng) sprintf(s *State, format *T, args []Val) (*T, Val) {
	if format.op != "strc" {
		ts := []*T{format}
		for _, a := range args {
			ts = append(ts, e.argTerms(s, a, anyT)...)
		}
		return App(fmt.Sprintf("sprintf_%d", len(args)), SStr, ts...), nil
	}
	var parts []*T
	var wrapped Val
	f := format.sval
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, StrC(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			parts = append(parts, StrC(f[i:]))
			break
		}
		if f[j] == '%' {
			parts = append(parts, StrC("%"))
			i = j
			continue
		}
		if n >= len(args) {
			parts = append(parts, StrC("%!"+string(f[j])+"(MISSING)"))
			i = j
			continue
		}
		if f[j] == 'w' {
			wrapped = args[n]
		}
		if j == i+1 {
			parts = append(parts, e.sprint(s, f[j], args[n]))
		} else {
			parts = append(parts, App("fmt_"+sanitize(f[i+1:j+1]), SStr, e.argTerms(s, args[n], anyT)...))
		}
		n++
		i = j
	}
	return SConcat(parts...), wrapped
}

var nondetFns = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Until": true, "runtime/debug.Stack": true,
	"github.com/google/uuid.New": true, "github.com/google/uuid.NewRandom": true, "github.com/google/uuid.NewString": true,
	"context.WithCancel": true,
}

func (e *Eng) nondetName(name string) bool {
	if nondetFns[name] {
		return true
	}
	if strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "math/rand.") || strings.Contains(name, "math/rand.Rand)") {
		return true
	}
	return false
}

// purePtr: packages whose pointer-receiver methods only read their receiver.
var purePtrPkgs = []string{"net/url.", "time.Location", "google.golang.org/grpc", "google.golang.org/protobuf", "github.com/google/cel-go", "google.golang.org/genproto", "regexp.", "math/big.", "golang.org/x/text", "net/url.URL"}

func (e *Eng) extern(s *State, fn *ssa.Function, name string, args []Val, call ssa.Value, deferCall bool) []*State {
	sig := fn.Signature
	if r := sig.Recv(); r != nil {
		if pt, ok := types.Unalias(r.Type()).(*types.Pointer); ok {
			// generated getters of protobuf messages
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok && isProtoStruct(st) && strings.HasPrefix(fn.Name(), "Get") && sig.Params().Len() == 0 {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == fn.Name()[3:] && types.Identical(st.Field(i).Type(), sig.Results().At(0).Type()) {
						p := args[0].(PtrV)
						q := PtrV{ref: p.ref, owner: p.owner, path: p.path + fieldPath(st, i), typ: st.Field(i).Type(), idx: p.idx}
						return e.fork(s, Eq(e.ptrTerm(p), Num(0)), func(s *State) []*State {
							return e.finish(s, call, deferCall, []Val{e.zero(st.Field(i).Type())})
						}, func(s *State) []*State {
							return e.finish(s, call, deferCall, []Val{e.load(s, q)})
						})
					}
				}
			}
			pure := false
			for _, p := range purePtrPkgs {
				if strings.Contains(name, p) {
					pure = true
				}
			}
			if !pure && !e.nondetName(name) {
				e.note("external (nondeterministic result, no effect on verified memory): " + name)
				return e.finish(s, call, deferCall, e.havocTuple(s, sig.Results(), fn.Name()))
			}
		}
	}
	if e.nondetName(name) {
		e.note("external (nondeterministic result, no effect on verified memory): " + name)
		return e.finish(s, call, deferCall, e.havocTuple(s, sig.Results(), fn.Name()))
	}
	e.note("external (deterministic, no effect on verified memory): " + name)
	res := e.pureCall(s, fn, name, args)
	e.externFacts(s, name, args, res)
	return e.finish(s, call, deferCall, res)
}

// externFacts: documented properties of a few library functions.
func (e *Eng) externFacts(s *State, name string, args, res []Val) {
	switch name {
	case "(*net/url.URL).ResolveReference", "(*net/url.URL).JoinPath", "net/url.User", "net/url.UserPassword":
		p, ok := res[0].(PtrV)
		if !ok || len(p.ref.bound) > 0 {
			return
		}
		e.note(name + " returns a non-nil pointer")
		e.fact(Not(Eq(p.ref, Num(0))))
		if name == "net/url.User" || name == "net/url.UserPassword" {
			pw, set := StrC(""), Bool(false)
			if len(args) == 2 {
				pw, set = args[1].(*T), Bool(true)
			}
			get := func(n string, t types.Type) *T { return e.pureVal(s, n, t, []*T{p.ref}).(*T) }
			e.note(name + " keeps the user name and the password")
			e.fact(Eq(get("(*net/url.Userinfo).Username_0", types.Typ[types.String]), args[0].(*T)))
			e.fact(Eq(get("(*net/url.Userinfo).Password_0", types.Typ[types.String]), pw))
			e.fact(Eq(get("(*net/url.Userinfo).Password_1", types.Typ[types.Bool]), set))
		}
	case "strings.Split":
		sep, ok := args[1].(*T)
		sv, ok2 := res[0].(SliceV)
		if !ok || !ok2 || sep.op != "strc" || sep.sval == "" {
			return
		}
		el := types.Typ[types.String]
		first := e.load(s, elemPtr(sv.arr, sv.off, el)).(*T)
		e.fact(Le(Num(1), sv.len))
		e.fact(Implies(Eq(sv.len, Num(1)), Eq(first, args[0].(*T))))
		e.note("strings.Split with a separator gives at least one part; a single part is the string itself; joining the parts gives the string back")
		e.fact(Eq(e.joinTerm(s, sv, sep), args[0].(*T)))
	}
}

// catFact states cond => t = c for a concatenation c, also where t is followed by more text.
func (e *Eng) catFact(cond, t, c *T) {
	e.fact(Implies(cond, Eq(t, c)))
	if len(t.bound) == 0 && len(c.bound) == 0 && t.op == "app" {
		r := FreshBoundAny("rest", SStr)
		e.fact(Forall([]*T{r}, Implies(cond, Eq(SConcat(t, r), SConcat(c, r))), SConcat(t, r)))
	}
}

// joinTerm is strings.Join(sv, sep) for strings, with its recursive facts.
func (e *Eng) joinTerm(s *State, sv SliceV, sep *T) *T {
	el := types.Typ[types.String]
	at := func(i *T) *T { return e.load(s, elemPtr(sv.arr, Add(sv.off, i), el)).(*T) }
	if sv.len.isNum() && sv.len.ival.Int64() <= 32 {
		var as []*T
		for i := int64(0); i < sv.len.ival.Int64(); i++ {
			if i > 0 {
				as = append(as, sep)
			}
			as = append(as, at(Num(i)))
		}
		return SConcat(as...)
	}
	j := func(n *T) *T {
		v := sv
		v.len = n
		return App("fn_strings.Join_0", SStr, e.seqTerm(s, v, el), sep)
	}
	t := j(sv.len)
	if len(t.bound) == 0 && !e.joinDone[t] {
		e.joinDone[t] = true
		n := sv.len
		e.fact(Implies(Eq(n, Num(0)), Eq(t, StrC(""))))
		e.fact(Implies(Eq(n, Num(1)), Eq(t, at(Num(0)))))
		e.catFact(Eq(n, Num(2)), t, SConcat(at(Num(0)), sep, at(Num(1))))
		last := Sub(n, Num(1))
		e.catFact(Le(Num(2), n), t, SConcat(j(last), sep, at(last)))
		e.fact(Implies(Eq(n, Num(2)), Eq(j(last), at(Num(0)))))
	}
	return t
}

func (e *Eng) special(s *State, fn *ssa.Function, name string, args []Val, call ssa.Value, deferCall bool) ([]*State, bool) {
	fin := func(s *State, v ...Val) ([]*State, bool) { return e.finish(s, call, deferCall, v), true }
	switch name {
	case "(*zz.errorString).Error":
		return fin(s, e.errorText(s, IfaceV{dyn: types.NewPointer(zzError), val: args[0]}))
	case "slices.Contains":
		if sv, ok := args[0].(SliceV); ok {
			el := fn.Signature.Params().At(1).Type()
			at := func(i *T) *T {
				return e.equal(s, e.load(s, elemPtr(sv.arr, Add(sv.off, i), el)), args[1], el, el)
			}
			if sv.len.isNum() && sv.len.ival.IsInt64() && sv.len.ival.Int64() <= 16 {
				var or []*T
				for i := int64(0); i < sv.len.ival.Int64(); i++ {
					or = append(or, at(Num(i)))
				}
				return fin(s, Or(or...))
			}
			k := FreshBoundAny("k", SInt)
			in := And(mk("<=", SBool, "", Num(0), k), Not(mk("<=", SBool, "", sv.len, k)))
			return fin(s, Not(Forall([]*T{k}, Implies(in, Not(at(k))))))
		}
	case "slices.Clip":
		if sv, ok := args[0].(SliceV); ok {
			return fin(s, SliceV{sv.arr, sv.off, sv.len, sv.len})
		}
	case "strings.ReplaceAll":
		return fin(s, e.pureResult(s, "strings.Replace", fn.Signature, append(args[:len(args):len(args)], Num(-1)), []types.Type{types.Typ[types.String], types.Typ[types.String], types.Typ[types.String], types.Typ[types.Int]})...)
	case "strings.Replace":
		if n := args[3].(*T); n.isNum() && n.ival.Sign() < 0 {
			args = []Val{args[0], args[1], args[2], Num(-1)}
			return fin(s, e.pureCall(s, fn, name, args)...)
		}
	case "strconv.Itoa":
		return fin(s, e.sprint(s, 'd', IfaceV{dyn: types.Typ[types.Int], val: args[0]}))
	case "strconv.FormatInt":
		if n := args[1].(*T); n.isNum() && n.ival.IsInt64() && n.ival.Int64() == 10 {
			return fin(s, e.sprint(s, 'd', IfaceV{dyn: types.Typ[types.Int64], val: args[0]}))
		}
	case "errors.New":
		return fin(s, e.newError(s, args[0].(*T), nil))
	case "fmt.Errorf":
		vs, ok := e.varargs(s, args[1], anyT)
		if !ok {
			break
		}
		msg, w := e.sprintf(s, args[0].(*T), vs)
		return fin(s, e.newError(s, msg, w))
	case "fmt.Sprintf":
		vs, ok := e.varargs(s, args[1], anyT)
		if !ok {
			break
		}
		msg, _ := e.sprintf(s, args[0].(*T), vs)
		return fin(s, msg)
	case "strings.Join":
		if sv, ok := args[0].(SliceV); ok {
			return fin(s, e.joinTerm(s, sv, args[1].(*T)))
		}
	case "fmt.Sprint":
		vs, ok := e.varargs(s, args[0], anyT)
		if ok && len(vs) == 1 {
			return fin(s, e.sprint(s, 'v', vs[0]))
		}
	case "errors.Unwrap":
		if iv := args[0].(IfaceV); iv.dyn != nil {
			if m := e.lookupMethod(iv.dyn, "Unwrap"); m != nil && len(m.Blocks) > 0 && m.Signature.Results().Len() == 1 && m.Signature.Results().At(0).Type().String() == "error" {
				return e.callFunc(s, FuncV{fn: m}, []Val{iv.val}, call, deferCall), true
			} else if m == nil {
				return fin(s, IfaceV{})
			}
		}
	case "errors.Is":
		return e.errorsIs(s, args[0].(IfaceV), args[1].(IfaceV), call, deferCall, 0), true
	case "errors.As":
		return e.errorsAs(s, args[0].(IfaceV), args[1].(IfaceV), call, deferCall, 0), true
	case "google.golang.org/protobuf/proto.Clone":
		if iv := args[0].(IfaceV); iv.dyn != nil {
			if pt, ok := types.Unalias(iv.dyn).(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
					p := iv.val.(PtrV)
					return e.fork(s, Eq(e.ptrTerm(p), Num(0)), func(s *State) []*State {
						return e.finish(s, call, deferCall, []Val{iv})
					}, func(s *State) []*State {
						q := e.allocObj(s, pt.Elem())
						e.cloneInto(s, p, q, pt.Elem())
						return e.finish(s, call, deferCall, []Val{IfaceV{dyn: iv.dyn, val: q}})
					}), true
				}
			}
		}
	case "errors.Join":
		vs, ok := e.varargs(s, args[0], types.Universe.Lookup("error").Type())
		if !ok {
			break
		}
		// concrete number of errors: drop the nils when decidable
		var ks []Val
		for _, v := range vs {
			iv := v.(IfaceV)
			if iv.t == nil && iv.dyn == nil {
				continue
			}
			ks = append(ks, v)
		}
		if len(ks) == 0 {
			return fin(s, IfaceV{})
		}
		p := e.allocObj(s, zzJoin)
		errT := types.Universe.Lookup("error").Type()
		arr := s.alloc()
		e.zeroElems(s, arr, errT)
		for i, v := range ks {
			e.store(s, elemPtr(arr, Num(int64(i)), errT), v)
		}
		n := Num(int64(len(ks)))
		e.store(s, PtrV{ref: p.ref, owner: zzJoin, path: ".Errs", typ: types.NewSlice(errT)}, SliceV{arr, Num(0), n, n})
		return fin(s, IfaceV{dyn: types.NewPointer(zzJoin), val: p})
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return e.lockOp(s, args[0].(PtrV), func(v *T) *T { return Eq(v, Num(0)) }, Num(-1), nil, "deadlock: Lock of a held lock", call, deferCall), true
	case "(*sync.RWMutex).RLock":
		return e.lockOp(s, args[0].(PtrV), func(v *T) *T { return Le(Num(0), v) }, nil, Num(1), "deadlock: RLock while write-locked", call, deferCall), true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return e.lockOp(s, args[0].(PtrV), func(v *T) *T { return Eq(v, Num(-1)) }, Num(0), nil, "unlock of unlocked mutex", call, deferCall), true
	case "(*sync.RWMutex).RUnlock":
		return e.lockOp(s, args[0].(PtrV), func(v *T) *T { return Lt(Num(0), v) }, nil, Num(-1), "RUnlock of unlocked mutex", call, deferCall), true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		p := args[0].(PtrV)
		l := e.leaves(p.typ)[0]
		v := e.loadLeaf(s, p, l)
		return e.fork(s, Eq(v, Num(0)), func(s *State) []*State {
			e.storeLeaf(s, p, l, Num(-1))
			return e.finish(s, call, deferCall, []Val{Bool(true)})
		}, func(s *State) []*State {
			return e.finish(s, call, deferCall, []Val{Bool(false)})
		}), true
	case "(*sync.Once).Do":
		p := args[0].(PtrV)
		l := e.leaves(p.typ)[0]
		v := e.loadLeaf(s, p, l)
		return e.fork(s, Eq(v, Num(0)), func(s *State) []*State {
			e.storeLeaf(s, p, l, Num(1))
			return e.callFunc(s, args[1].(FuncV), nil, call, deferCall)
		}, func(s *State) []*State {
			return e.finish(s, call, deferCall, nil)
		}), true
	case "reflect.TypeOf":
		return fin(s, IfaceV{t: e.rtype(args[0].(IfaceV))})
	case "reflect.ValueOf":
		return fin(s, App("rv", opaqueSort(fn.Signature.Results().At(0).Type()), e.ifaceTerm(args[0].(IfaceV))))
	case "reflect.Zero", "reflect.New":
		if ty := e.rtypeOf(args[0].(IfaceV)); ty != nil && name == "reflect.Zero" {
			iv := IfaceV{dyn: ty, val: e.zero(ty)}
			if _, isI := ty.Underlying().(*types.Interface); isI {
				iv = IfaceV{}
			}
			return fin(s, App("rv", opaqueSort(fn.Signature.Results().At(0).Type()), e.ifaceTerm(iv)))
		}
		iv := args[0].(IfaceV)
		if name == "reflect.Zero" {
			return e.guard(s, Not(Eq(e.ifaceTerm(iv), NilIface())), "reflect: Zero(nil)", func(s *State) []*State {
				z := App("zero_of_rtype", SIface, e.ifaceTerm(iv))
				return e.finish(s, call, deferCall, []Val{App("rv", opaqueSort(fn.Signature.Results().At(0).Type()), z)})
			}), true
		}
	case "(reflect.Value).Interface":
		if t := args[0].(*T); t.op == "app" && t.name == "rv" {
			return fin(s, e.ifaceVal(t.args[0]))
		}
	case "(reflect.Value).Kind", "(reflect.Value).IsValid", "(reflect.Value).Len":
	case "reflect.MakeSlice":
		if ty := e.rtypeOf(args[0].(IfaceV)); ty != nil {
			if sl, ok := types.Unalias(ty).Underlying().(*types.Slice); ok {
				l, c := args[1].(*T), args[2].(*T)
				r := s.alloc()
				e.zeroElems(s, r, sl.Elem())
				return fin(s, App("rv", opaqueSort(fn.Signature.Results().At(0).Type()), e.ifaceTerm(IfaceV{dyn: ty, val: SliceV{r, Num(0), l, c}})))
			}
		}
	case "reflect.Append":
		t := args[0].(*T)
		if t.op == "app" && t.name == "rv" {
			iv := e.ifaceVal(t.args[0]).(IfaceV)
			vs, ok := e.varargs(s, args[1], fn.Signature.Params().At(1).Type().(*types.Slice).Elem())
			if iv.dyn != nil && ok && len(vs) == 1 {
				sl, ok := types.Unalias(iv.dyn).Underlying().(*types.Slice)
				x := vs[0].(*T)
				if ok && x.op == "app" && x.name == "rv" {
					xv := e.ifaceVal(x.args[0]).(IfaceV)
					return e.reflectAppend(s, iv, sl, xv, opaqueSort(fn.Signature.Results().At(0).Type()), call, deferCall), true
				}
			}
		}
	case "context.WithTimeout", "context.WithDeadline", "context.WithCancel":
		c := App("ctx_derived", SIface, e.ifaceTerm(args[0].(IfaceV)), Fresh("ctxid", SInt))
		e.staticIface[c.id] = fn.Signature.Results().At(0).Type()
		e.fact(Not(Eq(c, NilIface())))
		e.note("external: " + name + " (result is a fresh non-nil context; its Done channel may close at any time)")
		cf := Fresh("oref_cancel", SInt)
		e.fact(Lt(Num(0), cf))
		return fin(s, IfaceV{t: c}, FuncV{t: cf})
	case "sort.Strings":
		if sv, ok := args[0].(SliceV); ok {
			if !e.sortStrings(s, sv) {
				e.sortStringsAny(s, sv)
			}
			return fin(s)
		}
	case "sort.Slice", "sort.SliceStable":
		if out, ok := e.sortSlice(s, name, args, call, deferCall, name == "sort.SliceStable"); ok {
			return out, true
		}
	}
	return nil, false
}

func (e *Eng) lockOp(s *State, p PtrV, pre func(*T) *T, set, delta *T, kind string, call ssa.Value, deferCall bool) []*State {
	return e.nilCheck(s, p, func(s *State) []*State {
		l := e.leaves(p.typ)[0]
		v := e.loadLeaf(s, p, l)
		return e.guard(s, pre(v), kind, func(s *State) []*State {
			if set != nil {
				e.storeLeaf(s, p, l, set)
			} else {
				e.storeLeaf(s, p, l, Add(v, delta))
			}
			return e.finish(s, call, deferCall, nil)
		})
	})
}

func (e *Eng) rtype(iv IfaceV) *T {
	if iv.t == nil && iv.dyn == nil {
		return NilIface()
	}
	if iv.t == nil {
		t := App("rtype", SIface, Num(e.tag(iv.dyn)))
		e.rtypeAxiom()
		return t
	}
	e.rtypeAxiom()
	return Ite(Eq(iv.t, NilIface()), NilIface(), App("rtype", SIface, App("tagof", SInt, iv.t)))
}

func (e *Eng) rtypeAxiom() {
	if e.implDone["rtype"] {
		return
	}
	e.implDone["rtype"] = true
	x := FreshBoundAny("t", SInt)
	t := App("rtype", SIface, x)
	e.fact(Forall([]*T{x}, And(Eq(App("rtype_inv", SInt, t), x), Not(Eq(t, NilIface()))), t))
}

func (e *Eng) rtypeOf(iv IfaceV) types.Type {
	if iv.t != nil && iv.t.op == "app" && iv.t.name == "rtype" && iv.t.args[0].isNum() {
		return e.tagTypes[iv.t.args[0].ival.Int64()]
	}
	return nil
}

// reflectAppend appends xv (dynamic value) to the slice held by iv.
func (e *Eng) reflectAppend(s *State, iv IfaceV, sl *types.Slice, xv IfaceV, rvSort Sort, call ssa.Value, deferCall bool) []*State {
	el := sl.Elem()
	do := func(s *State, v Val) []*State {
		arr := s.alloc()
		e.zeroElems(s, arr, el)
		e.store(s, elemPtr(arr, Num(0), el), v)
		ns := e.appendSlice(s, iv.val.(SliceV), SliceV{arr, Num(0), Num(1), Num(1)}, el)
		return e.finish(s, call, deferCall, []Val{App("rv", rvSort, e.ifaceTerm(IfaceV{dyn: iv.dyn, val: ns}))})
	}
	if _, ok := types.Unalias(el).Underlying().(*types.Interface); ok {
		if xv.t == nil && xv.dyn == nil {
			return e.rtPanic(s, "reflect: zero Value")
		}
		return do(s, xv)
	}
	if xv.t == nil {
		if xv.dyn == nil || !types.Identical(xv.dyn, el) {
			return e.rtPanic(s, "reflect: value of wrong type")
		}
		return do(s, xv.val)
	}
	return e.guard(s, Eq(App("tagof", SInt, xv.t), Num(e.tag(types.Unalias(el)))), "reflect: value of wrong type", func(s *State) []*State {
		v, f := e.unboxAs(xv.t, types.Unalias(el))
		s.assume(f)
		return do(s, v)
	})
}

func (e *Eng) errorsIs(s *State, err, target IfaceV, call ssa.Value, deferCall bool, depth int) []*State {
	var formula func(err IfaceV, d int) *T
	var push []*State
	formula = func(err IfaceV, d int) *T {
		if err.t == nil && err.dyn == nil {
			return Bool(target.t == nil && target.dyn == nil)
		}
		eq := e.ifaceEq(s, err, target)
		if err.t != nil {
			if err.t.op == "ite" {
				return Ite(err.t.args[0], formula(e.ifaceVal(err.t.args[1]).(IfaceV), d), formula(e.ifaceVal(err.t.args[2]).(IfaceV), d))
			}
			return Or(eq, App("errors_is", SBool, err.t, e.ifaceTerm(target)))
		}
		if d > 6 {
			panic(unsupported("errors.Is depth"))
		}
		if isZZ(err.dyn, zzError) {
			p := err.val.(PtrV)
			w := e.load(s, PtrV{ref: p.ref, owner: zzError, path: ".Wrapped", typ: types.Universe.Lookup("error").Type()}).(IfaceV)
			if w.t == nil && w.dyn == nil {
				return eq
			}
			return Or(eq, formula(w, d+1))
		}
		if isZZ(err.dyn, zzJoin) {
			p := err.val.(PtrV)
			errT := types.Universe.Lookup("error").Type()
			sv := e.load(s, PtrV{ref: p.ref, owner: zzJoin, path: ".Errs", typ: types.NewSlice(errT)})
			vs, ok := e.varargs(s, sv, errT)
			if !ok {
				panic(unsupported("errors.Is on joined errors"))
			}
			r := eq
			for _, v := range vs {
				r = Or(r, formula(v.(IfaceV), d+1))
			}
			return r
		}
		if e.lookupMethod(err.dyn, "Is") != nil {
			eq = Or(eq, App("errors_is", SBool, e.ifaceTerm(err), e.ifaceTerm(target)))
		}
		// types with Unwrap() error in verified code: run the method
		if m := e.lookupMethod(err.dyn, "Unwrap"); m != nil {
			outs := e.pureRun(s, m, []Val{err.val})
			if len(outs) == 1 {
				return Or(eq, formula(outs[0].(IfaceV), d+1))
			}
			panic(unsupported("errors.Is through Unwrap"))
		}
		return eq
	}
	r := formula(err, depth)
	_ = push
	return e.finish(s, call, deferCall, []Val{r})
}

// cloneInto copies a message: scalar and pointer fields by value (messages they
// point to are treated as immutable), slices into arrays of their own.
func (e *Eng) cloneInto(s *State, p, q PtrV, t types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.store(s, q, e.load(s, p))
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		a := PtrV{ref: p.ref, owner: p.owner, path: p.path + fieldPath(st, i), typ: ft, idx: p.idx}
		b := PtrV{ref: q.ref, owner: q.owner, path: q.path + fieldPath(st, i), typ: ft, idx: q.idx}
		if isProtoStruct(st) && !st.Field(i).Exported() {
			continue
		}
		v := e.load(s, a)
		if sv, ok := v.(SliceV); ok {
			el := types.Unalias(ft).Underlying().(*types.Slice).Elem()
			v = e.appendSlice(s, SliceV{Num(0), Num(0), Num(0), Num(0)}, sv, el)
		}
		e.store(s, b, v)
	}
}

// errorsAs: errors.As(err, target) where target points to a variable of a
// known type.
func (e *Eng) errorsAs(s *State, err, target IfaceV, call ssa.Value, deferCall bool, d int) []*State {
	ret := func(s *State, b bool) []*State { return e.finish(s, call, deferCall, []Val{Bool(b)}) }
	pt, ok := types.Unalias(target.dyn).(*types.Pointer)
	if target.dyn == nil || !ok {
		panic(unsupported("errors.As target"))
	}
	if err.t == nil && err.dyn == nil {
		return ret(s, false)
	}
	tt := pt.Elem()
	tp := target.val.(PtrV)
	if err.t != nil {
		if err.t.op == "ite" {
			return e.fork(s, err.t.args[0], func(s *State) []*State {
				return e.errorsAs(s, e.ifaceVal(err.t.args[1]).(IfaceV), target, call, deferCall, d)
			}, func(s *State) []*State {
				return e.errorsAs(s, e.ifaceVal(err.t.args[2]).(IfaceV), target, call, deferCall, d)
			})
		}
		return e.fork(s, Eq(err.t, NilIface()), func(s *State) []*State { return ret(s, false) }, func(s *State) []*State {
			e.note("errors.As on an unknown error: an arbitrary outcome that depends only on the error")
			c := App("errors_as_"+sanitize(typeKey(tt)), SBool, err.t)
			return e.fork(s, c, func(s *State) []*State {
				v := e.pureVal(s, "errors_as_val_"+sanitize(typeKey(tt)), tt, []*T{err.t})
				if iv, ok := v.(IfaceV); ok {
					s.assume(Not(Eq(e.ifaceTerm(iv), NilIface())))
				}
				e.store(s, tp, v)
				return ret(s, true)
			}, func(s *State) []*State { return ret(s, false) })
		})
	}
	if d > 8 {
		panic(unsupported("errors.As depth"))
	}
	hit := false
	if it, ok := tt.Underlying().(*types.Interface); ok {
		hit = !isZZ(err.dyn, zzError) && !isZZ(err.dyn, zzJoin) && types.Implements(err.dyn, it)
	} else {
		hit = types.Identical(types.Unalias(err.dyn), types.Unalias(tt))
	}
	if hit {
		if _, ok := tt.Underlying().(*types.Interface); ok {
			e.store(s, tp, err)
		} else {
			e.store(s, tp, err.val)
		}
		return ret(s, true)
	}
	errT := types.Universe.Lookup("error").Type()
	if isZZ(err.dyn, zzError) {
		p := err.val.(PtrV)
		w := e.load(s, PtrV{ref: p.ref, owner: zzError, path: ".Wrapped", typ: errT}).(IfaceV)
		return e.errorsAs(s, w, target, call, deferCall, d+1)
	}
	if isZZ(err.dyn, zzJoin) {
		panic(unsupported("errors.As on joined errors"))
	}
	if e.lookupMethod(err.dyn, "As") != nil {
		panic(unsupported("errors.As with an As method"))
	}
	if m := e.lookupMethod(err.dyn, "Unwrap"); m != nil {
		outs := e.pureRun(s, m, []Val{err.val})
		if len(outs) == 1 {
			return e.errorsAs(s, outs[0].(IfaceV), target, call, deferCall, d+1)
		}
		panic(unsupported("errors.As through Unwrap"))
	}
	return ret(s, false)
}

func (e *Eng) lookupMethod(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		if n, ok := t.(*types.Pointer); ok {
			if nn, ok := n.Elem().(*types.Named); ok && nn.Obj().Pkg() != nil {
				sel = ms.Lookup(nn.Obj().Pkg(), name)
			}
		}
	}
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// pureRun runs a function without side effects on a copy of the state and
// returns its single result set.
func (e *Eng) pureRun(s *State, fn *ssa.Function, args []Val) []Val {
	n := s.clone()
	depth := len(n.frames)
	e.push(n, fn, nil, args, nil, false)
	f := n.top()
	f.barrier = true
	var res []Val
	got := false
	f.cont = func(st *State, r []Val) { res = r; got = true }
	ends := e.explore(n, func(st *State) bool { return len(st.frames) <= depth })
	if len(ends) != 1 || !got || res == nil {
		return nil
	}
	return res
}
