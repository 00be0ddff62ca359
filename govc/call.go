package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) callee(s *State, f *Frame, c *ssa.CallCommon) (FuncV, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.get(s, f, a))
	}
	if c.IsInvoke() {
		return FuncV{recv: e.get(s, f, c.Value), meth: c.Method}, args
	}
	fv, ok := e.get(s, f, c.Value).(FuncV)
	if !ok {
		panic(unsupported("call of non-function"))
	}
	return fv, args
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// finish delivers the results of a call that did not push a frame.
func (e *Eng) finish(s *State, call ssa.Value, deferCall bool, res []Val) []*State {
	if deferCall {
		return one(s)
	}
	g := s.top()
	e.setResult(s, g, call, res)
	g.ip++
	return one(s)
}

func (e *Eng) push(s *State, fn *ssa.Function, bind, args []Val, call ssa.Value, deferCall bool) []*State {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	if len(s.frames) > 120 {
		panic(unsupported("call depth"))
	}
	n := 0
	for _, fr := range s.frames {
		if fr.fn == fn {
			n++
		}
	}
	if n > e.recLimit {
		panic(unsupported("recursion: " + fn.String()))
	}
	e.frameSeq++
	f := &Frame{id: e.frameSeq, fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]Val{}, free: bind, call: call, deferCall: deferCall}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arity of %s: %d args", fn, len(args))))
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	s.frames = append(s.frames, f)
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil { // an instance of a generic function
		pkg = fn.Origin().Pkg
	}
	if pkg != nil && e.rootPkg[pkg.Pkg.Path()] && e.suppress == 0 {
		e.funcsSeen[originName(fn)] = true
		e.fnsSeen[fn] = true
	}
	return one(s)
}

func (e *Eng) callFunc(s *State, fn FuncV, args []Val, call ssa.Value, deferCall bool) []*State {
	switch {
	case fn.bi != nil:
		return e.builtin(s, fn.bi, args, call, deferCall)
	case fn.meth != nil:
		return e.invoke(s, fn, args, call, deferCall)
	case fn.fn != nil:
		return e.callStatic(s, fn.fn, fn.bind, args, call, deferCall)
	case fn.t != nil:
		if fn.t.isNum() && fn.t.ival.Sign() == 0 {
			return e.rtPanic(s, "nil pointer dereference")
		}
		if fn.t.op == "ite" {
			return e.fork(s, fn.t.args[0], func(s *State) []*State {
				return e.callFunc(s, e.funcVal(fn.t.args[1]).(FuncV), args, call, deferCall)
			}, func(s *State) []*State {
				return e.callFunc(s, e.funcVal(fn.t.args[2]).(FuncV), args, call, deferCall)
			})
		}
		e.note("call of an unknown function value: assumed to return without panicking and to change no memory of the verified code")
		var rs *types.Tuple
		if call != nil {
			if t, ok := call.Type().(*types.Tuple); ok {
				rs = t
			} else {
				rs = types.NewTuple(types.NewVar(0, nil, "", call.Type()))
			}
		}
		return e.finish(s, call, deferCall, e.havocTuple(s, rs, "dyn"))
	}
	panic(unsupported("call"))
}

func (e *Eng) isRoot(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return e.rootPkg[fn.Pkg.Pkg.Path()]
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return e.rootPkg[o.Pkg.Pkg.Path()]
	}
	// synthetic wrappers (bound methods, promoted methods, thunks)
	return len(fn.Blocks) > 0
}

func (e *Eng) callStatic(s *State, fn *ssa.Function, bind, args []Val, call ssa.Value, deferCall bool) []*State {
	name := originName(fn)
	if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zzvrt") || fn.Origin() != nil && fn.Origin().Pkg != nil && strings.HasSuffix(fn.Origin().Pkg.Pkg.Path(), "/zzvrt") {
		if out, ok := e.intrinsic(s, fn, name[strings.LastIndex(name, ".")+1:], args, call, deferCall); ok {
			return out
		}
	}
	if m := e.models[name]; m != nil {
		if inst := e.modelFor(m, fn); inst != nil {
			e.note("model: " + name + " is represented by " + m.String())
			return e.push(s, inst, nil, args, call, deferCall)
		}
	}
	if m := e.induct[name]; m != nil {
		for _, fr := range s.frames {
			if originName(fr.fn) == name {
				e.note("induction: recursive calls of " + name + " are represented by their contract " + m.String() + " (termination is not proved)")
				return e.push(s, m, nil, args, call, deferCall)
			}
		}
	}
	if e.abstract[name] {
		e.note("callee contract: " + name + " is used through its specification (deterministic result of its arguments)")
		return e.finish(s, call, deferCall, e.pureCall(s, fn, name, args))
	}
	if res, ok := e.fold(s, name, args); ok {
		return e.finish(s, call, deferCall, res)
	}
	if out, ok := e.special(s, fn, name, args, call, deferCall); ok {
		return out
	}
	if e.isRoot(fn) && len(fn.Blocks) > 0 {
		return e.push(s, fn, bind, args, call, deferCall)
	}
	return e.extern(s, fn, name, args, call, deferCall)
}

func (e *Eng) modelFor(m, fn *ssa.Function) *ssa.Function {
	if m.TypeParams().Len() == 0 {
		return m
	}
	return nil
}

func (e *Eng) invoke(s *State, fn FuncV, args []Val, call ssa.Value, deferCall bool) []*State {
	iv := fn.recv.(IfaceV)
	if iv.t == nil && iv.dyn == nil {
		return e.rtPanic(s, "nil pointer dereference")
	}
	if iv.t == nil {
		m := e.prog.LookupMethod(iv.dyn, fn.meth.Pkg(), fn.meth.Name())
		if m == nil {
			panic(unsupported("method " + fn.meth.Name() + " of " + iv.dyn.String()))
		}
		return e.callStatic(s, m, nil, append([]Val{iv.val}, args...), call, deferCall)
	}
	if iv.t.op == "ite" {
		return e.fork(s, iv.t.args[0], func(s *State) []*State {
			g := fn
			g.recv = e.ifaceVal(iv.t.args[1])
			return e.invoke(s, g, args, call, deferCall)
		}, func(s *State) []*State {
			g := fn
			g.recv = e.ifaceVal(iv.t.args[2])
			return e.invoke(s, g, args, call, deferCall)
		})
	}
	name := "(" + ifaceMethodOwner(fn.meth) + ")." + fn.meth.Name()
	if m := e.models[name]; m != nil {
		return e.push(s, m, nil, append([]Val{iv}, args...), call, deferCall)
	}
	sig := fn.meth.Type().(*types.Signature)
	if e.nondetName(name) || fn.meth.Name() == "ContextEval" {
		e.note("external (nondeterministic result, no effect on verified memory): " + name)
		return e.finish(s, call, deferCall, e.havocTuple(s, sig.Results(), fn.meth.Name()))
	}
	e.note("external (deterministic, no effect on verified memory): " + name)
	return e.finish(s, call, deferCall, e.pureResult(s, name, sig, append([]Val{iv}, args...), append([]types.Type{nil}, tupleTypes(sig.Params())...)))
}

func ifaceMethodOwner(m *types.Func) string {
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		return typeKey(r.Type())
	}
	return "?"
}

func tupleTypes(t *types.Tuple) []types.Type {
	var out []types.Type
	for i := 0; t != nil && i < t.Len(); i++ {
		out = append(out, t.At(i).Type())
	}
	return out
}

// havoc values
func (e *Eng) havoc(s *State, t types.Type, hint string) Val {
	var ts []*T
	for _, l := range e.leaves(t) {
		pre := ""
		if l.typ != nil && l.sort == SInt && (l.comp == "" || l.comp == "arr") {
			switch types.Unalias(l.typ).Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Signature:
				pre = "oref_" // an object the verified code did not allocate
			}
		}
		x := Fresh(pre+hint+l.path, l.sort)
		e.leafFact(x, l)
		e.oldRefFact(x, l)
		ts = append(ts, x)
	}
	v := e.unflat(t, ts)
	if sv, ok := v.(SliceV); ok {
		e.fact(And(Le(sv.len, sv.cap), Eq(sv.off, Num(0))))
		sv.off = Num(0)
		return sv
	}
	if iv, ok := v.(IfaceV); ok && iv.t != nil {
		e.ifaceFact(iv.t, t)
	}
	return v
}

func (e *Eng) oldRefFact(x *T, l leaf) {
	if l.typ == nil || x.sort != SInt || (l.comp != "" && l.comp != "arr") || len(x.bound) > 0 {
		return
	}
	switch types.Unalias(l.typ).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Signature:
		e.fact(Le(Num(0), x))
	}
}

func (e *Eng) ifaceFact(t *T, it types.Type) {
	if isEmptyIface(it) || len(t.bound) > 0 {
		return
	}
	e.staticIface[t.id] = it
	e.fact(Or(Eq(t, NilIface()), e.implTerm(it, t)))
}

func (e *Eng) havocTuple(s *State, rs *types.Tuple, hint string) []Val {
	var out []Val
	for i := 0; rs != nil && i < rs.Len(); i++ {
		out = append(out, e.havoc(s, rs.At(i).Type(), hint))
	}
	e.errConvention(s, rs, out)
	return out
}

// errConvention: functions returning (pointer..., error) return a non-nil
// pointer when the error is nil.
func (e *Eng) errConvention(s *State, rs *types.Tuple, out []Val) {
	if rs == nil || rs.Len() < 2 {
		return
	}
	last := rs.At(rs.Len() - 1).Type()
	if last.String() != "error" {
		return
	}
	ev := e.ifaceTerm(out[rs.Len()-1].(IfaceV))
	for i := 0; i < rs.Len()-1; i++ {
		if p, ok := out[i].(PtrV); ok {
			e.factOrAssume(s, Or(Not(Eq(ev, NilIface())), Not(Eq(p.ref, Num(0)))))
		}
		if p, ok := out[i].(IfaceV); ok && p.t != nil && !isEmptyIface(rs.At(i).Type()) {
			e.factOrAssume(s, Or(Not(Eq(ev, NilIface())), Not(Eq(p.t, NilIface()))))
		}
	}
	e.note("external functions returning (pointer, error) return a non-nil pointer with a nil error")
}

func (e *Eng) factOrAssume(s *State, t *T) {
	if len(t.bound) > 0 {
		s.assume(t)
		return
	}
	e.fact(t)
}

// argTerms flattens call arguments into terms for a pure function.
func (e *Eng) argTerms(s *State, v Val, t types.Type) []*T {
	switch x := v.(type) {
	case SliceV:
		el := types.Unalias(t).Underlying().(*types.Slice).Elem()
		return []*T{e.seqTerm(s, x, el)}
	case StructV:
		var out []*T
		st := x.typ.Underlying().(*types.Struct)
		for i, f := range x.fs {
			out = append(out, e.argTerms(s, f, st.Field(i).Type())...)
		}
		return out
	case IfaceV:
		if x.dyn != nil {
			if sl, ok := types.Unalias(x.dyn).Underlying().(*types.Slice); ok {
				return []*T{App("boxseq_"+sanitize(typeKey(x.dyn)), SIface, e.seqTerm(s, x.val.(SliceV), sl.Elem()))}
			}
		}
		return []*T{e.ifaceTerm(x)}
	case PtrV:
		if byContent[typeKey(x.typ)] && x.idx == nil && x.path == "" {
			// the callee only reads the object
			out := []*T{Eq(x.ref, Num(0))}
			return append(out, e.argTerms(s, e.load(s, x), x.typ)...)
		}
	case nil:
		return nil
	}
	return e.flat(v, t)
}

// byContent: types whose objects external functions only read, so that the
// result depends on the contents and not on the address.
var byContent = map[string]bool{"net/url.URL": true}

func (e *Eng) pureCall(s *State, fn *ssa.Function, name string, args []Val) []Val {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	if len(fn.Params) == 0 { // external: no params listed
		sig := fn.Signature
		if sig.Recv() != nil {
			ts = append(ts, sig.Recv().Type())
		}
		ts = append(ts, tupleTypes(sig.Params())...)
	}
	return e.pureResult(s, name, fn.Signature, args, ts)
}

// pureResult yields uninterpreted results depending only on the arguments.
func (e *Eng) pureResult(s *State, name string, sig *types.Signature, args []Val, ts []types.Type) []Val {
	var as []*T
	for i, a := range args {
		var t types.Type
		if i < len(ts) {
			t = ts[i]
		}
		as = append(as, e.argTerms(s, a, t)...)
	}
	rs := sig.Results()
	var out []Val
	for i := 0; i < rs.Len(); i++ {
		out = append(out, e.pureVal(s, fmt.Sprintf("%s_%d", name, i), rs.At(i).Type(), as))
	}
	e.errConvention(s, rs, out)
	return out
}

func (e *Eng) pureVal(s *State, name string, t types.Type, as []*T) Val {
	if sl, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
		sq := App("fn_"+name, SSeq, as...)
		return e.seqSlice(s, sq, sl.Elem())
	}
	if st, ok := types.Unalias(t).Underlying().(*types.Struct); ok && !e.opaqueStruct(t) {
		sv := StructV{typ: types.Unalias(t)}
		for i := 0; i < st.NumFields(); i++ {
			sv.fs = append(sv.fs, e.pureVal(s, name+fieldPath(st, i), st.Field(i).Type(), as))
		}
		return sv
	}
	var out []*T
	for _, l := range e.leaves(t) {
		pre := "fn_"
		if l.typ != nil && l.sort == SInt {
			switch types.Unalias(l.typ).Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
				pre = "oref_"
			}
		}
		x := App(pre+name+l.path, l.sort, as...)
		if len(x.bound) == 0 {
			e.leafFact(x, l)
		} else {
			e.famFact(x, l)
		}
		if pre == "oref_" {
			e.famRefFact(x)
		}
		if l.sort == SIface {
			e.ifaceFact(x, l.typ)
		}
		out = append(out, x)
	}
	return e.unflat(t, out)
}

// famFact states the type constraint of a whole function.
func (e *Eng) famFact(x *T, l leaf) {
	if e.implDone["fam:"+x.name] || len(x.args) == 0 {
		return
	}
	e.implDone["fam:"+x.name] = true
	var vs []*T
	for _, a := range x.args {
		vs = append(vs, FreshBoundAny("a", a.sort))
	}
	y := App(x.name, x.sort, vs...)
	e.fact(Forall(vs, typeFact(y, l), y))
}

func (e *Eng) famRefFact(x *T) {
	if e.implDone["famr:"+x.name] {
		return
	}
	e.implDone["famr:"+x.name] = true
	if len(x.args) == 0 {
		e.fact(mk("<=", SBool, "", Num(0), x))
		return
	}
	var vs []*T
	for _, a := range x.args {
		vs = append(vs, FreshBoundAny("a", a.sort))
	}
	y := mk("app", x.sort, x.name, vs...)
	e.fact(Forall(vs, mk("<=", SBool, "", Num(0), y), y))
}

// ---- builtins
func (e *Eng) builtin(s *State, b *ssa.Builtin, args []Val, call ssa.Value, deferCall bool) []*State {
	fin := func(s *State, v ...Val) []*State { return e.finish(s, call, deferCall, v) }
	var argT func(i int) types.Type
	argT = func(i int) types.Type {
		c := call.(*ssa.Call)
		return c.Call.Args[i].Type()
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return fin(s, x.len)
		case *T:
			if mt, ok := types.Unalias(argT(0)).Underlying().(*types.Map); ok {
				return fin(s, e.mapLen(s, x, mt))
			}
			if _, ok := types.Unalias(argT(0)).Underlying().(*types.Chan); ok {
				return fin(s, Num(int64(len(s.chans[x.ival.String()].buf))))
			}
			return fin(s, SLen(x))
		case ArrV:
			return fin(s, Num(types.Unalias(x.typ).Underlying().(*types.Array).Len()))
		case PtrV:
			return fin(s, Num(types.Unalias(x.typ).Underlying().(*types.Array).Len()))
		}
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			return fin(s, x.cap)
		}
	case "append":
		a, ok1 := args[0].(SliceV)
		if !ok1 {
			break
		}
		el := types.Unalias(argT(0)).Underlying().(*types.Slice).Elem()
		var bs SliceV
		switch x := args[1].(type) {
		case SliceV:
			bs = x
		case *T:
			bs = e.strToSlice(s, x, el)
		}
		if bs.len.isNum() && bs.len.ival.Sign() == 0 {
			return fin(s, a)
		}
		if e.preciseAppend && !(a.len.isNum() && a.len.ival.Sign() == 0 && a.cap.isNum() && a.cap.ival.Sign() == 0) {
			return e.fork(s, Le(Add(a.len, bs.len), a.cap), func(s *State) []*State {
				// in place
				if !bs.len.isNum() {
					panic(unsupported("in-place append of unknown length"))
				}
				for _, l := range e.leaves(el) {
					k := elemKey(el, l.path)
					h := e.heapArr(s, k, arrSort(SInt, l.sort))
					src := Select(h, bs.arr)
					c := Select(h, a.arr)
					for j := int64(0); j < bs.len.ival.Int64(); j++ {
						c = Store(c, Add(Add(a.off, a.len), Num(j)), Select(src, Add(bs.off, Num(j))))
					}
					s.heap[k] = Store(h, a.arr, c)
				}
				return fin(s, SliceV{a.arr, a.off, Add(a.len, bs.len), a.cap})
			}, func(s *State) []*State {
				return fin(s, e.appendSlice(s, a, bs, el))
			})
		}
		return fin(s, e.appendSlice(s, a, bs, el))
	case "copy":
		dst := args[0].(SliceV)
		src, ok := args[1].(SliceV)
		if !ok {
			break
		}
		el := types.Unalias(argT(0)).Underlying().(*types.Slice).Elem()
		n := Ite(Le(src.len, dst.len), src.len, dst.len)
		for _, l := range e.leaves(el) {
			k := elemKey(el, l.path)
			h := e.heapArr(s, k, arrSort(SInt, l.sort))
			sa, da := Select(h, arrBase(src.arr)), Select(h, arrBase(dst.arr))
			x := FreshBoundAny("c", SInt)
			body := Ite(And(Le(dst.off, x), Lt(x, Add(dst.off, n))), Select(sa, Add(src.off, Sub(x, dst.off))), Select(da, x))
			s.heap[k] = Store(h, arrBase(dst.arr), Lam(x, body))
		}
		return fin(s, n)
	case "delete":
		mt := types.Unalias(argT(0)).Underlying().(*types.Map)
		e.mapDelete(s, args[0].(*T), mt, args[1])
		return fin(s)
	case "recover":
		n := len(s.frames)
		if n >= 2 && s.top().deferCall && s.frames[n-2].pan != nil && !s.frames[n-2].recovered {
			g := s.frames[n-2]
			g.recovered = true
			v := g.pan.val
			if v == nil {
				v = IfaceV{}
			}
			return fin(s, v)
		}
		return fin(s, IfaceV{})
	case "print", "println":
		return fin(s)
	case "close":
		c := s.chans[args[0].(*T).ival.String()]
		c.closed = true
		return fin(s)
	case "min", "max":
		if len(args) == 2 {
			a, ok := args[0].(*T)
			b2 := args[1].(*T)
			if ok && a.sort == SInt {
				if b.Name() == "min" {
					return fin(s, Ite(Le(a, b2), a, b2))
				}
				return fin(s, Ite(Le(a, b2), b2, a))
			}
		}
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		return e.nilCheck(s, p, func(s *State) []*State { return fin(s, p) })
	case "ssa:deferstack":
		return fin(s, Num(0))
	case "complex":
		return fin(s, App("cplx", Sort("Ob_complex128"), args[0].(*T), args[1].(*T)))
	case "real", "imag":
		c := args[0].(*T)
		if c.op == "app" && c.name == "cplx" {
			if b.Name() == "real" {
				return fin(s, c.args[0])
			}
			return fin(s, c.args[1])
		}
		return fin(s, App("cplx_"+b.Name(), SF64, c))
	}
	panic(unsupported("builtin " + b.Name()))
}

// ---- goroutines and channels
func (e *Eng) checkSwitch() {
	if e.noSwitch > 0 {
		panic(unsupported("goroutine switch inside a loop"))
	}
}

func (e *Eng) spawn(s *State, fn FuncV, args []Val) []*State {
	e.checkSwitch()
	if fn.fn == nil || len(fn.fn.Blocks) == 0 {
		panic(unsupported("go of external function"))
	}
	e.frameSeq++
	f := &Frame{id: e.frameSeq, fn: fn.fn, blk: fn.fn.Blocks[0], env: map[ssa.Value]Val{}, free: fn.bind}
	for i, p := range fn.fn.Params {
		f.env[p] = args[i]
	}
	th := &Thread{frames: []*Frame{f}}
	s2 := s.clone()
	// schedule 1: the new goroutine starts at the next blocking point
	s.others = append(s.others, th)
	// schedule 2: it runs right away
	th2 := th.clone()
	s2.others = append(s2.others, th2)
	e.note("goroutines are interleaved at blocking operations and at their start only")
	return []*State{s, e.switchTo(s2, len(s2.others)-1)}
}

// switchTo suspends the current thread (not finished) and resumes others[i].
func (e *Eng) switchTo(s *State, i int) *State {
	e.checkSwitch()
	cur := &Thread{frames: s.frames, main: s.curMain()}
	n := s.others[i]
	s.others = append(append([]*Thread{}, s.others[:i]...), s.others[i+1:]...)
	s.others = append(s.others, cur)
	s.frames = n.frames
	s.notMain = !n.main
	return s
}

func (s *State) curMain() bool { return !s.notMain }

// threadDone: the current thread's bottom frame returned.
func (e *Eng) threadDone(s *State) []*State {
	e.checkSwitch()
	if s.notMain {
		// resume another thread
		if len(s.others) == 0 {
			s.done = true
			return one(s)
		}
		for i, t := range s.others {
			if t.main {
				s.frames = t.frames
				s.notMain = false
				s.others = append(append([]*Thread{}, s.others[:i]...), s.others[i+1:]...)
				for _, o := range s.others {
					o.blocked = false
				}
				return one(s)
			}
		}
		// main has finished: drain the rest
		return e.drain(s)
	}
	s.mainDone = true
	return e.drain(s)
}

// drain runs the remaining goroutines after the main function returned.
func (e *Eng) drain(s *State) []*State {
	for i, t := range s.others {
		if !t.blocked {
			s.frames = t.frames
			s.notMain = true
			s.others = append(append([]*Thread{}, s.others[:i]...), s.others[i+1:]...)
			return one(s)
		}
	}
	s.done = true
	return one(s)
}

// block suspends the current thread; returns the states that go on.
func (e *Eng) block(s *State) []*State {
	e.checkSwitch()
	cur := &Thread{frames: s.frames, main: !s.notMain, blocked: true}
	var outs []*State
	for i, t := range s.others {
		if t.blocked {
			continue
		}
		n := s.clone()
		th := n.others[i]
		n.others = append(append([]*Thread{}, n.others[:i]...), n.others[i+1:]...)
		n.others = append(n.others, cur.clone())
		n.frames = th.frames
		n.notMain = !th.main
		outs = append(outs, n)
	}
	if len(outs) > 0 {
		return outs
	}
	if s.notMain && s.mainDone {
		s.others = append(s.others, cur)
		s.leaked++
		return e.drain(s)
	}
	s.done = true
	s.deadlock = true
	return one(s)
}

func (s *State) wake() {
	for _, t := range s.others {
		t.blocked = false
	}
}

func (e *Eng) send(s *State, f *Frame, i *ssa.Send) []*State {
	ct := e.get(s, f, i.Chan).(*T)
	if !ct.isNum() {
		panic(unsupported("send on unknown channel"))
	}
	c := s.chans[ct.ival.String()]
	if c == nil {
		panic(unsupported("send on unknown channel"))
	}
	if c.closed {
		return e.rtPanic(s, "send on closed channel")
	}
	v := e.get(s, f, i.X)
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		s.wake()
		f.ip++
		return one(s)
	}
	if c.cap == 0 && len(c.buf) == 0 {
		// rendezvous: possible when another thread waits to receive on it
		for _, t := range s.others {
			if t.blocked && waitsOn(e, s, t, ct) {
				c.buf = append(c.buf, v)
				s.wake()
				f.ip++
				return one(s)
			}
		}
	}
	return e.block(s)
}

func waitsOn(e *Eng, s *State, t *Thread, ch *T) bool {
	f := t.frames[len(t.frames)-1]
	switch i := f.blk.Instrs[f.ip].(type) {
	case *ssa.UnOp:
		x, _ := f.env[i.X].(*T)
		return x == ch
	case *ssa.Select:
		for _, st := range i.States {
			if st.Dir == types.RecvOnly {
				if x, _ := f.env[st.Chan].(*T); x == ch {
					return true
				}
				if e.getIn(s, f, st.Chan) == ch {
					return true
				}
			}
		}
	}
	return false
}

func (e *Eng) getIn(s *State, f *Frame, v ssa.Value) (t *T) {
	defer func() { recover() }()
	x, _ := e.get(s, f, v).(*T)
	return x
}

func (e *Eng) recv(s *State, f *Frame, i *ssa.UnOp) []*State {
	ct := e.get(s, f, i.X).(*T)
	el := types.Unalias(i.X.Type()).Underlying().(*types.Chan).Elem()
	set := func(s *State, v Val, ok bool) []*State {
		g := s.top()
		if i.CommaOk {
			g.env[i] = TupleV{v, Bool(ok)}
		} else {
			g.env[i] = v
		}
		g.ip++
		return one(s)
	}
	if !ct.isNum() || s.chans[ct.ival.String()] == nil {
		// foreign channel: may deliver at any time
		var outs []*State
		for _, o := range e.blockVariants(s) {
			outs = append(outs, o)
		}
		return append(outs, set(s, e.havoc(s, el, "recv"), true)...)
	}
	c := s.chans[ct.ival.String()]
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		s.wake()
		return set(s, v, true)
	}
	if c.closed {
		return set(s, e.zero(el), false)
	}
	return e.block(s)
}

// blockVariants lets other runnable threads go first.
func (e *Eng) blockVariants(s *State) []*State {
	for _, t := range s.others {
		if !t.blocked {
			n := s.clone()
			return e.block(n)
		}
	}
	return nil
}

func (e *Eng) selectStmt(s *State, f *Frame, i *ssa.Select) []*State {
	type ready struct {
		idx int
	}
	var outs []*State
	// other runnable threads may run first
	outs = append(outs, e.blockVariants(s)...)
	recvTypes := func() []types.Type {
		var ts []types.Type
		for _, st := range i.States {
			if st.Dir == types.RecvOnly {
				ts = append(ts, types.Unalias(st.Chan.Type()).Underlying().(*types.Chan).Elem())
			}
		}
		return ts
	}()
	mkRes := func(s *State, idx int, v Val, ok bool) *State {
		g := s.top()
		tv := TupleV{Num(int64(idx)), Bool(ok)}
		n := 0
		for k, st := range i.States {
			if st.Dir == types.RecvOnly {
				if k == idx {
					tv = append(tv, v)
				} else {
					tv = append(tv, e.zero(recvTypes[n]))
				}
				n++
			}
		}
		g.env[i] = tv
		g.ip++
		return s
	}
	any := false
	for k, st := range i.States {
		ct := e.get(s, f, st.Chan).(*T)
		if st.Dir != types.RecvOnly {
			panic(unsupported("select send"))
		}
		el := types.Unalias(st.Chan.Type()).Underlying().(*types.Chan).Elem()
		if ct.isNum() && s.chans[ct.ival.String()] != nil {
			c := s.chans[ct.ival.String()]
			if len(c.buf) > 0 {
				n := s.clone()
				nc := n.chans[ct.ival.String()]
				v := nc.buf[0]
				nc.buf = nc.buf[1:]
				n.wake()
				outs = append(outs, mkRes(n, k, v, true))
				any = true
			} else if c.closed {
				outs = append(outs, mkRes(s.clone(), k, e.zero(el), false))
				any = true
			}
			continue
		}
		// foreign channel
		n := s.clone()
		n.chanEvents = append(n.chanEvents, ct)
		outs = append(outs, mkRes(n, k, e.havoc(n, el, "recv"), false))
		any = true
	}
	if !i.Blocking {
		if !any {
			outs = append(outs, mkRes(s, -1, nil, false))
		}
		return outs
	}
	if len(outs) == 0 {
		return e.block(s)
	}
	return outs
}
