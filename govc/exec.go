package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name       string
	Kind       string
	Discharged int
	Refuted    int
	Undecided  int
	Backends   map[string]int
	Pos        string
	Models     []map[string]string
	Detail     string
	Path       []string
	Script     string
}

type inputRec struct {
	name  string
	t     *T // scalar symbol, or nil for families
	fn    string
	typ   types.Type
	dom   int64 // Choice domain
	arity int
}

type Eng struct {
	prog          *ssa.Program
	rootPkg       map[string]bool
	fset          *token.FileSet
	lay           map[string][]leaf
	alias         map[string]PtrV
	aliasByKey    map[string]*T
	funcs         map[string]FuncV
	funcByKey     map[string]*T
	tags          map[string]int64
	tagTypes      map[int64]types.Type
	boxed         map[string]bool
	boxTypes      map[string]types.Type
	implFacts     map[string]types.Type
	implDone      map[string]bool
	factDone      map[int]bool
	sol           *Solver
	factLog       []*T
	obls          map[string]*Obl
	oblOrder      []string
	suppress      int
	models        map[string]*ssa.Function
	induct        map[string]*ssa.Function // recursive calls are checked against these
	abstract      map[string]bool
	inputs        map[string]*inputRec
	inputOrd      []string
	notes         map[string]int // assumptions / externals used
	funcsSeen     map[string]bool
	fnsSeen       map[*ssa.Function]bool
	frameSeq      int
	loopInfo      map[*ssa.Function]*loops
	loopSeq       int
	noSwitch      int
	deadline      time.Time
	steps         int
	paths         int
	undecided     []string
	globals       map[*ssa.Global]*T
	globInit      map[string]bool
	covers        map[string]bool
	streams       []*stream
	extSeq        int
	streamPath    []*T
	joinDone      map[*T]bool
	streamHyp     *T
	safe          int
	iterSeq       int
	debug         bool
	initDone      map[*ssa.Package]bool
	initHeap      map[string]*T
	lemmas        map[string]bool
	quantTO       int
	contract      *ssa.Function
	loopStat      map[string]string
	extLoops      []*loopRec
	pureDepth     int
	strict        bool
	staticIface   map[int]types.Type
	iterCell      map[int]PtrV
	initMode      bool
	keyInfo       map[string]leaf
	recLimit      int
	preciseAppend bool
	seqs          map[string][]*T // sequences passed to external functions
	seqPairs      int
	pkgPath       string
	errIDs        map[string]int64
	quantDepth    int
	proveTO       int
	failWall      time.Duration
	noCvc5        bool
	cvc5Runs      int
}

func (e *Eng) fact(t *T) {
	if isTrue(t) {
		return
	}
	e.factLog = append(e.factLog, t)
	e.sol.Fact(t)
}

func (e *Eng) note(s string) { e.notes[s]++ }

type abortErr struct{ msg string }

func (e *Eng) pos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		// nearest preceding position
		blk := i.Block()
		for _, j := range blk.Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
			}
			if j == i {
				break
			}
		}
	}
	ps := e.fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// feasible tells whether st.path /\ c may hold.
func (e *Eng) feasible(st *State, c *T) bool {
	if isTrue(c) {
		return true
	}
	if isFalse(c) {
		return false
	}
	n := Not(c)
	for _, p := range st.path {
		if p == c {
			return true
		}
		if p == n {
			return false
		}
	}
	return e.sol.Check(st.path, c, 120) != Unsat
}

func (e *Eng) check() {
	e.steps++
	if e.steps%256 == 0 && time.Now().After(e.deadline) {
		panic(abortErr{"time budget exhausted"})
	}
	if e.steps > 3000000 {
		panic(abortErr{"step budget exhausted"})
	}
}

// explore runs st and everything it forks into until stop holds or the path ends.
func (e *Eng) explore(st *State, stop func(*State) bool) []*State {
	var ends []*State
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s == nil {
				break
			}
			if s.done || (stop != nil && stop(s)) {
				ends = append(ends, s)
				break
			}
			e.check()
			next := e.step(s)
			if len(next) == 0 {
				break
			}
			if len(next) > 1 {
				for i := len(next) - 1; i > 0; i-- {
					work = append(work, next[i])
				}
				e.paths += len(next) - 1
				if e.paths > 60000 {
					panic(abortErr{"path budget exhausted"})
				}
			}
			s = next[0]
		}
	}
	return ends
}

func one(s *State) []*State { return []*State{s} }

// fork splits on cond; the callbacks run on the two successors.
func (e *Eng) fork(st *State, c *T, yes, no func(*State) []*State) []*State {
	if isTrue(c) {
		return yes(st)
	}
	if isFalse(c) {
		return no(st)
	}
	if e.initMode {
		panic(unsupported("branch in a package initialiser"))
	}
	fy := e.feasible(st, c)
	if !fy {
		st.assume(Not(c))
		return no(st)
	}
	fn := e.feasible(st, Not(c))
	if !fn {
		st.assume(c)
		return yes(st)
	}
	s2 := st.clone()
	st.assume(c)
	s2.assume(Not(c))
	r := yes(st)
	return append(r, no(s2)...)
}

// guard continues when c holds and panics otherwise.
func (e *Eng) guard(st *State, c *T, kind string, k func(*State) []*State) []*State {
	if isTrue(c) {
		e.safe++
		return k(st)
	}
	return e.fork(st, c, func(s *State) []*State {
		return k(s)
	}, func(s *State) []*State {
		return e.rtPanic(s, kind)
	})
}

func (e *Eng) rtPanic(s *State, kind string) []*State {
	f := s.top()
	p := "?"
	if f.ip < len(f.blk.Instrs) {
		p = e.pos(f.blk.Instrs[f.ip])
	}
	msg := StrC("runtime error: " + kind)
	t := App("rterror", SIface, msg)
	if !e.implDone["rterror"] {
		e.implDone["rterror"] = true
		x := FreshBoundAny("m", SStr)
		e.fact(Forall([]*T{x}, Eq(App("tagof", SInt, App("rterror", SIface, x)), Num(1000000)), App("rterror", SIface, x)))
	}
	return e.startPanic(s, &PanicInfo{val: IfaceV{t: t}, kind: kind, pos: p})
}

func (e *Eng) startPanic(s *State, p *PanicInfo) []*State {
	f := s.top()
	f.pan = p
	f.recovered = false
	return one(s)
}

func (e *Eng) step(s *State) (out []*State) {
	f := s.top()
	if f.pan != nil {
		return e.unwind(s)
	}
	if f.recMode {
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return e.callDeferred(s, d)
		}
		f.recMode = false
		if f.fn.Recover != nil {
			f.prev = f.blk
			f.blk = f.fn.Recover
			f.ip = 0
			return one(s)
		}
		var res []Val
		rs := f.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, e.zero(rs.At(i).Type()))
		}
		return e.ret(s, res)
	}
	if f.atHead {
		f.atHead = false
		return e.atHeader(s, e.loopsOf(f.fn).header[f.blk])
	}
	return e.exec(s, f, f.blk.Instrs[f.ip])
}

// unwind runs the deferred calls of a panicking frame.
func (e *Eng) unwind(s *State) []*State {
	f := s.top()
	if f.recovered {
		f.pan = nil
		f.recovered = false
		f.recMode = true
		return one(s)
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.callDeferred(s, d)
	}
	p := f.pan
	if len(s.frames) == 1 || f.barrier {
		if f.barrier && f.cont != nil {
			s.frames = s.frames[:len(s.frames)-1]
			s.uncaught = p
			f.cont(s, nil)
			return one(s)
		}
		s.done = true
		s.uncaught = p
		return one(s)
	}
	s.frames = s.frames[:len(s.frames)-1]
	g := s.top()
	g.pan = p
	g.recovered = false
	g.recMode = false
	return one(s)
}

func (e *Eng) callDeferred(s *State, d deferred) []*State {
	return e.callFunc(s, d.fn, d.args, nil, true)
}

// ret returns from the top frame.
func (e *Eng) ret(s *State, res []Val) []*State {
	f := s.top()
	if len(s.frames) == 1 {
		s.results = res
		return e.threadDone(s)
	}
	s.frames = s.frames[:len(s.frames)-1]
	g := s.top()
	if f.cont != nil {
		f.cont(s, res)
		return one(s)
	}
	if f.deferCall {
		return one(s) // caller's RunDefers / unwinding continues
	}
	e.setResult(s, g, f.call, res)
	g.ip++
	return one(s)
}

func (e *Eng) setResult(s *State, g *Frame, call ssa.Value, res []Val) {
	if call == nil {
		return
	}
	switch len(res) {
	case 0:
		g.env[call] = TupleV{}
	case 1:
		g.env[call] = res[0]
	default:
		g.env[call] = TupleV(res)
	}
}

func (e *Eng) get(s *State, f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{bi: v}
	case *ssa.Global:
		if _, seen := e.globals[v]; !seen && types.Identical(deref(v.Type()), types.Universe.Lookup("error").Type()) {
			// a sentinel error of a package that is not verified
			et := deref(v.Type())
			for _, l := range e.leaves(et) {
				h := e.heapArr(&State{heap: map[string]*T{}}, objKey(et, l.path), l.sort)
				e.fact(Not(Eq(Select(h, e.globalRef(v)), NilIface())))
			}
			e.note("sentinel error variables of other packages are not nil")
		}
		return PtrV{ref: e.globalRef(v), owner: v.Type().Underlying().(*types.Pointer).Elem(), typ: v.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.free[i]
			}
		}
	}
	r, ok := f.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn)))
	}
	return r
}

func (e *Eng) globalRef(g *ssa.Global) *T {
	if t, ok := e.globals[g]; ok {
		return t
	}
	n := new(big.Int).Neg(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 60), big.NewInt(int64(len(e.globals)+1))))
	t := BigNum(n)
	e.globals[g] = t
	return t
}

func (e *Eng) constVal(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			b, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				panic(unsupported("const " + c.String()))
			}
			return BigNum(b)
		case u.Info()&types.IsString != 0:
			return StrC(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			return e.f64const(c.Value)
		}
	}
	panic(unsupported("const " + c.String()))
}

func (e *Eng) f64const(v constant.Value) *T {
	f, _ := constant.Float64Val(v)
	if f == 0 {
		return Sym("f64_0", SF64)
	}
	return App("f64c", SF64, StrC(fmt.Sprintf("%b", f)))
}

func deref(t types.Type) types.Type {
	return types.Unalias(t).Underlying().(*types.Pointer).Elem()
}

// nilCheck panics when the pointer is nil.
func (e *Eng) nilCheck(s *State, p PtrV, k func(*State) []*State) []*State {
	if p.idx != nil || p.path != "" {
		return k(s)
	}
	return e.guard(s, Not(Eq(p.ref, Num(0))), "nil pointer dereference", k)
}

func (e *Eng) exec(s *State, f *Frame, ins ssa.Instruction) []*State {
	set := func(s *State, v ssa.Value, x Val) []*State {
		g := s.top()
		g.env[v] = x
		g.ip++
		return one(s)
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
		f.ip++
		return one(s)
	case *ssa.Alloc:
		return set(s, i, e.allocObj(s, deref(i.Type())))
	case *ssa.BinOp:
		return e.binop(s, f, i)
	case *ssa.UnOp:
		return e.unop(s, f, i)
	case *ssa.ChangeType:
		x := e.get(s, f, i.X)
		return set(s, i, e.retype(x, i.Type()))
	case *ssa.Convert:
		return set(s, i, e.convert(s, e.get(s, f, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		return set(s, i, e.convert(s, e.get(s, f, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeInterface:
		return set(s, i, e.get(s, f, i.X))
	case *ssa.MakeInterface:
		return set(s, i, IfaceV{dyn: types.Unalias(i.X.Type()), val: e.get(s, f, i.X)})
	case *ssa.MakeClosure:
		fv := FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.bind = append(fv.bind, e.get(s, f, b))
		}
		return set(s, i, fv)
	case *ssa.MakeMap:
		return set(s, i, e.makeMap(s, i.Type()))
	case *ssa.MakeChan:
		sz := e.get(s, f, i.Size).(*T)
		if !sz.isNum() {
			panic(unsupported("symbolic channel size"))
		}
		r := s.alloc()
		s.chans[r.ival.String()] = &Chan{cap: int(sz.ival.Int64())}
		return set(s, i, r)
	case *ssa.MakeSlice:
		l := e.get(s, f, i.Len).(*T)
		c := e.get(s, f, i.Cap).(*T)
		return e.guard(s, And(Le(Num(0), l), Le(l, c)), "makeslice: len out of range", func(s *State) []*State {
			el := types.Unalias(i.Type()).Underlying().(*types.Slice).Elem()
			r := s.alloc()
			e.zeroElems(s, r, el)
			return set(s, i, SliceV{r, Num(0), l, c})
		})
	case *ssa.Slice:
		return e.sliceOp(s, f, i)
	case *ssa.FieldAddr:
		p := e.ptr(e.get(s, f, i.X))
		return e.nilCheck(s, p, func(s *State) []*State {
			st := deref(i.X.Type()).Underlying().(*types.Struct)
			q := p
			q.path += fieldPath(st, i.Field)
			q.typ = st.Field(i.Field).Type()
			return set(s, i, q)
		})
	case *ssa.Field:
		x := e.get(s, f, i.X)
		sv, ok := x.(StructV)
		if !ok {
			panic(unsupported("field of opaque " + i.X.Type().String()))
		}
		return set(s, i, sv.fs[i.Field])
	case *ssa.IndexAddr:
		idx := e.get(s, f, i.Index).(*T)
		switch x := e.get(s, f, i.X).(type) {
		case SliceV:
			el := types.Unalias(i.X.Type()).Underlying().(*types.Slice).Elem()
			return e.guard(s, And(Le(Num(0), idx), Lt(idx, x.len)), "index out of range", func(s *State) []*State {
				return set(s, i, elemPtr(x.arr, Add(x.off, idx), el))
			})
		case PtrV:
			arr := types.Unalias(x.typ).Underlying().(*types.Array)
			if x.path != "" || x.idx != nil {
				panic(unsupported("index into nested array"))
			}
			return e.guard(s, And(Le(Num(0), idx), Lt(idx, Num(arr.Len()))), "index out of range", func(s *State) []*State {
				return set(s, i, elemPtr(x.ref, idx, arr.Elem()))
			})
		}
		panic(unsupported("IndexAddr"))
	case *ssa.Index:
		idx := e.get(s, f, i.Index).(*T)
		switch x := e.get(s, f, i.X).(type) {
		case ArrV:
			arr := types.Unalias(x.typ).Underlying().(*types.Array)
			return e.guard(s, And(Le(Num(0), idx), Lt(idx, Num(arr.Len()))), "index out of range", func(s *State) []*State {
				var ts []*T
				for _, c := range x.comps {
					ts = append(ts, Select(c, idx))
				}
				return set(s, i, e.unflat(arr.Elem(), ts))
			})
		case *T: // string
			return e.guard(s, And(Le(Num(0), idx), Lt(idx, SLen(x))), "index out of range", func(s *State) []*State {
				return set(s, i, e.strAt(x, idx))
			})
		}
		panic(unsupported("Index"))
	case *ssa.Lookup:
		return e.lookup(s, f, i)
	case *ssa.MapUpdate:
		m := e.get(s, f, i.Map).(*T)
		mt := types.Unalias(i.Map.Type()).Underlying().(*types.Map)
		k := e.get(s, f, i.Key)
		v := e.get(s, f, i.Value)
		return e.guard(s, Not(Eq(m, Num(0))), "assignment to entry in nil map", func(s *State) []*State {
			e.mapStore(s, m, mt, k, v)
			s.top().ip++
			return one(s)
		})
	case *ssa.Range:
		return e.rangeInit(s, f, i)
	case *ssa.Next:
		return e.next(s, f, i)
	case *ssa.TypeAssert:
		return e.typeAssert(s, f, i)
	case *ssa.Extract:
		tv := e.get(s, f, i.Tuple).(TupleV)
		return set(s, i, tv[i.Index])
	case *ssa.Store:
		p := e.ptr(e.get(s, f, i.Addr))
		v := e.get(s, f, i.Val)
		return e.nilCheck(s, p, func(s *State) []*State {
			e.store(s, p, v)
			s.top().ip++
			return one(s)
		})
	case *ssa.If:
		c := e.get(s, f, i.Cond).(*T)
		return e.fork(s, c, func(s *State) []*State {
			return e.jump(s, s.top().blk.Succs[0])
		}, func(s *State) []*State {
			return e.jump(s, s.top().blk.Succs[1])
		})
	case *ssa.Jump:
		return e.jump(s, f.blk.Succs[0])
	case *ssa.Return:
		var res []Val
		for _, r := range i.Results {
			res = append(res, e.get(s, f, r))
		}
		return e.ret(s, res)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.ip++
			return one(s)
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.callDeferred(s, d)
	case *ssa.Panic:
		v := e.get(s, f, i.X)
		return e.startPanic(s, &PanicInfo{val: v, kind: "panic", pos: e.pos(i)})
	case *ssa.Defer:
		fn, args := e.callee(s, f, &i.Call)
		f.defers = append(f.defers, deferred{fn, args})
		f.ip++
		return one(s)
	case *ssa.Go:
		fn, args := e.callee(s, f, &i.Call)
		f.ip++
		return e.spawn(s, fn, args)
	case *ssa.Call:
		fn, args := e.callee(s, f, &i.Call)
		if i.Call.IsInvoke() {
			// nil interface
			if iv, ok := fn.recv.(IfaceV); ok {
				if iv.dyn == nil && iv.t == nil {
					return e.rtPanic(s, "nil pointer dereference")
				}
				if iv.t != nil {
					return e.guard(s, Not(Eq(iv.t, NilIface())), "nil pointer dereference", func(s *State) []*State {
						return e.callFunc(s, fn, args, i, false)
					})
				}
			}
		}
		return e.callFunc(s, fn, args, i, false)
	case *ssa.Send:
		return e.send(s, f, i)
	case *ssa.Select:
		return e.selectStmt(s, f, i)
	}
	panic(unsupported(fmt.Sprintf("instruction %T", ins)))
}

func (e *Eng) ptr(v Val) PtrV {
	switch v := v.(type) {
	case PtrV:
		return v
	}
	panic(unsupported(fmt.Sprintf("pointer %T", v)))
}

func (e *Eng) retype(x Val, t types.Type) Val {
	t = types.Unalias(t)
	switch x := x.(type) {
	case StructV:
		return e.unflat(t, e.flat(x, x.typ))
	case ArrV:
		return ArrV{t, x.comps}
	case PtrV:
		if x.idx == nil && x.path == "" {
			y := x
			y.typ = deref(t)
			y.owner = y.typ
			if typeKey(y.owner) != typeKey(x.owner) {
				panic(unsupported("pointer type change"))
			}
			return y
		}
	}
	return x
}

// jump moves to block b, handling loops.
func (e *Eng) jump(s *State, b *ssa.BasicBlock) []*State {
	f := s.top()
	f.prev = f.blk
	f.blk = b
	f.ip = 0
	if lp := e.loopsOf(f.fn).header[b]; lp != nil {
		f.atHead = true
		return one(s)
	}
	e.phis(s)
	return one(s)
}

// phis executes the phi nodes of the current block.
func (e *Eng) phis(s *State) {
	f := s.top()
	pi := -1
	for k, p := range f.blk.Preds {
		if p == f.prev {
			pi = k
		}
	}
	type kv struct {
		k ssa.Value
		v Val
	}
	var vs []kv
	n := 0
	for _, ins := range f.blk.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			if _, dbg := ins.(*ssa.DebugRef); dbg {
				n++
				continue
			}
			break
		}
		vs = append(vs, kv{p, e.get(s, f, p.Edges[pi])})
		n++
	}
	for _, x := range vs {
		f.env[x.k] = x.v
	}
	f.ip = n
}

// ---- arithmetic
func wrapInt(t *T, ty types.Type) *T {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	l, h := rng(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if t.isNum() {
		r := new(big.Int).Sub(t.ival, lo)
		r.Mod(r, size)
		return BigNum(r.Add(r, lo))
	}
	return Ite(And(Le(BigNum(lo), t), Le(t, BigNum(hi))), t,
		Add(Mod(Sub(t, BigNum(lo)), BigNum(size)), BigNum(lo)))
}

func (e *Eng) binop(s *State, f *Frame, i *ssa.BinOp) []*State {
	x := e.get(s, f, i.X)
	y := e.get(s, f, i.Y)
	set := func(s *State, v Val) []*State {
		g := s.top()
		g.env[i] = v
		g.ip++
		return one(s)
	}
	switch i.Op {
	case token.EQL:
		return set(s, e.equal(s, x, y, i.X.Type(), i.Y.Type()))
	case token.NEQ:
		return set(s, Not(e.equal(s, x, y, i.X.Type(), i.Y.Type())))
	}
	a, b := x.(*T), y.(*T)
	ty := i.Type()
	bt, _ := types.Unalias(i.X.Type()).Underlying().(*types.Basic)
	switch {
	case bt.Info()&types.IsString != 0:
		switch i.Op {
		case token.ADD:
			return set(s, SConcat(a, b))
		default:
			lt := func(a, b *T) *T {
				if a.op == "strc" && b.op == "strc" {
					return Bool(a.sval < b.sval)
				}
				if a == b {
					return Bool(false)
				}
				e.strOrder()
				return App("slt", SBool, a, b)
			}
			switch i.Op {
			case token.LSS:
				return set(s, lt(a, b))
			case token.GTR:
				return set(s, lt(b, a))
			case token.LEQ:
				return set(s, Not(lt(b, a)))
			case token.GEQ:
				return set(s, Not(lt(a, b)))
			}
		}
	case bt.Info()&types.IsFloat != 0:
		switch i.Op {
		case token.LSS:
			return set(s, App("f64_lt", SBool, a, b))
		case token.GTR:
			return set(s, App("f64_lt", SBool, b, a))
		case token.LEQ:
			return set(s, App("f64_le", SBool, a, b))
		case token.GEQ:
			return set(s, App("f64_le", SBool, b, a))
		}
		return set(s, App("f64_"+opName(i.Op), SF64, a, b))
	case bt.Info()&types.IsBoolean != 0:
		switch i.Op {
		case token.AND, token.LAND:
			return set(s, And(a, b))
		case token.OR, token.LOR:
			return set(s, Or(a, b))
		}
	case bt.Info()&types.IsInteger != 0:
		switch i.Op {
		case token.ADD:
			return set(s, wrapInt(Add(a, b), ty))
		case token.SUB:
			return set(s, wrapInt(Sub(a, b), ty))
		case token.MUL:
			return set(s, wrapInt(Mul(a, b), ty))
		case token.QUO, token.REM:
			return e.guard(s, Not(Eq(b, Num(0))), "integer divide by zero", func(s *State) []*State {
				q := truncDiv(a, b)
				if i.Op == token.QUO {
					return set(s, wrapInt(q, ty))
				}
				return set(s, Sub(a, Mul(q, b)))
			})
		case token.LSS:
			return set(s, Lt(a, b))
		case token.LEQ:
			return set(s, Le(a, b))
		case token.GTR:
			return set(s, Lt(b, a))
		case token.GEQ:
			return set(s, Le(b, a))
		case token.SHL:
			if b.isNum() && b.ival.IsInt64() && b.ival.Int64() < 128 {
				return set(s, wrapInt(Mul(a, BigNum(new(big.Int).Lsh(big.NewInt(1), uint(b.ival.Int64())))), ty))
			}
		case token.SHR:
			if b.isNum() && b.ival.IsInt64() && b.ival.Int64() < 128 {
				return set(s, Div(a, BigNum(new(big.Int).Lsh(big.NewInt(1), uint(b.ival.Int64())))))
			}
		}
		if a.isNum() && b.isNum() {
			r := new(big.Int)
			switch i.Op {
			case token.AND:
				return set(s, BigNum(r.And(a.ival, b.ival)))
			case token.OR:
				return set(s, BigNum(r.Or(a.ival, b.ival)))
			case token.XOR:
				return set(s, BigNum(r.Xor(a.ival, b.ival)))
			}
		}
		r := App("bit_"+opName(i.Op)+"_"+sanitize(ty.String()), SInt, a, b)
		e.leafFact(r, leaf{typ: ty})
		return set(s, r)
	}
	panic(unsupported("binop " + i.String()))
}

func truncDiv(a, b *T) *T {
	if a.isNum() && b.isNum() {
		return BigNum(new(big.Int).Quo(a.ival, b.ival))
	}
	la, _ := rng(a)
	if la != nil && la.Sign() >= 0 && b.isNum() && b.ival.Sign() > 0 {
		return Div(a, b)
	}
	if b.isNum() && b.ival.Sign() > 0 {
		return Ite(Le(Num(0), a), Div(a, b), Sub(Num(0), Div(Sub(Num(0), a), b)))
	}
	return App("tdiv", SInt, a, b)
}

func (e *Eng) strOrder() {
	if e.implDone["slt"] {
		return
	}
	e.implDone["slt"] = true
	a, b, c := FreshBoundAny("a", SStr), FreshBoundAny("b", SStr), FreshBoundAny("c", SStr)
	e.fact(Forall([]*T{a, b}, Not(And(App("slt", SBool, a, b), App("slt", SBool, b, a))), App("slt", SBool, a, b)))
	e.fact(Forall([]*T{a, b}, Or(App("slt", SBool, a, b), App("slt", SBool, b, a), Eq(a, b)), App("slt", SBool, a, b)))
	_ = c
}

func opName(t token.Token) string {
	switch t {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "div"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	}
	return sanitize(t.String())
}

// equal is Go's == on values of the given types.
func (e *Eng) equal(s *State, x, y Val, tx, ty types.Type) *T {
	switch a := x.(type) {
	case *T:
		if b, ok := y.(*T); ok {
			if a.sort == SF64 {
				if a == b && a.op == "app" && a.name == "f64c" {
					return Bool(true)
				}
				return App("f64_eq", SBool, a, b)
			}
			return Eq(a, b)
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			return Eq(e.ptrTerm(a), e.ptrTerm(b))
		}
	case SliceV: // comparison with nil
		if b, ok := y.(SliceV); ok {
			if b.arr.isNum() && b.arr.ival.Sign() == 0 {
				return Eq(a.arr, Num(0))
			}
			if a.arr.isNum() && a.arr.ival.Sign() == 0 {
				return Eq(b.arr, Num(0))
			}
		}
	case FuncV:
		if b, ok := y.(FuncV); ok {
			return Eq(e.funcTerm(a), e.funcTerm(b))
		}
	case StructV:
		if b, ok := y.(StructV); ok {
			var cs []*T
			st := a.typ.Underlying().(*types.Struct)
			for i := range a.fs {
				cs = append(cs, e.equal(s, a.fs[i], b.fs[i], st.Field(i).Type(), st.Field(i).Type()))
			}
			return And(cs...)
		}
	case ArrV:
		if b, ok := y.(ArrV); ok {
			arr := types.Unalias(a.typ).Underlying().(*types.Array)
			var cs []*T
			for k := int64(0); k < arr.Len() && k < 64; k++ {
				for j := range a.comps {
					cs = append(cs, Eq(Select(a.comps[j], Num(k)), Select(b.comps[j], Num(k))))
				}
			}
			return And(cs...)
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			return e.ifaceEq(s, a, b)
		}
		// interface == concrete
		return e.ifaceEq(s, a, IfaceV{dyn: types.Unalias(ty), val: y})
	}
	if b, ok := y.(IfaceV); ok {
		return e.ifaceEq(s, IfaceV{dyn: types.Unalias(tx), val: x}, b)
	}
	panic(unsupported(fmt.Sprintf("== on %T %T", x, y)))
}

func (e *Eng) ifaceEq(s *State, a, b IfaceV) *T {
	if a.t == nil && b.t == nil {
		if a.dyn == nil || b.dyn == nil {
			return Bool(a.dyn == nil && b.dyn == nil)
		}
		if !types.Identical(a.dyn, b.dyn) {
			return Bool(false)
		}
		if _, isF := a.val.(SliceV); isF {
			panic(unsupported("comparison of uncomparable interface"))
		}
		return e.equal(s, a.val, b.val, a.dyn, b.dyn)
	}
	return Eq(e.ifaceTerm(a), e.ifaceTerm(b))
}

func (e *Eng) unop(s *State, f *Frame, i *ssa.UnOp) []*State {
	x := e.get(s, f, i.X)
	set := func(s *State, v Val) []*State {
		g := s.top()
		g.env[i] = v
		g.ip++
		return one(s)
	}
	switch i.Op {
	case token.MUL:
		p := e.ptr(x)
		return e.nilCheck(s, p, func(s *State) []*State {
			return set(s, e.load(s, p))
		})
	case token.NOT:
		return set(s, Not(x.(*T)))
	case token.SUB:
		t := x.(*T)
		if t.sort == SF64 {
			return set(s, App("f64_neg", SF64, t))
		}
		return set(s, wrapInt(Sub(Num(0), t), i.Type()))
	case token.XOR:
		t := x.(*T)
		lo, _, _ := intRange(i.Type())
		if lo != nil && lo.Sign() < 0 {
			return set(s, Sub(Num(-1), t))
		}
		_, hi, _ := intRange(i.Type())
		return set(s, Sub(BigNum(hi), t))
	case token.ARROW:
		return e.recv(s, f, i)
	}
	panic(unsupported("unop " + i.String()))
}

func (e *Eng) strAt(x, idx *T) *T {
	if x.op == "strc" && idx.isNum() {
		return Num(int64(x.sval[idx.ival.Int64()]))
	}
	r := App("sat", SInt, x, idx)
	e.leafFact(r, leaf{typ: types.Typ[types.Uint8]})
	return r
}

func (e *Eng) convert(s *State, x Val, from, to types.Type) Val {
	fu, tu := types.Unalias(from).Underlying(), types.Unalias(to).Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		t := x.(*T)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return wrapInt(t, to)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return App("f64_of_int_"+tb.Name(), SF64, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				if t.op == "app" && t.name == "f64_to_f32" {
					return t // rounding once more changes nothing
				}
				return App("f64_to_f32", SF64, t)
			}
			return t
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := App("f64_to_"+tb.Name(), SInt, t)
			e.leafFact(r, leaf{typ: to})
			return r
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if t.isNum() && t.ival.IsInt64() {
				return StrC(string(rune(t.ival.Int64())))
			}
			return App("str_of_rune", SStr, t)
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			panic(unsupported("unsafe conversion"))
		}
	}
	if sl, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		sv := x.(SliceV)
		return e.bytesToStr(s, sv, sl.Elem())
	}
	if sl, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		return e.strToSlice(s, x.(*T), sl.Elem())
	}
	return e.retype(x, to)
}

func elName(el types.Type) string {
	if b, ok := types.Unalias(el).Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8) {
		return "bytes"
	}
	return "runes"
}

// seqTerm is the canonical Seq token of a slice of single-leaf elements.
func (e *Eng) seqTerm(s *State, sv SliceV, el types.Type) *T {
	l := e.leaves(el)
	var as []*T
	for _, x := range l {
		h := e.heapArr(s, elemKey(el, x.path), arrSort(SInt, x.sort))
		as = append(as, Select(h, arrBase(sv.arr)))
	}
	as = append(as, sv.off, sv.len)
	// mkseq(arr.., off, len); content equality handled by shape
	if sv.len.isNum() && sv.len.ival.Sign() == 0 {
		return Sym("seq_nil", SSeq)
	}
	// a slice that wraps a Seq token
	if len(l) == 1 && as[0].op == "app" && strings.HasPrefix(as[0].name, "seqarr") && sv.off.isNum() && sv.off.ival.Sign() == 0 && sv.len == App("seqlen", SInt, as[0].args[0]) {
		return as[0].args[0]
	}
	t := App("mkseq_"+sanitize(typeKey(el)), SSeq, as...)
	e.seqExt(t)
	return t
}

// seqExt states extensionality for t and the sequences met before.
func (e *Eng) seqExt(t *T) {
	if len(t.bound) > 0 {
		return
	}
	old := e.seqs[t.name]
	for _, o := range old {
		if o == t {
			return
		}
	}
	e.seqs[t.name] = append(old, t)
	n := len(t.args)
	for i := len(old) - 1; i >= 0 && i >= len(old)-4; i-- {
		o := old[i]
		if e.seqPairs >= 60 {
			return
		}
		same := Eq(t.args[n-1], o.args[n-1])
		if isFalse(same) {
			continue
		}
		e.seqPairs++
		k := Fresh("ext", SInt)
		el := []*T{}
		for j := 0; j < n-2; j++ {
			el = append(el, Eq(Select(t.args[j], Add(t.args[n-2], k)), Select(o.args[j], Add(o.args[n-2], k))))
		}
		in := And(Le(Num(0), k), Not(Le(t.args[n-1], k)))
		e.fact(Implies(And(same, Implies(in, And(el...))), Eq(t, o)))
	}
}

// seqSlice materialises a Seq token as a fresh slice.
func (e *Eng) seqSlice(s *State, sq *T, el types.Type) SliceV {
	r := s.alloc()
	for _, l := range e.leaves(el) {
		k := elemKey(el, l.path)
		as := arrSort(SInt, l.sort)
		h := e.heapArr(s, k, as)
		a := App("seqarr_"+sanitize(typeKey(el))+l.path, as, sq)
		s.heap[k] = Store(h, r, a)
		e.arrRangeFact(a, l)
	}
	n := App("seqlen", SInt, sq)
	if len(n.bound) == 0 && !e.factDone[n.id] {
		e.factDone[n.id] = true
		e.fact(mk("<=", SBool, "", Num(0), n))
		e.fact(mk("<=", SBool, "", n, BigNum(maxIter)))
	}
	return SliceV{r, Num(0), n, n}
}

func (e *Eng) arrRangeFact(a *T, l leaf) {
	if len(a.bound) > 0 || e.factDone[a.id] {
		return
	}
	e.factDone[a.id] = true
	if l.sort != SInt {
		return
	}
	k := FreshBoundAny("i", SInt)
	t := Select(a, k)
	e.fact(Forall([]*T{k}, typeFact(t, l), t))
}

func (e *Eng) bytesToStr(s *State, sv SliceV, el types.Type) *T {
	sq := e.seqTerm(s, sv, el)
	if sq.op == "app" && sq.name == "str_"+elName(el) {
		return sq.args[0]
	}
	if sq.op == "sym" && sq.name == "seq_nil" {
		return StrC("")
	}
	r := App("strof_"+elName(el), SStr, sq)
	if elName(el) == "bytes" {
		e.fact(Eq(SLen(r), sv.len))
	}
	return r
}

func (e *Eng) strToSlice(s *State, t *T, el types.Type) SliceV {
	sq := App("str_"+elName(el), SSeq, t)
	if t.op == "strc" && t.sval == "" {
		return SliceV{s.alloc(), Num(0), Num(0), Num(0)}
	}
	sl := e.seqSlice(s, sq, el)
	if elName(el) == "bytes" {
		if len(t.bound) == 0 {
			e.fact(Eq(App("seqlen", SInt, sq), SLen(t)))
		}
	} else if len(t.bound) == 0 {
		// characters of a string: none iff it is empty, at most one per byte
		n := App("seqlen", SInt, sq)
		e.fact(Eq(mk("<=", SBool, "", Num(1), n), Le(Num(1), SLen(t))))
		e.fact(mk("<=", SBool, "", n, SLen(t)))
	}
	return sl
}

// ---- slices
func (e *Eng) sliceOp(s *State, f *Frame, i *ssa.Slice) []*State {
	num := func(v ssa.Value, d *T) *T {
		if v == nil {
			return d
		}
		return e.get(s, f, v).(*T)
	}
	set := func(s *State, v Val) []*State {
		g := s.top()
		g.env[i] = v
		g.ip++
		return one(s)
	}
	switch x := e.get(s, f, i.X).(type) {
	case SliceV:
		lo := num(i.Low, Num(0))
		hi := num(i.High, x.len)
		max := num(i.Max, x.cap)
		return e.guard(s, And(Le(Num(0), lo), Le(lo, hi), Le(hi, max), Le(max, x.cap)), "slice bounds out of range", func(s *State) []*State {
			return set(s, SliceV{x.arr, Add(x.off, lo), Sub(hi, lo), Sub(max, lo)})
		})
	case PtrV:
		arr := types.Unalias(x.typ).Underlying().(*types.Array)
		n := Num(arr.Len())
		lo := num(i.Low, Num(0))
		hi := num(i.High, n)
		max := num(i.Max, n)
		if x.path != "" || x.idx != nil {
			panic(unsupported("slicing nested array"))
		}
		return e.guard(s, And(Le(Num(0), lo), Le(lo, hi), Le(hi, max), Le(max, n)), "slice bounds out of range", func(s *State) []*State {
			return set(s, SliceV{x.ref, lo, Sub(hi, lo), Sub(max, lo)})
		})
	case *T:
		lo := num(i.Low, Num(0))
		hi := num(i.High, SLen(x))
		return e.guard(s, And(Le(Num(0), lo), Le(lo, hi), Le(hi, SLen(x))), "slice bounds out of range", func(s *State) []*State {
			return set(s, e.substr(x, lo, hi))
		})
	}
	panic(unsupported("slice op"))
}

func (e *Eng) substr(x, lo, hi *T) *T {
	if lo.isNum() && lo.ival.Sign() == 0 && hi == SLen(x) {
		return x
	}
	if lo == hi {
		return StrC("")
	}
	if x.op == "strc" && lo.isNum() && hi.isNum() {
		return StrC(x.sval[lo.ival.Int64():hi.ival.Int64()])
	}
	if x.op == "sconcat" {
		// boundaries inside the concatenation
		pos := Num(0)
		var pieces []*T
		start, end := -1, -1
		for k, a := range x.args {
			if pos == lo {
				start = k
			}
			pos = Add(pos, SLen(a))
			if pos == hi {
				end = k
			}
		}
		if start >= 0 && end >= start {
			pieces = x.args[start : end+1]
			return SConcat(pieces...)
		}
	}
	r := App("substr", SStr, x, lo, hi)
	if len(r.bound) == 0 && !e.factDone[r.id] {
		e.factDone[r.id] = true
		e.fact(Implies(And(Le(Num(0), lo), Le(lo, hi), Le(hi, SLen(x))), Eq(SLen(r), Sub(hi, lo))))
		if lo.isNum() && lo.ival.Sign() == 0 {
			e.fact(Implies(Eq(hi, SLen(x)), Eq(r, x)))
		}
		if hi == SLen(x) {
			// x = prefix ++ rest
			p := e.substr(x, Num(0), lo)
			e.fact(Implies(And(Le(Num(0), lo), Le(lo, hi)), Eq(SConcat(p, r), x)))
		}
	}
	return r
}

// appendSlice implements append(a, b...).
func (e *Eng) appendSlice(s *State, a, b SliceV, el types.Type) SliceV {
	if b.len.isNum() && b.len.ival.Sign() == 0 {
		return a
	}
	r := s.alloc()
	nl := Add(a.len, b.len)
	for _, l := range e.leaves(el) {
		k := elemKey(el, l.path)
		as := arrSort(SInt, l.sort)
		h := e.heapArr(s, k, as)
		base := Select(h, arrBase(a.arr))
		src := Select(h, arrBase(b.arr))
		var c *T
		if a.arr.isNum() && a.arr.ival.Sign() == 0 || a.len.isNum() && a.len.ival.Sign() == 0 {
			base = ConstArr(as, e.zeroLeaf(l))
		}
		if b.len.isNum() && b.len.ival.Int64() <= 64 {
			c = base
			for j := int64(0); j < b.len.ival.Int64(); j++ {
				c = Store(c, Add(Add(a.off, a.len), Num(j)), Select(src, Add(b.off, Num(j))))
			}
			s.heap[k] = Store(h, r, c)
		} else {
			// new array content by cases, normalised to offset 0
			x := FreshBoundAny("i", SInt)
			body := Ite(Lt(x, a.len), Select(base, Add(a.off, x)), Select(src, Add(b.off, Sub(x, a.len))))
			if a.len.isNum() && a.len.ival.Sign() == 0 {
				body = Select(src, Add(b.off, x))
			}
			s.heap[k] = Store(h, r, Lam(x, body))
		}
	}
	off := a.off
	if !(b.len.isNum() && b.len.ival.Int64() <= 64) {
		off = Num(0)
	}
	cp := Fresh("cap", SInt)
	e.fact(And(Le(Num(0), cp), Le(nl, cp), Implies(Le(nl, BigNum(maxIter)), Le(cp, BigNum(maxIter)))))
	return SliceV{r, off, nl, cp}
}

// ---- maps: leaves "M|K|V|p" presence, "M|K|V|v<path>", length "ML"
func mapKeyBase(mt *types.Map) string {
	return "M|" + typeKey(mt.Key()) + "|" + typeKey(mt.Elem()) + "|"
}

// keyTerm encodes a map key as one term.
func (e *Eng) keyTerm(k Val, kt types.Type) (*T, Sort) {
	ls := e.leaves(kt)
	ts := e.flat(k, kt)
	if len(ls) == 1 {
		return ts[0], ls[0].sort
	}
	return e.box(types.Unalias(kt), ts), SIface
}

func (e *Eng) keySort(kt types.Type) Sort {
	ls := e.leaves(kt)
	if len(ls) == 1 {
		return ls[0].sort
	}
	return SIface
}

func (e *Eng) keyVal(t *T, kt types.Type) Val {
	ls := e.leaves(kt)
	if len(ls) == 1 {
		return e.unflat(kt, []*T{t})
	}
	v, f := e.unboxAs(t, types.Unalias(kt))
	if len(f.bound) == 0 {
		e.fact(f)
	}
	return v
}

func (e *Eng) makeMap(s *State, t types.Type) *T {
	mt := types.Unalias(t).Underlying().(*types.Map)
	r := s.alloc()
	e.initMap(s, r, mt)
	return r
}

func (e *Eng) initMap(s *State, r *T, mt *types.Map) {
	b := mapKeyBase(mt)
	ks := e.keySort(mt.Key())
	ps := arrSort(ks, SBool)
	s.heap[b+"p"] = Store(e.heapArr(s, b+"p", ps), r, ConstArr(ps, Bool(false)))
	for _, l := range e.leaves(mt.Elem()) {
		vs := arrSort(ks, l.sort)
		k := b + "v" + l.path
		s.heap[k] = Store(e.heapArr(s, k, vs), r, ConstArr(vs, e.zeroLeaf(l)))
	}
	s.heap[b+"n"] = Store(e.heapArr(s, b+"n", SInt), r, Num(0))
}

func (e *Eng) mapLookup(s *State, m *T, mt *types.Map, k Val) (Val, *T) {
	if m.isNum() && m.ival.Sign() == 0 {
		return e.zero(mt.Elem()), Bool(false)
	}
	b := mapKeyBase(mt)
	kt, ks := e.keyTerm(k, mt.Key())
	p := Select(Select(e.heapArr(s, b+"p", arrSort(ks, SBool)), m), kt)
	if !m.isNum() {
		p = And(Not(Eq(m, Num(0))), p)
	}
	var ts []*T
	for _, l := range e.leaves(mt.Elem()) {
		t := Select(Select(e.heapArr(s, b+"v"+l.path, arrSort(ks, l.sort)), m), kt)
		e.leafFact(t, l)
		ts = append(ts, Ite(p, t, e.zeroLeaf(l)))
	}
	return e.unflat(mt.Elem(), ts), p
}

func (e *Eng) mapStore(s *State, m *T, mt *types.Map, k, v Val) {
	b := mapKeyBase(mt)
	kt, ks := e.keyTerm(k, mt.Key())
	ph := e.heapArr(s, b+"p", arrSort(ks, SBool))
	pa := Select(ph, m)
	was := Select(pa, kt)
	s.heap[b+"p"] = Store(ph, m, Store(pa, kt, Bool(true)))
	ts := e.flat(v, mt.Elem())
	for i, l := range e.leaves(mt.Elem()) {
		hk := b + "v" + l.path
		h := e.heapArr(s, hk, arrSort(ks, l.sort))
		s.heap[hk] = Store(h, m, Store(Select(h, m), kt, ts[i]))
	}
	nh := e.heapArr(s, b+"n", SInt)
	s.heap[b+"n"] = Store(nh, m, Add(Select(nh, m), Ite(was, Num(0), Num(1))))
}

func (e *Eng) mapDelete(s *State, m *T, mt *types.Map, k Val) {
	b := mapKeyBase(mt)
	kt, ks := e.keyTerm(k, mt.Key())
	ph := e.heapArr(s, b+"p", arrSort(ks, SBool))
	pa := Select(ph, m)
	was := Select(pa, kt)
	s.heap[b+"p"] = Store(ph, m, Store(pa, kt, Bool(false)))
	nh := e.heapArr(s, b+"n", SInt)
	s.heap[b+"n"] = Store(nh, m, Sub(Select(nh, m), Ite(was, Num(1), Num(0))))
}

func (e *Eng) mapLen(s *State, m *T, mt *types.Map) *T {
	if m.isNum() && m.ival.Sign() == 0 {
		return Num(0)
	}
	b := mapKeyBase(mt)
	t := Select(e.heapArr(s, b+"n", SInt), m)
	e.leafFact(t, leaf{comp: "len"})
	if !m.isNum() {
		return Ite(Eq(m, Num(0)), Num(0), t)
	}
	return t
}

func (e *Eng) lookup(s *State, f *Frame, i *ssa.Lookup) []*State {
	x := e.get(s, f, i.X)
	set := func(s *State, v Val) []*State {
		g := s.top()
		g.env[i] = v
		g.ip++
		return one(s)
	}
	if mt, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map); ok {
		v, p := e.mapLookup(s, x.(*T), mt, e.get(s, f, i.Index))
		if i.CommaOk {
			return set(s, TupleV{v, p})
		}
		return set(s, v)
	}
	t := x.(*T)
	idx := e.get(s, f, i.Index).(*T)
	return e.guard(s, And(Le(Num(0), idx), Lt(idx, SLen(t))), "index out of range", func(s *State) []*State {
		return set(s, e.strAt(t, idx))
	})
}

// ---- type assertions
func (e *Eng) typeAssert(s *State, f *Frame, i *ssa.TypeAssert) []*State {
	iv := e.get(s, f, i.X).(IfaceV)
	at := types.Unalias(i.AssertedType)
	_, toIface := at.Underlying().(*types.Interface)
	yes := func(s *State, v Val) []*State {
		g := s.top()
		if i.CommaOk {
			g.env[i] = TupleV{v, Bool(true)}
		} else {
			g.env[i] = v
		}
		g.ip++
		return one(s)
	}
	no := func(s *State) []*State {
		g := s.top()
		if i.CommaOk {
			g.env[i] = TupleV{e.zero(at), Bool(false)}
			g.ip++
			return one(s)
		}
		return e.rtPanic(s, "interface conversion")
	}
	if iv.t == nil {
		if iv.dyn == nil {
			return no(s)
		}
		if toIface {
			if types.Implements(iv.dyn, at.Underlying().(*types.Interface)) {
				return yes(s, iv)
			}
			return no(s)
		}
		if types.Identical(iv.dyn, at) {
			return yes(s, iv.val)
		}
		return no(s)
	}
	if toIface {
		if isEmptyIface(at) {
			return e.fork(s, Not(Eq(iv.t, NilIface())), func(s *State) []*State { return yes(s, iv) }, no)
		}
		c := And(Not(Eq(iv.t, NilIface())), e.implTerm(at, iv.t))
		if st := e.staticIface[iv.t.id]; st != nil && types.Implements(st, at.Underlying().(*types.Interface)) {
			c = Not(Eq(iv.t, NilIface()))
		}
		return e.fork(s, c, func(s *State) []*State { return yes(s, iv) }, no)
	}
	if iv.t.op == "ite" {
		return e.fork(s, iv.t.args[0], func(s *State) []*State {
			g := s.top()
			g.env[i.X] = e.ifaceVal(iv.t.args[1])
			return one(s)
		}, func(s *State) []*State {
			g := s.top()
			g.env[i.X] = e.ifaceVal(iv.t.args[2])
			return one(s)
		})
	}
	c := Eq(App("tagof", SInt, iv.t), Num(e.tag(at)))
	return e.fork(s, c, func(s *State) []*State {
		v, fact := e.unboxAs(iv.t, at)
		s.assume(fact)
		return yes(s, v)
	}, no)
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// ---- range over maps
func (e *Eng) rangeInit(s *State, f *Frame, i *ssa.Range) []*State {
	x := e.get(s, f, i.X)
	mt, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map)
	if !ok {
		panic(unsupported("range over string"))
	}
	m := x.(*T)
	e.iterSeq++
	it := IterV{id: e.iterSeq, m: m, typ: mt, ord: fmt.Sprintf("mr%d", e.iterSeq)}
	b := mapKeyBase(mt)
	ks := e.keySort(mt.Key())
	it.n = e.mapLen(s, m, mt)
	pres := Select(e.heapArr(s, b+"p", arrSort(ks, SBool)), m)
	it.pres = pres
	// enumeration axioms
	n := it.n
	if len(n.bound) > 0 || len(pres.bound) > 0 {
		panic(unsupported("map range under quantifier"))
	}
	keyf := func(k *T) *T { return App(it.ord+"_key", ks, k) }
	idxf := func(x *T) *T { return App(it.ord+"_idx", SInt, x) }
	k := FreshBound("j")
	inr := And(Le(Num(0), k), Lt(k, n))
	e.fact(Le(Num(0), n))
	e.fact(Forall([]*T{k}, Implies(inr, And(Select(pres, keyf(k)), Eq(idxf(keyf(k)), k))), keyf(k)))
	xk := FreshBoundAny("x", ks)
	e.fact(Forall([]*T{xk}, Implies(Select(pres, xk), And(Le(Num(0), idxf(xk)), Lt(idxf(xk), n), Eq(keyf(idxf(xk)), xk))), Select(pres, xk)))
	// concrete small maps: iterate in insertion order
	g := s.top()
	g.env[i] = it
	// position cell
	cell := e.allocObj(s, types.Typ[types.Int])
	e.iterCell[it.id] = cell
	g.ip++
	return one(s)
}

func (e *Eng) next(s *State, f *Frame, i *ssa.Next) []*State {
	it, ok := e.get(s, f, i.Iter).(IterV)
	if !ok {
		panic(unsupported("next"))
	}
	cell := e.iterCell[it.id]
	pos := e.load(s, cell).(*T)
	ks := e.keySort(it.typ.Key())
	var key *T
	if ck := e.concreteKeys(it.pres); ck != nil && pos.isNum() && it.n.isNum() && it.n.ival.Int64() == int64(len(ck)) {
		if pos.ival.Int64() < int64(len(ck)) {
			key = ck[pos.ival.Int64()]
			e.note("range over a map literal is executed in insertion order")
		}
	}
	if key == nil {
		key = App(it.ord+"_key", ks, pos)
	}
	c := Lt(pos, it.n)
	cur := e.mapLen(s, it.m, it.typ)
	if cur != it.n {
		// map modified during iteration
		if !isTrue(Eq(cur, it.n)) {
			e.note("map modified while ranged over: entries added during the iteration are not visited")
		}
	}
	return e.fork(s, c, func(s *State) []*State {
		g := s.top()
		kv := e.keyVal(key, it.typ.Key())
		v, _ := e.mapLookupPresent(s, it.m, it.typ, kv)
		g.env[i] = TupleV{Bool(true), kv, v}
		e.store(s, cell, Add(pos, Num(1)))
		g.ip++
		return one(s)
	}, func(s *State) []*State {
		g := s.top()
		g.env[i] = TupleV{Bool(false), e.zero(it.typ.Key()), e.zero(it.typ.Elem())}
		g.ip++
		return one(s)
	})
}

func (e *Eng) mapLookupPresent(s *State, m *T, mt *types.Map, k Val) (Val, *T) {
	b := mapKeyBase(mt)
	kt, ks := e.keyTerm(k, mt.Key())
	var ts []*T
	for _, l := range e.leaves(mt.Elem()) {
		t := Select(Select(e.heapArr(s, b+"v"+l.path, arrSort(ks, l.sort)), m), kt)
		e.leafFact(t, l)
		ts = append(ts, t)
	}
	return e.unflat(mt.Elem(), ts), nil
}

// concreteKeys lists the keys of a presence array built by stores of true over an empty map.
func (e *Eng) concreteKeys(p *T) []*T {
	var ks []*T
	for p.op == "store" {
		if !isTrue(p.args[2]) {
			return nil
		}
		k := p.args[1]
		if !(k.isNum() || k.op == "strc" || k.op == "bool") {
			return nil
		}
		ks = append(ks, k)
		p = p.args[0]
	}
	if p.op != "constarr" || !isFalse(p.args[0]) {
		return nil
	}
	for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
		ks[i], ks[j] = ks[j], ks[i]
	}
	seen := map[string]bool{}
	out := ks[:0:0]
	for _, k := range ks {
		id := k.op + "|" + k.sval
		if k.isNum() {
			id = "n|" + k.ival.String()
		}
		if k.op == "bool" {
			id = fmt.Sprint("b|", isTrue(k))
		}
		if !seen[id] {
			seen[id] = true
			out = append(out, k)
		}
	}
	return out
}

var debugOn = os.Getenv("GOVC_DEBUG") != ""

func dbg(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortedStrs(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
