package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   FuncV
	args []Val
}

type PanicInfo struct {
	val  Val // IfaceV
	kind string
	pos  string
}

type Frame struct {
	id        int
	fn        *ssa.Function
	blk, prev *ssa.BasicBlock
	ip        int
	env       map[ssa.Value]Val
	free      []Val
	defers    []deferred
	call      ssa.Value // call instruction in the caller awaiting the result
	deferCall bool      // runs as a deferred call of the frame below
	pan       *PanicInfo
	recovered bool
	recMode   bool
	barrier   bool
	// builtin continuation when the frame returns (instead of call)
	cont   func(st *State, res []Val)
	unroll map[*ssa.BasicBlock]int
	atHead bool
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

type Chan struct {
	cap    int
	buf    []Val
	closed bool
}

type Thread struct {
	frames  []*Frame
	blocked bool
	main    bool
}

type State struct {
	frames     []*Frame
	heap       map[string]*T
	path       []*T
	next       *big.Int // allocation counter
	chans      map[string]*Chan
	others     []*Thread // other goroutines (suspended)
	notMain    bool      // a goroutine is running
	mainDone   bool
	leaked     int
	deadlock   bool
	chanEvents []*T
	steps      int
	mayPan     bool
	done       bool
	// result values when the bottom frame returned
	results     []Val
	uncaught    *PanicInfo
	blockedMain bool
	trace       []string
	cyc         int
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.heap = make(map[string]*T, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.path = append(make([]*T, 0, len(s.path)+8), s.path...)
	n.chans = make(map[string]*Chan, len(s.chans))
	for k, c := range s.chans {
		cc := *c
		cc.buf = append([]Val(nil), c.buf...)
		n.chans[k] = &cc
	}
	n.others = nil
	for _, t := range s.others {
		n.others = append(n.others, t.clone())
	}
	n.chanEvents = append([]*T(nil), s.chanEvents...)
	n.next = new(big.Int).Set(s.next)
	n.trace = append([]string(nil), s.trace...)
	return &n
}

func (t *Thread) clone() *Thread {
	n := *t
	n.frames = make([]*Frame, len(t.frames))
	for i, f := range t.frames {
		n.frames[i] = f.clone()
	}
	return &n
}

func (s *State) assume(t *T) {
	if isTrue(t) {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.path {
		if p == t {
			return
		}
	}
	s.path = append(s.path, t)
}

// ---- memory
var refBase = new(big.Int).Lsh(big.NewInt(1), 70)

func (s *State) alloc() *T {
	s.next = new(big.Int).Add(s.next, big.NewInt(1))
	return BigNum(new(big.Int).Neg(new(big.Int).Add(refBase, s.next)))
}

func objKey(owner types.Type, path string) string { return "O|" + typeKey(owner) + "|" + path }
func elemKey(el types.Type, path string) string   { return "E|" + typeKey(el) + "|" + path }

var h0Names = map[string]string{}

// h0 is the initial content of a memory region; regions have different symbols.
func h0(key string, sort Sort) *T {
	n := "H0_" + sanitize(key)
	for h0Names[n] != "" && h0Names[n] != key {
		n += "!"
	}
	h0Names[n] = key
	return Sym(n, sort)
}

func (e *Eng) heapArr(s *State, key string, val Sort) *T {
	if t, ok := s.heap[key]; ok {
		return t
	}
	t := h0(key, arrSort(SInt, val))
	if t.info == nil {
		t.info = &symInfo{initial: true}
	}
	s.heap[key] = t
	return t
}

// load reads the value a pointer refers to.
func (e *Eng) load(s *State, p PtrV) Val {
	if arr, ok := types.Unalias(p.typ).Underlying().(*types.Array); ok && !e.opaqueStruct(p.typ) && p.idx == nil && p.path == "" {
		var cs []*T
		for _, l := range e.leaves(arr.Elem()) {
			h := e.heapArr(s, elemKey(arr.Elem(), l.path), arrSort(SInt, l.sort))
			cs = append(cs, Select(h, p.ref))
		}
		return ArrV{p.typ, cs}
	}
	var ts []*T
	for _, l := range e.leaves(p.typ) {
		ts = append(ts, e.loadLeaf(s, p, l))
	}
	return e.unflat(p.typ, ts)
}

func (e *Eng) loadLeaf(s *State, p PtrV, l leaf) *T {
	var t *T
	if p.idx != nil {
		h := e.heapArr(s, elemKey(p.owner, p.path+l.path), arrSort(SInt, l.sort))
		t = Select(Select(h, p.ref), p.idx)
	} else {
		h := e.heapArr(s, objKey(p.owner, p.path+l.path), l.sort)
		t = Select(h, p.ref)
	}
	e.leafFact(t, l)
	return t
}

// leafFact records the type constraint of a value read from memory.
func (e *Eng) leafFact(t *T, l leaf) {
	if t.isNum() || len(t.bound) > 0 || t.op == "store" || e.factDone[t.id] {
		return
	}
	if t.op == "sym" || t.op == "select" || t.op == "app" {
		e.factDone[t.id] = true
		e.fact(typeFact(t, l))
		if t.op == "select" {
			r := t
			for r.op == "select" {
				r = r.args[0]
			}
			if r.info != nil && r.info.initial {
				if _, ok := l.typ.(*types.Basic); !ok && l.typ != nil && t.sort == SInt && (l.comp == "" || l.comp == "arr") {
					switch types.Unalias(l.typ).Underlying().(type) {
					case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
						e.fact(Le(Num(0), t))
					}
				}
			}
		}
	}
	if t.op == "ite" {
		// bounded depth
		for _, a := range t.args[1:] {
			e.leafFact(a, l)
		}
	}
}

func (e *Eng) store(s *State, p PtrV, v Val) {
	if arr, ok := types.Unalias(p.typ).Underlying().(*types.Array); ok && !e.opaqueStruct(p.typ) && p.idx == nil && p.path == "" {
		av := v.(ArrV)
		for i, l := range e.leaves(arr.Elem()) {
			k := elemKey(arr.Elem(), l.path)
			h := e.heapArr(s, k, arrSort(SInt, l.sort))
			s.heap[k] = Store(h, p.ref, av.comps[i])
		}
		return
	}
	ts := e.flat(v, p.typ)
	for i, l := range e.leaves(p.typ) {
		e.storeLeaf(s, p, l, ts[i])
	}
}

func (e *Eng) storeLeaf(s *State, p PtrV, l leaf, t *T) {
	if p.idx != nil {
		k := elemKey(p.owner, p.path+l.path)
		e.keyInfo[k] = leaf{comp: "elemarr"}
		h := e.heapArr(s, k, arrSort(SInt, l.sort))
		a := Select(h, p.ref)
		s.heap[k] = Store(h, p.ref, Store(a, p.idx, t))
	} else {
		k := objKey(p.owner, p.path+l.path)
		e.keyInfo[k] = l
		h := e.heapArr(s, k, l.sort)
		if t.sort != l.sort {
			panic("storing " + string(t.sort) + " at " + k + ": " + t.String())
		}
		s.heap[k] = Store(h, p.ref, t)
	}
}

// allocObj allocates a zeroed object of type t.
func (e *Eng) allocObj(s *State, t types.Type) PtrV {
	p := PtrV{ref: s.alloc(), owner: t, typ: t}
	if arr, ok := types.Unalias(t).Underlying().(*types.Array); ok && !e.opaqueStruct(t) {
		e.zeroElems(s, p.ref, arr.Elem())
		return p
	}
	for _, l := range e.leaves(t) {
		e.storeLeaf(s, p, l, e.zeroLeaf(l))
	}
	return p
}

func (e *Eng) zeroElems(s *State, ref *T, el types.Type) {
	for _, l := range e.leaves(el) {
		k := elemKey(el, l.path)
		as := arrSort(SInt, l.sort)
		h := e.heapArr(s, k, as)
		s.heap[k] = Store(h, ref, ConstArr(as, e.zeroLeaf(l)))
	}
}

// elemAt builds a pointer to element i of a backing array.
func elemPtr(arr, idx *T, el types.Type) PtrV {
	return PtrV{ref: arrBase(arr), idx: idx, owner: el, typ: el}
}
