package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func bigI(i int64) *big.Int { return big.NewInt(i) }

func (e *Eng) constName(t Val) string {
	x, ok := t.(*T)
	if !ok || x.op != "strc" {
		panic(unsupported("zzvrt: the name of an input must be a constant"))
	}
	return x.sval
}

func (e *Eng) idxArgs(s *State, v Val) []*T {
	vs, ok := e.varargs(s, v, types.Typ[types.Int])
	if !ok {
		panic(unsupported("zzvrt: index list"))
	}
	var ts []*T
	for _, x := range vs {
		ts = append(ts, x.(*T))
	}
	return ts
}

func (e *Eng) recInput(name, fn string, n int, dom int64) {
	if r, ok := e.inputs[name]; ok {
		if dom > r.dom {
			r.dom = dom
		}
		return
	}
	e.inputs[name] = &inputRec{name: name, fn: fn, dom: dom, arity: n}
	e.inputOrd = append(e.inputOrd, name)
}

// input is the term of an input (a constant or a function of the indices).
func (e *Eng) input(name, fn string, sort Sort, idx []*T, lo, hi *big.Int, dom int64) *T {
	e.recInput(name, fn, len(idx), dom)
	nm := "in_" + name
	if len(idx) == 0 {
		t := Sym(sanitize(nm), sort)
		if lo != nil && t.info == nil {
			t.info = &symInfo{lo: lo, hi: hi}
			e.fact(And(mk("<=", SBool, "", BigNum(lo), t), mk("<=", SBool, "", t, BigNum(hi))))
		}
		return t
	}
	t := App(nm, sort, idx...)
	if lo != nil && !e.implDone["inr:"+nm] {
		e.implDone["inr:"+nm] = true
		var vs []*T
		for range idx {
			vs = append(vs, FreshBoundAny("a", SInt))
		}
		y := App(nm, sort, vs...)
		appRange[y.name] = [2]*big.Int{lo, hi}
		e.fact(Forall(vs, And(mk("<=", SBool, "", BigNum(lo), y), mk("<=", SBool, "", y, BigNum(hi))), y))
	}
	return t
}

// errIn is the error Err(name, idx...).
func (e *Eng) errIn(fn *ssa.Function, name string, idx []*T) IfaceV {
	var et types.Type
	for _, p := range e.prog.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), "/zzvrt") {
			et = p.Pkg.Scope().Lookup("E").Type()
		}
	}
	nm := "oref_err_" + name
	mkRef := func(ix []*T) *T {
		if len(ix) == 0 {
			return App(nm, SInt, Num(0))
		}
		return App(nm, SInt, ix...)
	}
	e.distinctRefs(nm, len(idx))
	return IfaceV{dyn: types.NewPointer(et), val: PtrV{ref: mkRef(idx), owner: et, typ: et}}
}

// distinctRefs states that the references nm(i...) are not nil and differ from each other.
func (e *Eng) distinctRefs(nm string, n int) {
	if !e.implDone[nm] {
		e.implDone[nm] = true
		id := int64(len(e.errIDs) + 1)
		e.errIDs[nm] = id
		if n == 0 {
			n = 1
		}
		var vs []*T
		for i := 0; i < n; i++ {
			vs = append(vs, FreshBoundAny("a", SInt))
		}
		y := App(nm, SInt, vs...)
		cs := []*T{Lt(Num(0), y), Eq(App("errref_id", SInt, y), Num(id))}
		for i := range vs {
			cs = append(cs, Eq(App(fmt.Sprintf("errref_ix%d", i), SInt, y), vs[i]))
		}
		e.fact(Forall(vs, And(cs...), y))
	}
}

var i64lo, i64hi = bigI(math.MinInt64), bigI(math.MaxInt64)

func (e *Eng) intrinsic(s *State, fn *ssa.Function, name string, args []Val, call ssa.Value, deferCall bool) ([]*State, bool) {
	fin := func(v ...Val) ([]*State, bool) { return e.finish(s, call, deferCall, v), true }
	num := func(sort Sort, lo, hi *big.Int) ([]*State, bool) {
		return fin(e.input(e.constName(args[0]), name, sort, e.idxArgs(s, args[1]), lo, hi, 0))
	}
	switch name {
	case "Bool":
		return num(SBool, nil, nil)
	case "Int", "Int64":
		return num(SInt, i64lo, i64hi)
	case "Int32":
		return num(SInt, bigI(math.MinInt32), bigI(math.MaxInt32))
	case "Uint32":
		return num(SInt, bigI(0), bigI(math.MaxUint32))
	case "Uint64":
		return num(SInt, bigI(0), new(big.Int).SetUint64(math.MaxUint64))
	case "Float64":
		return num(SF64, nil, nil)
	case "Size":
		return num(SInt, bigI(0), maxIter)
	case "String":
		return num(SStr, nil, nil)
	case "Bytes":
		nm := e.constName(args[0])
		idx := e.idxArgs(s, args[1])
		x := e.input(nm, "String", SStr, idx, nil, nil, 0)
		return fin(e.strToSlice(s, x, types.Typ[types.Uint8]))
	case "Choice":
		n := args[1].(*T)
		if !n.isNum() {
			panic(unsupported("zzvrt.Choice: n must be constant"))
		}
		return fin(e.input(e.constName(args[0]), name, SInt, e.idxArgs(s, args[2]), bigI(0), new(big.Int).Sub(n.ival, bigI(1)), n.ival.Int64()))
	case "Err":
		return fin(e.errIn(fn, e.constName(args[0]), e.idxArgs(s, args[1])))
	case "ErrE":
		return fin(e.errIn(fn, e.constName(args[0]), e.idxArgs(s, args[1])).val)
	case "ErrOrNil":
		nm := e.constName(args[0])
		idx := e.idxArgs(s, args[1])
		b := e.input("nil_"+nm, "Bool", SBool, idx, nil, nil, 0)
		ev := e.errIn(fn, nm, idx)
		t := Ite(b, NilIface(), e.ifaceTerm(ev))
		e.staticIface[t.id] = types.Universe.Lookup("error").Type()
		return fin(e.ifaceVal(t))
	case "Error": // (*E).Error
		return fin(App("errtext", SStr, e.ifaceTerm(IfaceV{dyn: types.Unalias(fn.Params[0].Type()), val: args[0]})))
	case "Requires":
		c := args[0].(*T)
		if !e.feasible(s, c) {
			return nil, true
		}
		s.assume(c)
		return fin()
	case "Ensures":
		pos := ""
		if ci, ok := call.(ssa.Instruction); ok {
			pos = e.pos(ci)
		}
		e.prove(s, "postcondition", args[1].(*T), e.constName(args[0]), pos)
		return fin()
	case "MayPanic":
		s.mayPan = true
		return fin()
	case "Any":
		return fin(e.havoc(s, fn.Signature.Results().At(0).Type(), "in_"+sanitize(e.constName(args[0]))))
	case "Obj": // an object of its own for every index, its contents arbitrary
		idx := e.idxArgs(s, args[1])
		el := types.Unalias(fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem()
		nm := "oref_obj_" + sanitize(e.constName(args[0]))
		e.distinctRefs(nm, len(idx))
		if len(idx) == 0 {
			idx = []*T{Num(0)}
		}
		return fin(PtrV{ref: App(nm, SInt, idx...), owner: el, typ: el})
	case "Missing":
		panic(unsupported("the contract does not find " + e.constName(args[0])))
	case "Native":
		return fin(Bool(false))
	case "Implies":
		return fin(Implies(args[0].(*T), args[1].(*T)))
	case "Forall", "Exists":
		return fin(e.quantify(s, name == "Forall", args[0].(*T), args[1].(*T), args[2].(FuncV)))
	case "SameF":
		if args[0].(*T) == args[1].(*T) {
			return fin(Bool(true))
		}
		return fin(App("same_f64", SBool, args[0].(*T), args[1].(*T)))
	case "Register":
		return fin()
	}
	return nil, false
}

// evalBool runs a boolean closure on one argument without side effects and
// returns its value as one term.
func (e *Eng) evalBool(s *State, f FuncV, args []Val) *T {
	n := s.clone()
	depth := len(n.frames)
	if f.fn == nil {
		panic(unsupported("quantifier over an unknown function"))
	}
	p0 := map[*T]bool{}
	for _, p := range n.path {
		p0[p] = true
	}
	e.push(n, f.fn, f.bind, args, nil, false)
	fr := n.top()
	fr.barrier = true
	got := map[*State]*T{}
	fr.cont = func(st *State, r []Val) {
		if len(r) == 1 {
			got[st] = r[0].(*T)
		} else {
			got[st] = Bool(false)
		}
	}
	e.suppress++
	ends := func() []*State {
		defer func() { e.suppress-- }()
		return e.explore(n, func(st *State) bool { return len(st.frames) <= depth })
	}()
	var res *T = Bool(false)
	if len(ends) == 0 {
		panic(unsupported("quantifier body does not return"))
	}
	for _, x := range ends {
		var cs []*T
		for _, p := range x.path {
			if !p0[p] {
				cs = append(cs, p)
			}
		}
		v, ok := got[x]
		if !ok {
			panic(unsupported("quantifier body"))
		}
		res = Or(res, And(And(cs...), v))
	}
	return res
}

func (e *Eng) quantify(s *State, all bool, lo, hi *T, f FuncV) *T {
	mark := termSeq
	x := Fresh("qi", SInt)
	x.info = &symInfo{lo: bigI(math.MinInt64), hi: bigI(math.MaxInt64)}
	if l, _ := rng(lo); l != nil {
		x.info.lo = l
	}
	if _, h := rng(hi); h != nil {
		x.info.hi = h
	}
	dom := And(mk("<=", SBool, "", lo, x), Not(mk("<=", SBool, "", hi, x)))
	n := s.clone()
	n.assume(dom)
	fm := len(e.factLog)
	e.quantDepth++
	var body *T
	func() {
		defer func() { e.quantDepth-- }()
		body = e.evalBool(n, f, []Val{x})
	}()
	k := FreshBoundAny("q", SInt)
	sub := func(t *T) *T { return Subst(t, map[int]*T{x.id: k}) }
	check := func(t *T) {
		syms := map[*T]bool{}
		SymsOf(t, syms)
		for y := range syms {
			if y != x && y.id >= mark && strings.Contains(y.name, "!") {
				panic(unsupported("fresh value inside a quantifier: " + y.name))
			}
		}
	}
	check(body)
	for _, ft := range append([]*T(nil), e.factLog[fm:]...) {
		if Occurs(ft, x) && len(ft.bound) == 0 {
			check(ft)
			e.fact(Forall([]*T{k}, sub(ft)))
		}
	}
	dk := sub(dom)
	if all {
		return Forall([]*T{k}, Implies(dk, sub(body)))
	}
	return Not(Forall([]*T{k}, Implies(dk, Not(sub(body)))))
}

// ---- obligations
func (e *Eng) obl(kind, name, pos string) *Obl {
	k := kind + ": " + name
	o := e.obls[k]
	if o == nil {
		o = &Obl{Name: name, Kind: kind, Pos: pos, Backends: map[string]int{}}
		e.obls[k] = o
		e.oblOrder = append(e.oblOrder, k)
	}
	return o
}

func (e *Eng) prove(s *State, kind string, cond *T, name, pos string) {
	if e.suppress > 0 {
		return
	}
	o := e.obl(kind, name, pos)
	if cond.op == "and" {
		for _, c := range cond.args {
			e.prove1(s, o, c)
		}
		return
	}
	e.prove1(s, o, cond)
}

func (e *Eng) prove1(s *State, o *Obl, cond *T) {
	if isTrue(cond) {
		o.Discharged++
		o.Backends["simplifier"]++
		return
	}
	for _, p := range s.path {
		if p == cond {
			o.Discharged++
			o.Backends["simplifier"]++
			return
		}
	}
	neg := Not(cond)
	if e.failWall > 25*time.Second || o.Refuted+o.Undecided >= 2 {
		// the contract is not going to be proved: only look for more refutations cheaply
		if r := e.sol.Check(s.path, neg, 200); r == Unsat {
			o.Discharged++
			o.Backends["z3"]++
		} else {
			o.Undecided++
		}
		return
	}
	tp := time.Now()
	defer func() {
		if o.Refuted+o.Undecided > 0 {
			e.failWall += time.Since(tp)
		}
	}()
	r := e.sol.Check(s.path, neg, e.proveTO)
	if r == Unsat {
		o.Discharged++
		o.Backends["z3"]++
		return
	}
	if r == Unknown {
		var t0 = time.Now()
		r, _ = z3Script(e.sol.Script(s.path, neg), nil, e.proveTO/2)
		e.sol.wall += time.Since(t0)
		e.sol.queries++
		if r == Unsat {
			o.Discharged++
			o.Backends["z3-mbqi"]++
			return
		}
	}
	if r == Unknown && !e.noCvc5 {
		sc := e.sol.Script(s.path, neg)
		e.cvc5Runs++
		r = cvc5Check(sc, e.proveTO)
		if r == Unsat {
			o.Discharged++
			o.Backends["cvc5"]++
			return
		}
	}
	if debugOn {
		dbg("NOT PROVED (%s) %s: %s", r, o.Name, cond)
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s_np%d.smt2", d, e.sol.queries), []byte("; "+o.Name+"\n"+e.sol.Script(s.path, neg)), 0o644)
		}
		for _, p := range s.path {
			dbg("   path %s", p)
		}
	}
	if o.Detail == "" {
		o.Detail = truncate(cond.String(), 1500)
		o.Path = nil
		for _, p := range s.path {
			o.Path = append(o.Path, truncate(p.String(), 300))
			if len(o.Path) > 40 {
				break
			}
		}
		o.Script = e.sol.Script(s.path, neg)
	}
	if r == Sat {
		o.Refuted++
		if len(o.Models) < 3 {
			if m := e.concretise(s, neg); m != nil {
				o.Models = append(o.Models, m)
			}
		}
		return
	}
	o.Undecided++
	// small instances may still have a counterexample
	if len(o.Models) < 2 {
		if m := e.concretise(s, neg); m != nil {
			o.Models = append(o.Models, m)
		}
	}
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// concretise turns a solver model into input values for the native replay.
func (e *Eng) concretise(s *State, neg *T) map[string]string {
	var small []*T
	for _, n := range e.inputOrd {
		r := e.inputs[n]
		if r.fn == "Size" && r.arity == 0 {
			small = append(small, Le(Sym(sanitize("in_"+n), SInt), Num(3)))
		}
	}
	var terms []*T
	names := map[*T]string{}
	kinds := map[*T]string{}
	add := func(t *T, n, fn string) {
		if _, ok := names[t]; ok {
			return
		}
		names[t] = n
		kinds[t] = fn
		terms = append(terms, t)
	}
	for _, n := range e.inputOrd {
		r := e.inputs[n]
		srt := SInt
		switch r.fn {
		case "Bool":
			srt = SBool
		case "String":
			srt = SStr
		case "Float64":
			continue
		}
		switch r.arity {
		case 0:
			add(Sym(sanitize("in_"+n), srt), n, r.fn)
		case 1:
			for i := int64(0); i < 4; i++ {
				add(App("in_"+n, srt, Num(i)), fmt.Sprintf("%s[%d]", n, i), r.fn)
			}
		case 2:
			for i := int64(0); i < 3; i++ {
				for j := int64(0); j < 3; j++ {
					add(App("in_"+n, srt, Num(i), Num(j)), fmt.Sprintf("%s[%d,%d]", n, i, j), r.fn)
				}
			}
		}
	}
	var strs []*T
	for _, t := range allStrConsts() {
		strs = append(strs, t)
	}
	q := And(append([]*T{neg}, small...)...)
	all := append(append([]*T(nil), terms...), strs...)
	for _, t := range all {
		e.sol.pr.declare(t)
	}
	var es []string
	for _, t := range all {
		es = append(es, e.sol.pr.str(t))
	}
	sc := e.sol.Script(s.path, q)
	r, vs := z3Script(sc, es, 1500)
	if r != Sat || len(vs) < len(all) {
		// a model of the quantifier-free part; the native replay decides
		var ls []string
		for _, l := range strings.Split(sc, "\n") {
			if !strings.HasPrefix(l, "(assert (forall") {
				ls = append(ls, l)
			}
		}
		r, vs = z3Script(strings.Join(ls, "\n"), es, 1500)
		if r != Sat || len(vs) < len(all) {
			return nil
		}
	}
	m := map[*T]string{}
	for i, t := range all {
		m[t] = vs[i]
	}
	lit := map[string]string{}
	for _, t := range strs {
		lit[m[t]] = t.sval
	}
	out := map[string]string{}
	for _, t := range terms {
		v := m[t]
		switch kinds[t] {
		case "Bool":
			out[names[t]] = v
		case "String":
			if l, ok := lit[v]; ok {
				out[names[t]] = l
			} else {
				out[names[t]] = "s" + strings.Map(func(r rune) rune {
					if r >= '0' && r <= '9' {
						return r
					}
					return -1
				}, v)
			}
		default:
			v = strings.ReplaceAll(strings.Trim(v, "()"), "- ", "-")
			out[names[t]] = strings.TrimSpace(v)
		}
	}
	return out
}
