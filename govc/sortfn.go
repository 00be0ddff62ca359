package main

import (
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalBool2 evaluates a two-argument predicate for arbitrary arguments in the
// domain and returns its value with the arguments replaced by bound variables.
func (e *Eng) evalBool2(s *State, f FuncV, n *T) (body, i, j, dom *T) {
	mark := termSeq
	var xs []*T
	for k := 0; k < 2; k++ {
		x := Fresh("qi", SInt)
		x.info = &symInfo{lo: bigI(0), hi: bigI(math.MaxInt64)}
		if _, h := rng(n); h != nil {
			x.info.hi = h
		}
		xs = append(xs, x)
	}
	m := s.clone()
	for _, x := range xs {
		m.assume(And(Le(Num(0), x), Not(mk("<=", SBool, "", n, x))))
	}
	fm := len(e.factLog)
	e.quantDepth++
	func() {
		defer func() { e.quantDepth-- }()
		body = e.evalBool(m, f, []Val{xs[0], xs[1]})
	}()
	i, j = FreshBoundAny("i", SInt), FreshBoundAny("j", SInt)
	sub := func(t *T) *T { return Subst(t, map[int]*T{xs[0].id: i, xs[1].id: j}) }
	check := func(t *T) {
		syms := map[*T]bool{}
		SymsOf(t, syms)
		for y := range syms {
			if y != xs[0] && y != xs[1] && y.id >= mark && strings.Contains(y.name, "!") {
				panic(unsupported("fresh value inside a comparison: " + y.name))
			}
		}
	}
	check(body)
	for _, ft := range append([]*T(nil), e.factLog[fm:]...) {
		if (Occurs(ft, xs[0]) || Occurs(ft, xs[1])) && len(ft.bound) == 0 {
			check(ft)
			e.fact(Forall([]*T{i, j}, sub(ft)))
		}
	}
	d := func(x *T) *T { return And(mk("<=", SBool, "", Num(0), x), Not(mk("<=", SBool, "", n, x))) }
	return sub(body), i, j, And(d(i), d(j))
}

// sortSlice is sort.Slice(x, less) or sort.SliceStable(x, less): the elements
// are permuted so that no element is less than an earlier one, and the stable
// variant keeps the order of elements neither of which is less than the other.
// less is assumed to be a strict weak order, as the functions require.
func (e *Eng) sortSlice(s *State, name string, args []Val, call ssa.Value, deferCall bool, stable bool) ([]*State, bool) {
	iv, ok := args[0].(IfaceV)
	if !ok || iv.dyn == nil {
		return nil, false
	}
	st, ok := types.Unalias(iv.dyn).Underlying().(*types.Slice)
	sv, ok2 := iv.val.(SliceV)
	less, ok3 := args[1].(FuncV)
	if !ok || !ok2 || !ok3 || less.fn == nil {
		return nil, false
	}
	el := st.Elem()
	if e.sortConcrete(s, sv, el, less, stable) {
		return e.finish(s, call, deferCall, nil), true
	}
	e.note("assumed of " + name + ": the result is the elements permuted into an order in which no element is less than an earlier one" + map[bool]string{true: ", equivalent elements keeping their order", false: ""}[stable])
	// the comparison does not panic on any two positions
	chk := s.clone()
	n := sv.len
	a, b := Fresh("cmp_i", SInt), Fresh("cmp_j", SInt)
	for _, x := range []*T{a, b} {
		x.info = &symInfo{lo: bigI(0), hi: bigI(math.MaxInt64)}
		chk.assume(And(Le(Num(0), x), Not(Le(n, x))))
	}
	if e.feasible(chk, Bool(true)) {
		depth := len(chk.frames)
		e.push(chk, less.fn, less.bind, []Val{a, b}, nil, false)
		fr := chk.top()
		fr.barrier = true
		fr.cont = func(*State, []Val) {}
		e.explore(chk, func(x *State) bool { return len(x.frames) <= depth })
	}
	pi := e.permute(s, sv, el)
	body, i, j, dom := e.evalBool2(s, less, n)
	rev := Subst(body, map[int]*T{i.id: j, j.id: i})
	lt := Not(mk("<=", SBool, "", j, i))
	s.assume(ForallMulti([]*T{i, j}, Implies(And(dom, lt), Not(rev)), []*T{pi(i), pi(j)}))
	if stable {
		s.assume(ForallMulti([]*T{i, j}, Implies(And(dom, lt, Not(body)), Not(mk("<=", SBool, "", pi(j), pi(i)))), []*T{pi(i), pi(j)}))
	}
	return e.finish(s, call, deferCall, nil), true
}

// sortConcrete sorts a short slice when every comparison of two elements is decided.
func (e *Eng) sortConcrete(s *State, sv SliceV, el types.Type, less FuncV, stable bool) bool {
	if !sv.len.isNum() || !sv.len.ival.IsInt64() || sv.len.ival.Int64() > 8 || !sv.off.isNum() {
		return false
	}
	n := int(sv.len.ival.Int64())
	lt := make([][]bool, n)
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); !is {
					panic(r)
				}
				ok = false
			}
		}()
		for i := 0; i < n; i++ {
			lt[i] = make([]bool, n)
			for j := 0; j < n; j++ {
				if i == j {
					continue
				}
				t := e.evalBool(s, less, []Val{Num(int64(i)), Num(int64(j))})
				if !isTrue(t) && !isFalse(t) {
					return false
				}
				lt[i][j] = isTrue(t)
			}
		}
		return true
	}()
	if !ok {
		return false
	}
	var vals []Val
	for i := 0; i < n; i++ {
		vals = append(vals, e.load(s, elemPtr(sv.arr, Add(sv.off, Num(int64(i))), el)))
	}
	var ord []int
	for i := 0; i < n; i++ {
		k := len(ord)
		for k > 0 && lt[i][ord[k-1]] {
			k--
		}
		for _, o := range ord {
			if !stable && !lt[i][o] && !lt[o][i] {
				return false
			}
		}
		ord = append(ord[:k], append([]int{i}, ord[k:]...)...)
	}
	for i, o := range ord {
		e.store(s, elemPtr(sv.arr, Add(sv.off, Num(int64(i))), el), vals[o])
	}
	e.note("sort.Slice of a short slice whose comparisons are decided is executed")
	return true
}

// sortStrings is sort.Strings or slices.Sort of constant strings.
func (e *Eng) sortStrings(s *State, sv SliceV) bool {
	if !sv.len.isNum() || !sv.len.ival.IsInt64() || sv.len.ival.Int64() > 32 || !sv.off.isNum() {
		return false
	}
	var ss []string
	at := func(i int) PtrV { return elemPtr(sv.arr, Add(sv.off, Num(int64(i))), strT) }
	for i := 0; i < int(sv.len.ival.Int64()); i++ {
		t, ok := e.load(s, at(i)).(*T)
		if !ok || t.op != "strc" {
			return false
		}
		ss = append(ss, t.sval)
	}
	sort.Strings(ss)
	for i, x := range ss {
		e.store(s, at(i), StrC(x))
	}
	return true
}

// permute permutes the elements of the slice by an arbitrary permutation and returns it.
func (e *Eng) permute(s *State, sv SliceV, el types.Type) func(*T) *T {
	n := sv.len
	id := Fresh("perm", SInt).name
	pi := func(t *T) *T { return App("pi_"+id, SInt, t) }
	inv := func(t *T) *T { return App("pinv_"+id, SInt, t) }
	k := FreshBoundAny("k", SInt)
	in := func(t *T) *T { return And(mk("<=", SBool, "", Num(0), t), Not(mk("<=", SBool, "", n, t))) }
	e.fact(Forall([]*T{k}, Implies(in(k), And(in(pi(k)), Eq(inv(pi(k)), k))), pi(k)))
	e.fact(Forall([]*T{k}, Implies(in(k), And(in(inv(k)), Eq(pi(inv(k)), k))), inv(k)))
	for _, l := range e.leaves(el) {
		key := elemKey(el, l.path)
		h := e.heapArr(s, key, arrSort(SInt, l.sort))
		old := Select(h, arrBase(sv.arr))
		// every element of the original slice has a place in the result
		if t := Select(old, Add(sv.off, k)); t.op == "app" && len(t.args) == 1 && t.args[0] == k {
			e.fact(Forall([]*T{k}, Implies(in(k), And(in(inv(k)), Eq(pi(inv(k)), k))), t))
		} else if t.op == "ite" {
			for _, u := range t.args[1:] {
				if u.op == "app" && len(u.args) == 1 && u.args[0] == k {
					e.fact(Forall([]*T{k}, Implies(in(k), And(in(inv(k)), Eq(pi(inv(k)), k))), u))
				}
			}
		}
		x := FreshBoundAny("x", SInt)
		rel := Sub(x, sv.off)
		body := Ite(in(rel), Select(old, Add(sv.off, pi(rel))), Select(old, x))
		if n.isNum() && n.ival.Sign() == 0 {
			continue
		}
		s.heap[key] = Store(h, arrBase(sv.arr), Lam(x, body))
	}
	return pi
}

// sortStringsAny is sort.Strings of any slice.
func (e *Eng) sortStringsAny(s *State, sv SliceV) {
	e.note("assumed of sort.Strings: the result is the elements permuted into an order in which no element is less than an earlier one")
	e.strOrder()
	pi := e.permute(s, sv, strT)
	i, j := FreshBoundAny("i", SInt), FreshBoundAny("j", SInt)
	at := func(k *T) *T { return e.load(s, elemPtr(sv.arr, Add(sv.off, k), strT)).(*T) }
	d := func(x *T) *T { return And(mk("<=", SBool, "", Num(0), x), Not(mk("<=", SBool, "", sv.len, x))) }
	s.assume(ForallMulti([]*T{i, j}, Implies(And(d(i), d(j), Not(mk("<=", SBool, "", j, i))), Not(App("slt", SBool, at(j), at(i)))), []*T{pi(i), pi(j)}))
}
