package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}
type loops struct {
	header map[*ssa.BasicBlock]*loop
}

func (e *Eng) loopsOf(fn *ssa.Function) *loops {
	if l, ok := e.loopInfo[fn]; ok {
		return l
	}
	ls := &loops{header: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				lp := ls.header[h]
				if lp == nil {
					lp = &loop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
					ls.header[h] = lp
				}
				var stack []*ssa.BasicBlock
				if !lp.body[b] {
					lp.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !lp.body[p] {
							lp.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loopInfo[fn] = ls
	return ls
}

// atHeader decides between unrolling and cutting the loop.
func (e *Eng) atHeader(s *State, lp *loop) []*State {
	f := s.top()
	depth := len(s.frames)
	id := f.id
	if f.unroll == nil {
		f.unroll = map[*ssa.BasicBlock]int{}
	}
	u := map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		u[k] = v
	}
	u[lp.head]++
	f.unroll = u
	term := lp.head.Instrs[len(lp.head.Instrs)-1]
	iff, isIf := term.(*ssa.If)
	if isIf && !(lp.body[lp.head.Succs[0]] && lp.body[lp.head.Succs[1]]) {
		n := s.clone()
		e.phis(n)
		e.suppress++
		ends := func() []*State {
			defer func() { e.suppress-- }()
			return e.explore(n, func(st *State) bool {
				if len(st.frames) < depth {
					return true
				}
				t := st.top()
				return len(st.frames) == depth && t.id == id && t.pan == nil && (t.blk != lp.head || t.blk.Instrs[t.ip] == ssa.Instruction(iff))
			})
		}()
		if len(ends) == 1 && len(ends[0].frames) == depth && ends[0].top().blk == lp.head && ends[0].top().pan == nil && !ends[0].done {
			if c, ok := ends[0].top().env[iff.Cond].(*T); ok && (isTrue(c) || isFalse(c)) {
				if f.unroll[lp.head] > 5000 {
					panic(unsupported("unrolling limit"))
				}
				e.phis(s)
				return one(s)
			}
		}
	}
	return e.cut(s, lp)
}

// ---- loop variables
type lvar struct {
	name  string
	sort  Sort
	init  *T
	cur   *T // value at iteration n
	known bool
	class string
	// location
	phi  *ssa.Phi
	leaf int
	key  string // heap cell
	ref  *T
	info leaf
	// slice group
	grp *sgrp
	// decomposed constructor
	ctor string
	kids []*lvar
	typ  types.Type
	fail bool
}

// sgrp: a slice-valued loop variable.
type sgrp struct {
	el    types.Type
	init  SliceV
	cont  []*T // initial content arrays (offset kept)
	cur   SliceV
	ccur  []*T
	known bool
	class string
	name  string
}

type loopRec struct{ name string }

func (e *Eng) cut(s0 *State, lp *loop) (out []*State) {
	f0 := s0.top()
	depth := len(s0.frames)
	fid := f0.id
	e.loopSeq++
	ln := fmt.Sprintf("L%d", e.loopSeq)
	pos := ""
	for _, in := range lp.head.Instrs {
		if in.Pos().IsValid() {
			pos = e.pos(in)
			break
		}
	}
	if pos == "" {
		pos = e.pos(lp.head.Instrs[len(lp.head.Instrs)-1])
	}
	dbg("cut loop %s in %s at %s", ln, f0.fn, pos)
	if len(s0.others) > 0 {
		// allowed as long as the loop itself never hands over to another goroutine
		e.noSwitch++
		defer func() { e.noSwitch-- }()
	}
	n := Sym(ln+"_n", SInt)
	n.info = &symInfo{lo: big.NewInt(0), hi: maxIter}
	e.fact(mk("<=", SBool, "", Num(0), n))
	e.fact(mk("<=", SBool, "", n, BigNum(maxIter)))

	// initial loop variables: the phi nodes
	var vars []*lvar
	pi := -1
	for k, p := range lp.head.Preds {
		if p == f0.prev {
			pi = k
		}
	}
	for _, ins := range lp.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			if _, d := ins.(*ssa.DebugRef); d {
				continue
			}
			break
		}
		iv := e.get(s0, f0, p.Edges[pi])
		vars = append(vars, e.phiVars(s0, ln, p, iv)...)
	}
	base := s0.clone()
	base.path = append([]*T(nil), s0.path...)
	stride := big.NewInt(0)
	havocKeys := map[string]bool{}
	famWrites := map[string]bool{}
	_ = famWrites
	var regVals map[string][]regVal
	var stayQ *T // quantified facts for k<n
	var final []*State
	var stay *T

	k := FreshBound("it" + ln)
	for round := 0; ; round++ {
		if round > 14+len(vars) {
			panic(unsupported("loop inference does not converge at " + pos))
		}
		allKnown := true
		for _, v := range flatVars(vars) {
			if !v.isKnown() {
				allKnown = false
			}
		}
		finalRound := allKnown && round > 0 && stay != nil
		st := base.clone()
		startCnt := new(big.Int).Add(base.next, new(big.Int).Mul(stride, maxIter))
		st.next = new(big.Int).Set(startCnt)
		st.assume(Le(Num(0), n))
		symMark := termSeq
		// place the loop variables
		if finalRound {
			e.placeRegions(base, st, regVals, stride, n, k)
			if stayQ != nil {
				st.assume(stayQ)
			}
		}
		for key := range havocKeys {
			h := st.heap[key]
			if h != nil {
				st.heap[key] = App("hav_"+ln+"_"+sanitize(key), h.sort, n)
			}
		}
		e.placeVars(st, ln, vars)
		symMark = termSeq
		startPath := len(st.path)
		_ = startPath
		startHeap := map[string]*T{}
		for kk, vv := range st.heap {
			startHeap[kk] = vv
		}
		factMark := len(e.factLog)
		// run the body
		g := st.top()
		g.blk = lp.head
		g.atHead = false
		g.unroll = nil
		nph := 0
		for _, ins := range lp.head.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				nph++
				continue
			}
			break
		}
		g.ip = firstNonPhi(lp.head)
		bodyStart := termSeq
		_ = bodyStart
		basePath := append([]*T(nil), st.path...)
		if !finalRound {
			e.suppress++
		}
		var ends []*State
		func() {
			if !finalRound {
				defer func() { e.suppress-- }()
			}
			ends = e.explore(st, func(x *State) bool {
				if len(x.frames) < depth {
					return true
				}
				t := x.top()
				if len(x.frames) != depth || t.id != fid {
					return false
				}
				if t.pan != nil {
					return true
				}
				if t.blk == lp.head && t.atHead {
					return true
				}
				return !lp.body[t.blk]
			})
		}()
		var back, exits []*State
		for _, x := range ends {
			if !x.done && len(x.frames) == depth && x.top().id == fid && x.top().pan == nil && x.top().blk == lp.head && x.top().atHead {
				back = append(back, x)
			} else {
				exits = append(exits, x)
			}
		}
		// region size
		grow := false
		for _, b := range back {
			used := new(big.Int).Sub(b.next, startCnt)
			if used.Cmp(stride) > 0 {
				stride = used
				grow = true
			}
			if len(b.others) != len(s0.others) || len(b.frames) > 0 && b.notMain != s0.notMain {
				panic(unsupported("goroutine started in a loop"))
			}
		}
		gn := &generaliser{e: e, n: n, mark: symMark, startCnt: startCnt, baseCnt: base.next, stride: stride, pre: ln}
		// modified memory
		added := false
		newReg := map[string][]regVal{}
		for _, b := range back {
			for _, key := range sortedKeys(b.heap) {
				h := b.heap[key]
				sh, ok := startHeap[key]
				if !ok {
					// first touched in the body: compare with its initial array
					if h.op == "sym" {
						continue
					}
					sh = h0(key, h.sort)
				}
				if h == sh || havocKeys[key] {
					continue
				}
				idxs, vals, ok := storeChain(h, sh)
				if !ok {
					dbg("  havoc %s (chain) h=%.300s sh=%.300s", key, h, sh)
					havocKeys[key] = true
					added = true
					continue
				}
				for j, ix := range idxs {
					if gn.inRegion(ix) {
						newReg[key] = append(newReg[key], regVal{ix.ival, vals[j], b})
						continue
					}
					if gn.dependent(ix) {
						dbg("  havoc %s (index %s)", key, ix)
						havocKeys[key] = true
						added = true
						break
					}
					if !e.hasCell(vars, key, ix) {
						vars = append(vars, e.cellVars(base, ln, key, ix, h.sort)...)
						dbg("  cell %s @ %s", key, ix)
						added = true
					}
				}
			}
		}
		if finalRound && !added && !grow {
			final = exits
			// check preservation
			e.checkPreserved(ln, pos, back, vars, n)
			// facts about body symbols hold for the earlier iterations too
			for _, ft := range append([]*T(nil), e.factLog[factMark:]...) {
				if len(ft.bound) == 0 && gn.hasNew(ft) {
					gf := gn.gen(ft, k)
					e.fact(Forall([]*T{k}, Implies(Le(Num(0), k), gf)))
				}
			}
			break
		}
		if added || grow {
			stay = nil
			for _, v := range flatVars(vars) {
				_ = v
			}
			if added {
				for _, v := range vars {
					v.reset()
				}
			}
			continue
		}
		// classification
		var conds []*T
		for _, b := range back {
			var cs []*T
			bp := map[*T]bool{}
			for _, p := range basePath {
				bp[p] = true
			}
			for _, p := range b.path {
				if !bp[p] {
					cs = append(cs, p)
				}
			}
			conds = append(conds, And(cs...))
		}
		e.streamPath, e.streamHyp = basePath, gn.gen(Or(conds...), k)
		progress := e.classify(ln, vars, back, conds, gn, n, k)
		if progress {
			stay = nil
			continue
		}
		// everything classified (or declared opaque): summary of staying
		allKnown = true
		for _, v := range flatVars(vars) {
			if !v.isKnown() {
				allKnown = false
				v.makeOpaque(e, ln, n)
			}
		}
		if !allKnown {
			stay = nil
			continue
		}
		stay, stayQ = e.stayFacts(base, conds, gn, n, k)
		regVals = map[string][]regVal{}
		for key, rv := range newReg {
			if !havocKeys[key] {
				regVals[key] = e.genReg(rv, back, conds, gn, k)
			}
		}
		_ = final
		if stay == nil {
			stay = Bool(true)
		}
	}
	e.loopStat[pos] = classSummary(vars)
	for _, x := range final {
		if !x.done && len(x.frames) == depth && x.top().id == fid && x.top().pan == nil {
			// continue at the block reached; if it is itself a loop header let
			// the normal mechanism handle it
		}
		out = append(out, x)
	}
	dbg("loop %s: %s, %d exits", ln, classSummary(vars), len(out))
	return out
}

func classSummary(vars []*lvar) string {
	var ss []string
	for _, v := range flatVars(vars) {
		c := v.class
		if v.grp != nil {
			c = "slice:" + v.grp.class
		}
		ss = append(ss, v.name+"="+c)
	}
	return strings.Join(ss, " ")
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		}
		return i
	}
	return 0
}

func flatVars(vs []*lvar) []*lvar {
	var out []*lvar
	for _, v := range vs {
		if v.ctor != "" {
			out = append(out, flatVars(v.kids)...)
		} else {
			out = append(out, v)
		}
	}
	return out
}

func (v *lvar) isKnown() bool {
	if v.grp != nil {
		return v.grp.known
	}
	return v.known
}

func (v *lvar) reset() {
	for _, k := range v.kids {
		k.reset()
	}
	if v.grp != nil {
		v.grp.known = false
		v.grp.class = ""
		return
	}
	v.known = false
	v.class = ""
}

func (v *lvar) makeOpaque(e *Eng, ln string, n *T) {
	if v.grp != nil {
		g := v.grp
		g.known = true
		g.class = "opaque"
		g.cur.len = App(ln+"_"+g.name+"_len", SInt, n)
		e.famFact(g.cur.len, leaf{comp: "len"})
		g.cur.off = Num(0)
		g.ccur = nil
		for i, l := range e.leaves(g.el) {
			g.ccur = append(g.ccur, App(fmt.Sprintf("%s_%s_c%d", ln, g.name, i), arrSort(SInt, l.sort), n))
		}
		return
	}
	v.known = true
	v.class = "opaque"
	v.cur = App(ln+"_"+v.name, v.sort, n)
	e.famFact(v.cur, v.info)
}

// phiVars builds the loop variables of one phi.
func (e *Eng) phiVars(s *State, ln string, p *ssa.Phi, iv Val) []*lvar {
	nm := p.Comment
	if nm == "" {
		nm = p.Name()
	}
	switch x := iv.(type) {
	case SliceV:
		el := types.Unalias(p.Type()).Underlying().(*types.Slice).Elem()
		return []*lvar{{name: nm, phi: p, typ: p.Type(), grp: e.newGrp(s, nm, x, el)}}
	case IterV:
		panic(unsupported("iterator phi"))
	}
	ts := e.flat(iv, p.Type())
	ls := e.leaves(p.Type())
	if len(ls) == 1 {
		v := &lvar{name: nm, phi: p, typ: p.Type(), init: ts[0], sort: ls[0].sort, info: ls[0]}
		e.decompose(s, v)
		return []*lvar{v}
	}
	// multi-leaf structure: one variable per leaf (slice fields as groups are
	// not supported inside value structs)
	var out []*lvar
	for i, l := range ls {
		if l.comp == "arr" {
			panic(unsupported("loop variable struct with slices"))
		}
		out = append(out, &lvar{name: nm + l.path, phi: p, leaf: i, typ: p.Type(), init: ts[i], sort: l.sort, info: l})
	}
	return out
}

func (e *Eng) newGrp(s *State, nm string, x SliceV, el types.Type) *sgrp {
	g := &sgrp{el: el, init: x, name: nm}
	for _, l := range e.leaves(el) {
		h := e.heapArr(s, elemKey(el, l.path), arrSort(SInt, l.sort))
		a := arrBase(x.arr)
		if a.isNum() && a.ival.Sign() == 0 {
			g.cont = append(g.cont, ConstArr(arrSort(SInt, l.sort), e.zeroLeaf(l)))
		} else {
			g.cont = append(g.cont, Select(h, a))
		}
	}
	return g
}

// arrBase strips the nil case of a possibly nil slice.
func arrBase(a *T) *T {
	if a.op == "ite" && a.args[1].isNum() && a.args[1].ival.Sign() == 0 {
		return a.args[2]
	}
	return a
}

// decompose views rv(box(slice)) values as constructor applications.
func (e *Eng) decompose(s *State, v *lvar) {
	t := v.init
	if t.op != "app" || !(t.name == "rv" || strings.HasPrefix(t.name, "box_")) {
		return
	}
	if t.name == "rv" {
		v.ctor = "rv"
		kid := &lvar{name: v.name + ".rv", init: t.args[0], sort: t.args[0].sort}
		e.decompose(s, kid)
		v.kids = []*lvar{kid}
		return
	}
	ty := e.boxTypes[t.name]
	if ty == nil {
		return
	}
	if sl, ok := types.Unalias(ty).Underlying().(*types.Slice); ok {
		v.ctor = t.name
		v.kids = []*lvar{{name: v.name + ".box", typ: ty, grp: e.newGrp(s, v.name, SliceV{t.args[0], t.args[1], t.args[2], t.args[3]}, sl.Elem())}}
		return
	}
}

func (e *Eng) hasCell(vars []*lvar, key string, ref *T) bool {
	for _, v := range vars {
		if v.ref == ref && (v.key == key || v.grp != nil && strings.HasPrefix(key, v.key+".") && isSliceComp(key[len(v.key):])) {
			return true
		}
	}
	return false
}

func isSliceComp(s string) bool {
	return s == ".arr" || s == ".off" || s == ".len" || s == ".cap"
}

func (e *Eng) cellVars(base *State, ln, key string, ref *T, hs Sort) []*lvar {
	li := e.keyInfo[key]
	nm := "cell_" + shortKey(key)
	if isSliceComp(li.comp2()) && li.typ != nil {
		pre := key[:len(key)-4]
		if sl, ok := types.Unalias(li.typ).Underlying().(*types.Slice); ok {
			get := func(c string) *T { return Select(e.heapArr(base, pre+c, SInt), ref) }
			x := SliceV{get(".arr"), get(".off"), get(".len"), get(".cap")}
			return []*lvar{{name: nm, key: pre, ref: ref, typ: li.typ, grp: e.newGrp(base, nm, x, sl.Elem())}}
		}
	}
	h, ok := base.heap[key]
	if !ok {
		h = h0(key, hs)
		if h.info == nil {
			h.info = &symInfo{initial: true}
		}
		base.heap[key] = h
	}
	v := &lvar{name: nm, key: key, ref: ref, init: Select(h, ref), sort: arrElem(h.sort), info: li}
	e.decompose(base, v)
	return []*lvar{v}
}

func (l leaf) comp2() string { return "." + l.comp }

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		k = k[i+1:]
	}
	return k
}

// placeVars installs the values at iteration n.
func (e *Eng) placeVars(st *State, ln string, vars []*lvar) {
	var term func(v *lvar) *T
	grpVal := func(v *lvar) SliceV {
		g := v.grp
		if g.known && g.class == "invariant" {
			g.cur = g.init
			return g.init
		}
		if !g.known {
			g.cur = SliceV{off: Num(0), len: Fresh("u_"+g.name+"_len", SInt)}
			e.fact(typeFact(g.cur.len, leaf{comp: "len"}))
			g.ccur = nil
			for _, l := range e.leaves(g.el) {
				g.ccur = append(g.ccur, Fresh("u_"+g.name+"_c", arrSort(SInt, l.sort)))
			}
		}
		a := st.alloc()
		for i, l := range e.leaves(g.el) {
			key := elemKey(g.el, l.path)
			h := e.heapArr(st, key, arrSort(SInt, l.sort))
			st.heap[key] = Store(h, a, g.ccur[i])
		}
		cp := Fresh("cap", SInt)
		e.fact(And(Le(g.cur.len, cp), Le(cp, BigNum(maxIter))))
		arr := a
		if isZero(g.init.arr) || isMaybeNil(g.init.arr) {
			arr = Ite(Eq(g.cur.len, Num(0)), Num(0), a)
		}
		g.cur.arr = arr
		g.cur.cap = cp
		return g.cur
	}
	term = func(v *lvar) *T {
		if v.ctor == "rv" {
			return App("rv", v.sort, term(v.kids[0]))
		}
		if v.ctor != "" {
			sv := grpVal(v.kids[0])
			return App(v.ctor, SIface, sv.arr, sv.off, sv.len, sv.cap)
		}
		if !v.known {
			v.cur = Fresh("u_"+v.name, v.sort)
			if v.info.typ != nil || v.info.comp != "" {
				e.leafFact(v.cur, v.info)
			}
		}
		return v.cur
	}
	f := st.top()
	multi := map[*ssa.Phi][]*T{}
	for _, v := range vars {
		if v.phi != nil {
			if v.grp != nil {
				f.env[v.phi] = grpVal(v)
				continue
			}
			t := term(v)
			multi[v.phi] = append(multi[v.phi], t)
			continue
		}
		if v.grp != nil {
			sv := grpVal(v)
			for i, c := range []string{".arr", ".off", ".len", ".cap"} {
				t := []*T{sv.arr, sv.off, sv.len, sv.cap}[i]
				h := e.heapArr(st, v.key+c, SInt)
				st.heap[v.key+c] = Store(h, v.ref, t)
			}
			continue
		}
		t := term(v)
		h := st.heap[v.key]
		st.heap[v.key] = Store(h, v.ref, t)
	}
	for p, ts := range multi {
		f.env[p] = e.unflat(p.Type(), ts)
	}
}

func isZero(t *T) bool { return t.isNum() && t.ival.Sign() == 0 }
func isMaybeNil(t *T) bool {
	return t.op == "ite" && isZero(t.args[1])
}

// nextOf reads the value of a variable in a state at the back edge.
func (e *Eng) nextOf(b *State, v *lvar) (*T, SliceV, []*T) {
	f := b.top()
	var t *T
	var sv SliceV
	if v.phi != nil {
		pi := -1
		for k, p := range v.phi.Block().Preds {
			if p == f.prev {
				pi = k
			}
		}
		val := e.get(b, f, v.phi.Edges[pi])
		if v.grp != nil {
			sv = val.(SliceV)
		} else {
			t = e.flat(val, v.phi.Type())[v.leaf]
		}
	} else if v.grp != nil {
		get := func(c string) *T { return Select(e.heapArr(b, v.key+c, SInt), v.ref) }
		sv = SliceV{get(".arr"), get(".off"), get(".len"), get(".cap")}
	} else {
		t = Select(b.heap[v.key], v.ref)
	}
	if v.grp != nil {
		return nil, sv, e.contents(b, v.grp, sv)
	}
	return t, sv, nil
}

func (e *Eng) contents(b *State, g *sgrp, sv SliceV) []*T {
	var cs []*T
	for _, l := range e.leaves(g.el) {
		h := e.heapArr(b, elemKey(g.el, l.path), arrSort(SInt, l.sort))
		cs = append(cs, Select(h, arrBase(sv.arr)))
	}
	return cs
}

// storeChain decomposes h = store(...(base, i, v)...).
func storeChain(h, base *T) (idx, val []*T, ok bool) {
	h0 := h
	for h != base {
		if h.op != "store" {
			return numStoreDiff(h0, base)
		}
		idx = append(idx, h.args[1])
		val = append(val, h.args[2])
		h = h.args[0]
	}
	return idx, val, true
}

// numStoreDiff compares two chains of stores at numerals, which are kept
// sorted and so may be interleaved.
func numStoreDiff(h, base *T) (idx, val []*T, ok bool) {
	m := map[*T]*T{}
	b := base
	for b.op == "store" && b.args[1].isNum() {
		if m[b.args[1]] == nil {
			m[b.args[1]] = b.args[2]
		}
		b = b.args[0]
	}
	seen := map[*T]bool{}
	for h != b {
		if h.op != "store" || !h.args[1].isNum() {
			return nil, nil, false
		}
		if !seen[h.args[1]] {
			seen[h.args[1]] = true
			if m[h.args[1]] != h.args[2] {
				idx = append(idx, h.args[1])
				val = append(val, h.args[2])
			}
		}
		h = h.args[0]
	}
	for k := range m {
		if !seen[k] {
			return nil, nil, false
		}
	}
	return idx, val, true
}

// ---- generalisation over the iteration number
type generaliser struct {
	e        *Eng
	n        *T
	mark     int // symbols with a larger id were created by the body
	startCnt *big.Int
	baseCnt  *big.Int
	stride   *big.Int
	pre      string
}

func (g *generaliser) inRegion(t *T) bool {
	if !t.isNum() {
		return false
	}
	c := new(big.Int).Neg(t.ival)
	c.Sub(c, refBase)
	return c.Cmp(g.startCnt) > 0 && t.ival.Cmp(aliasBase) > 0
}

func (g *generaliser) isNewSym(t *T) bool {
	return t.op == "sym" && t.id > g.mark && t != g.n && !(t.info != nil && (t.info.isBound || t.info.initial)) && !strings.HasPrefix(t.name, "H0_") && !strings.HasPrefix(t.name, "zero_") && !strings.HasPrefix(t.name, "f64_") && t.name != "nil_iface" && t.name != "seq_nil" && !strings.HasPrefix(t.name, "in_")
}

func (g *generaliser) hasNew(t *T) bool {
	m := map[*T]bool{}
	SymsOf(t, m)
	for s := range m {
		if g.isNewSym(s) {
			return true
		}
	}
	return false
}

func (g *generaliser) dependent(t *T) bool {
	m := map[*T]bool{}
	SymsOf(t, m)
	for s := range m {
		if s == g.n || g.isNewSym(s) || strings.HasPrefix(s.name, "u_") {
			return true
		}
	}
	// region numerals
	dep := false
	walk(t, func(x *T) {
		if g.inRegion(x) {
			dep = true
		}
	})
	return dep
}

func walk(t *T, f func(*T)) {
	memo := map[int]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if memo[t.id] {
			return
		}
		memo[t.id] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// gen rewrites a term of iteration n into the term of iteration k.
func (g *generaliser) gen(t *T, k *T) *T {
	m := map[int]*T{g.n.id: k}
	walk(t, func(x *T) {
		if g.isNewSym(x) {
			m[x.id] = App("g_"+x.name, x.sort, k)
		} else if g.inRegion(x) {
			// counter c in the current region -> region of iteration k
			c := new(big.Int).Add(x.ival, new(big.Int).Sub(g.startCnt, g.baseCnt))
			m[x.id] = Add(Mul(k, BigNum(new(big.Int).Neg(g.stride))), BigNum(c))
		}
	})
	return Subst(t, m)
}

type regVal struct {
	ref *big.Int
	val *T
	st  *State
}

// genReg merges the values of the body's objects over the paths.
func (e *Eng) genReg(rv []regVal, back []*State, conds []*T, g *generaliser, k *T) []regVal {
	byRef := map[string]map[*State]*T{}
	var order []*big.Int
	for _, r := range rv {
		ks := r.ref.String()
		if byRef[ks] == nil {
			byRef[ks] = map[*State]*T{}
			order = append(order, r.ref)
		}
		if _, dup := byRef[ks][r.st]; !dup {
			byRef[ks][r.st] = r.val
		}
	}
	var out []regVal
	for _, ref := range order {
		m := byRef[ref.String()]
		var val *T
		for i := len(back) - 1; i >= 0; i-- {
			v, ok := m[back[i]]
			if !ok {
				continue
			}
			if val == nil {
				val = v
			} else {
				val = Ite(conds[i], v, val)
			}
		}
		c := new(big.Int).Add(ref, new(big.Int).Sub(g.startCnt, g.baseCnt))
		out = append(out, regVal{ref: c, val: g.gen(val, k)})
	}
	return out
}

// placeRegions puts the objects of earlier iterations into memory.
func (e *Eng) placeRegions(base, st *State, rv map[string][]regVal, stride *big.Int, n, k *T) {
	first := new(big.Int).Neg(new(big.Int).Add(new(big.Int).Add(refBase, base.next), big.NewInt(1)))
	last := new(big.Int).Sub(first, new(big.Int).Mul(stride, maxIter))
	for _, key := range sortedKeys(rv) {
		vals := rv[key]
		if len(vals) == 0 {
			continue
		}
		h, ok := st.heap[key]
		if !ok {
			h = h0(key, arrSort(SInt, vals[0].val.sort))
			if h.info == nil {
				h.info = &symInfo{initial: true}
			}
		}
		var pos []*big.Int
		var ts []*T
		for _, v := range vals {
			pos = append(pos, new(big.Int).Sub(first, v.ref))
			ts = append(ts, v.val)
		}
		st.heap[key] = RegArr(h, first, last, stride, pos, ts, k)
	}
}

// ---- classification
func (e *Eng) classify(ln string, vars []*lvar, back []*State, conds []*T, gn *generaliser, n, k *T) bool {
	progress := false
	unk := map[*T]bool{}
	collect := func() {
		unk = map[*T]bool{}
		for _, v := range flatVars(vars) {
			if v.grp != nil {
				if !v.grp.known {
					unk[v.grp.cur.len] = true
					unk[v.grp.cur.cap] = true
					for _, c := range v.grp.ccur {
						unk[c] = true
					}
				}
			} else if !v.known {
				unk[v.cur] = true
			}
		}
	}
	collect()
	clean := func(ts ...*T) bool {
		for _, t := range ts {
			m := map[*T]bool{}
			SymsOf(t, m)
			for s := range m {
				if unk[s] {
					return false
				}
			}
		}
		return true
	}
	// condOf gives a condition that separates the selected paths of a completed
	// iteration from the others (an interpolant when one conjunct suffices).
	condOf := func(sel []bool) *T {
		var cs []*T
		var on, off [][]*T
		for i, c := range conds {
			if sel[i] {
				cs = append(cs, c)
				on = append(on, conjuncts(c))
			} else {
				off = append(off, conjuncts(c))
			}
		}
		if len(off) == 0 {
			return Bool(true)
		}
		if len(on) == 0 {
			return Bool(false)
		}
		has := func(l []*T, x *T) bool {
			for _, y := range l {
				if y == x {
					return true
				}
			}
			return false
		}
		for _, c := range on[0] {
			if !clean(c) {
				continue
			}
			ok := true
			for _, l := range on {
				ok = ok && has(l, c)
			}
			nc := Not(c)
			for _, l := range off {
				ok = ok && has(l, nc)
			}
			if ok {
				return c
			}
		}
		for _, c := range off[0] {
			if !clean(c) {
				continue
			}
			ok := true
			for _, l := range off {
				ok = ok && has(l, c)
			}
			nc := Not(c)
			for _, l := range on {
				ok = ok && has(l, nc)
			}
			if ok {
				return nc
			}
		}
		// what the changing paths have in common
		var com []*T
		for _, c := range on[0] {
			ok := true
			for _, l := range on {
				ok = ok && has(l, c)
			}
			if ok {
				com = append(com, c)
			}
		}
		var offs []*T
		for _, l := range off {
			offs = append(offs, And(l...))
		}
		if len(com) > 0 && len(on) > 1 && clean(com...) && e.sol.Check(append(append([]*T{}, e.streamPath...), com...), Or(offs...), 500) == Unsat {
			return And(com...)
		}
		full := Or(cs...)
		if clean(full) {
			return full
		}
		// drop the conjuncts that are not known yet, if the rest still separates
		weak := func(ls [][]*T) *T {
			var os []*T
			for _, l := range ls {
				var k []*T
				for _, c := range l {
					if clean(c) {
						k = append(k, c)
					}
				}
				os = append(os, And(k...))
			}
			return Or(os...)
		}
		p, q := weak(on), weak(off)
		if both := And(p, q); isFalse(both) || e.sol.Check(nil, both, 300) == Unsat {
			return p
		}
		return full
	}
	var visit func(v *lvar, nexts []*T, bs []*State)
	var visitGrp func(v *lvar, nexts []SliceV, conts [][]*T)
	visit = func(v *lvar, nexts []*T, bs []*State) {
		if v.ctor != "" {
			// all nexts must be built by the same constructor
			for _, t := range nexts {
				if t.op != "app" || t.name != v.ctor {
					panic(unsupported("loop variable changes shape: " + v.name))
				}
			}
			if v.ctor == "rv" {
				var ks []*T
				for _, t := range nexts {
					ks = append(ks, t.args[0])
				}
				visit(v.kids[0], ks, bs)
				return
			}
			var svs []SliceV
			var cts [][]*T
			for i, t := range nexts {
				sv := SliceV{t.args[0], t.args[1], t.args[2], t.args[3]}
				svs = append(svs, sv)
				cts = append(cts, e.contents(bs[i], v.kids[0].grp, sv))
			}
			visitGrp(v.kids[0], svs, cts)
			return
		}
		if v.known {
			return
		}
		done := func(c string, t *T) {
			v.known = true
			v.class = c
			v.cur = t
			progress = true
		}
		same := make([]bool, len(nexts))
		nsame := 0
		for i, t := range nexts {
			if t == v.cur {
				same[i] = true
				nsame++
			}
		}
		if nsame == len(nexts) {
			done("invariant", v.init)
			return
		}
		changed := make([]bool, len(nexts))
		for i := range same {
			changed[i] = !same[i]
		}
		// additive
		if v.sort == SInt {
			var step *T
			ok := true
			for i, t := range nexts {
				if same[i] {
					continue
				}
				d := e.unwrapAdd(t, v.cur)
				if d == nil || gn.dependent(d) || !d.isNum() {
					ok = false
					break
				}
				if step != nil && step != d {
					ok = false
					break
				}
				step = d
			}
			if ok && step != nil {
				if nsame == 0 {
					done("linear", Add(v.init, Mul(n, step)))
					return
				}
				ch := condOf(changed)
				if clean(ch) {
					stm := e.streamOn(gn.gen(ch, k), k, n)
					done("count", Add(v.init, Mul(stm.cnt(n), step)))
					return
				}
			}
		}
		// constant from the first iteration on / last write
		lw := true
		for i, t := range nexts {
			if !same[i] && (Occurs(t, v.cur) || !clean(t)) {
				lw = false
			}
		}
		ch := condOf(changed)
		if lw && clean(ch) {
			// same as init everywhere?
			allInit := true
			for i, t := range nexts {
				if !same[i] && t != v.init {
					allInit = false
				}
			}
			if allInit {
				done("invariant", v.init)
				return
			}
			val := mergeVals(nexts, conds, changed)
			if isTrue(ch) {
				done("lastwrite", Ite(Eq(n, Num(0)), v.init, gn.gen(val, Sub(n, Num(1)))))
				return
			}
			stm := e.streamOn(gn.gen(ch, k), k, n)
			any, w := stm.last(e, n)
			done("lastwrite", Ite(any, gn.gen(val, w), v.init))
			return
		}
		// running maximum or minimum
		if v.sort == SInt && nsame < len(nexts) && nsame > 0 {
			if cur, ok := e.extremum(v, nexts, same, conds, gn, n, k, clean); ok {
				done("extremum", cur)
				return
			}
		}
		// array insertions
		if strings.HasPrefix(string(v.sort), "(Array ") {
			if e.classifyArray(ln, v, nexts, same, conds, gn, n, k, clean, condOf, done) {
				return
			}
		}
	}
	visitGrp = func(v *lvar, nexts []SliceV, conts [][]*T) {
		g := v.grp
		if g.known {
			return
		}
		done := func(c string) {
			g.known = true
			g.class = c
			progress = true
		}
		same := make([]bool, len(nexts))
		nsame := 0
		for i, x := range nexts {
			if x.len == g.cur.len && x.off == g.cur.off {
				eq := true
				for j := range conts[i] {
					if conts[i][j] != g.ccur[j] {
						eq = false
					}
				}
				if eq {
					same[i] = true
					nsame++
				}
			}
		}
		if nsame == len(nexts) {
			done("invariant")
			return
		}
		changed := make([]bool, len(nexts))
		vals := make([][]*T, len(g.ccur))
		for i, x := range nexts {
			if same[i] {
				for j := range vals {
					vals[j] = append(vals[j], nil)
				}
				continue
			}
			changed[i] = true
			// append of one element
			if x.off != Num(0) || x.len != Add(g.cur.len, Num(1)) {
				return
			}
			for j, c := range conts[i] {
				if c.op == "store" && c.args[0] == g.ccur[j] && c.args[1] == g.cur.len {
					vals[j] = append(vals[j], c.args[2])
					continue
				}
				if c.op == "lam" || true {
					// content given pointwise: must agree below len
					t := Select(c, g.cur.len)
					_ = t
				}
				return
			}
		}
		ch := condOf(changed)
		if !clean(ch) {
			return
		}
		for j := range vals {
			for _, t := range vals[j] {
				if t != nil && !clean(t) {
					return
				}
			}
		}
		x := FreshBoundAny("ix", SInt)
		if isTrue(ch) {
			g.cur.len = Add(g.init.len, n)
			g.cur.off = Num(0)
			var cs []*T
			for j := range g.ccur {
				val := gn.gen(mergeVals(vals[j], conds, changed), Sub(x, g.init.len))
				if !isZero(g.init.len) {
					val = Ite(Lt(x, g.init.len), Select(g.cont[j], Add(g.init.off, x)), val)
				}
				cs = append(cs, Lam(x, val))
			}
			g.ccur = cs
			done("map")
			return
		}
		stm := e.streamOn(gn.gen(ch, k), k, n)
		g.cur.len = Add(g.init.len, stm.cnt(n))
		g.cur.off = Num(0)
		var cs []*T
		for j := range g.ccur {
			val := gn.gen(mergeVals(vals[j], conds, changed), stm.src(Sub(x, g.init.len)))
			if !isZero(g.init.len) {
				val = Ite(Lt(x, g.init.len), Select(g.cont[j], Add(g.init.off, x)), val)
			}
			cs = append(cs, Lam(x, val))
		}
		g.ccur = cs
		done("filter")
	}
	for _, v := range vars {
		if v.grp != nil {
			var svs []SliceV
			var cts [][]*T
			for _, b := range back {
				_, sv, c := e.nextOf(b, v)
				svs = append(svs, sv)
				cts = append(cts, c)
			}
			visitGrp(v, svs, cts)
		} else {
			var nx []*T
			for _, b := range back {
				t, _, _ := e.nextOf(b, v)
				nx = append(nx, t)
			}
			visit(v, nx, back)
		}
		// several variables may be classified in one round: what the others hold
		// counts as unknown until the next round
	}
	return progress
}

// extremum recognises a variable that is replaced by a value of the iteration
// exactly when that value is greater (or smaller), and gives the variable as the
// greatest (or smallest) of the values before iteration n.
func (e *Eng) extremum(v *lvar, nexts []*T, same []bool, conds []*T, gn *generaliser, n, k *T, clean func(...*T) bool) (*T, bool) {
	var t *T
	for i, x := range nexts {
		if same[i] {
			continue
		}
		if t != nil && t != x {
			return nil, false
		}
		t = x
	}
	if t == nil || Occurs(t, v.cur) || !clean(t) {
		return nil, false
	}
	for i := range nexts {
		if !Occurs(conds[i], v.cur) {
			return nil, false // it is not what decides
		}
	}
	for _, less := range []func(a, b *T) *T{Lt, func(a, b *T) *T { return Lt(b, a) }} {
		ok := true
		for i := range nexts {
			q := Not(less(t, v.cur)) // changed: not worse than before
			if same[i] {
				q = Not(less(v.cur, t))
			}
			if e.sol.Check(append(append([]*T{}, e.streamPath...), conds[i]), Not(q), 1000) != Unsat {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		e.extSeq++
		mx := func(x *T) *T { return App(fmt.Sprintf("ext%d", e.extSeq), SInt, x) }
		at := func(x *T) *T { return Subst(gn.gen(t, k), map[int]*T{k.id: x}) }
		i, j := FreshBound("i"), FreshBound("j")
		e.fact(Eq(mx(Num(0)), v.init))
		e.fact(Implies(Le(Num(0), n), Eq(mx(Add(n, Num(1))), Ite(less(mx(n), at(n)), at(n), mx(n)))))
		e.fact(Forall([]*T{i}, Implies(Le(Num(0), i), Not(less(mx(i), v.init))), mx(i)))
		le := Implies(And(Le(Num(0), i), Le(Num(0), j), Lt(j, i)), Not(less(mx(i), at(j))))
		multi := false
		for c := int64(0); c < 4 && !multi; c++ {
			// a pattern without arithmetic, after iterations done before the cut
			x := Sub(j, Num(c))
			if a := at(x); a.op == "app" && len(a.args) == 1 && a.args[0] == j {
				e.fact(ForallMulti([]*T{i, j}, Subst(le, map[int]*T{j.id: x}), []*T{mx(i), a}))
				multi = true
			}
		}
		if !multi {
			e.fact(Forall([]*T{i}, Forall([]*T{j}, le), mx(i)))
		}
		w := func(x *T) *T { return App(fmt.Sprintf("extat%d", e.extSeq), SInt, x) }
		e.fact(Forall([]*T{i}, Implies(Le(Num(0), i), Or(Eq(mx(i), v.init), And(Le(Num(0), w(i)), Lt(w(i), i), Eq(mx(i), at(w(i)))))), mx(i)))
		return mx(n), true
	}
	return nil, false
}

func mergeVals(vals, conds []*T, sel []bool) *T {
	var r *T
	for i := len(vals) - 1; i >= 0; i-- {
		if !sel[i] {
			continue
		}
		if r == nil {
			r = vals[i]
		} else {
			r = Ite(conds[i], vals[i], r)
		}
	}
	return r
}

// unwrapAdd recognises t = cur + d modulo the overflow wrapping.
func (e *Eng) unwrapAdd(t, cur *T) *T {
	if t.op == "ite" {
		// ite(in range, x, wrapped)
		if d := e.unwrapAdd(t.args[1], cur); d != nil && Occurs(t.args[2], cur) {
			e.note("loop counters do not overflow")
			return d
		}
		return nil
	}
	d := Sub(t, cur)
	if d.isNum() {
		return d
	}
	return nil
}

func (e *Eng) classifyArray(ln string, v *lvar, nexts []*T, same []bool, conds []*T, gn *generaliser, n, k *T, clean func(...*T) bool, condOf func([]bool) *T, done func(string, *T)) bool {
	var idxs, vals []*T
	changed := make([]bool, len(nexts))
	for i, t := range nexts {
		idxs = append(idxs, nil)
		vals = append(vals, nil)
		if same[i] {
			continue
		}
		if t.op != "store" || t.args[0] != v.cur || Occurs(t.args[1], v.cur) || Occurs(t.args[2], v.cur) {
			return false
		}
		changed[i] = true
		idxs[i], vals[i] = t.args[1], t.args[2]
	}
	ch := condOf(changed)
	idx := mergeVals(idxs, conds, changed)
	val := mergeVals(vals, conds, changed)
	if !clean(ch, idx, val) {
		// self-dependent condition: insertion guarded by absence
		return false
	}
	ks := arrKey(v.sort)
	x := FreshBoundAny("ax", ks)
	gi := gn.gen(idx, k)
	if ks == SInt && isTrue(ch) {
		d := Sub(gi, k)
		if !Occurs(d, k) {
			// idx(k) = d + k
			body := Ite(And(Le(d, x), Lt(x, Add(d, n))), gn.gen(val, Sub(x, d)), Select(v.init, x))
			done("array-fill", Lam(x, body))
			return true
		}
	}
	// general: last insertion of x among the first n iterations
	hitK := Lam(k, gn.gen(And(ch, Eq(Sym("zz_hole_"+sanitize(string(ks)), ks), idx)), k))
	nm := fmt.Sprintf("ins%d", hitK.id)
	bf := func(n, x *T) *T { return App(nm+"_b", SBool, n, x) }
	wf := func(n, x *T) *T { return App(nm+"_w", SInt, n, x) }
	if !e.lemmas[nm] {
		e.lemmas[nm] = true
		nn := FreshBound("n")
		xx := FreshBoundAny("x", ks)
		kk := FreshBound("k")
		hit := func(k, x *T) *T { return And(gn.gen(ch, k), Eq(gn.gen(idx, k), x)) }
		w := wf(nn, xx)
		e.fact(Forall([]*T{nn, xx}, Implies(bf(nn, xx), And(Le(Num(0), w), Lt(w, nn), hit(w, xx),
			Forall([]*T{kk}, Implies(And(Lt(w, kk), Lt(kk, nn)), Not(hit(kk, xx)))))), bf(nn, xx)))
		e.fact(Forall([]*T{nn, xx}, Implies(Not(bf(nn, xx)), Forall([]*T{kk}, Implies(And(Le(Num(0), kk), Lt(kk, nn)), Not(hit(kk, xx))))), bf(nn, xx)))
		// forward: an inserted key is hit
		e.fact(Forall([]*T{nn, kk}, Implies(And(Le(Num(0), kk), Lt(kk, nn), gn.gen(ch, kk)), bf(nn, gn.gen(idx, kk))), bf(nn, gn.gen(idx, kk))))
	}
	body := Ite(bf(n, x), gn.gen(val, wf(n, x)), Select(v.init, x))
	done("array-insert", Lam(x, body))
	return true
}

// ---- filtered streams
type stream struct {
	id       int
	lam      *T
	cond     func(k *T) *T
	lastDone bool
}

func (e *Eng) stream(cond *T, k *T) *stream {
	lam := Lam(k, cond)
	for _, s := range e.streams {
		if s.lam == lam {
			return s
		}
	}
	s := &stream{id: len(e.streams) + 1, lam: lam}
	s.cond = func(x *T) *T { return Select(lam, x) }
	e.streams = append(e.streams, s)
	i, j := FreshBound("i"), FreshBound("j")
	e.fact(Forall([]*T{i}, And(Le(Num(0), s.cnt(i)), Implies(Le(Num(0), i), Le(s.cnt(i), i))), s.cnt(i)))
	e.fact(Eq(s.cnt(Num(0)), Num(0)))
	step := Ite(s.cond(i), Num(1), Num(0))
	e.fact(ForallMulti([]*T{i, j}, Implies(And(Le(Num(0), i), Lt(i, j)), Le(Add(s.cnt(i), step), s.cnt(j))), []*T{s.cnt(i), s.cnt(j)}))
	e.fact(Forall([]*T{i}, Implies(And(Le(Num(0), i), s.cond(i)), Eq(s.src(s.cnt(i)), i)), s.cnt(i)))
	// multi pattern src(j), cnt(i)
	e.fact(ForallMulti([]*T{i, j}, Implies(And(Le(Num(0), j), Le(Num(0), i), Lt(j, s.cnt(i))),
		And(Le(Num(0), s.src(j)), Lt(s.src(j), i), s.cond(s.src(j)), Eq(s.cnt(s.src(j)), j))), []*T{s.src(j), s.cnt(i)}))
	e.fact(Forall([]*T{i}, Implies(And(Le(Num(0), i), Lt(Num(0), s.cnt(i))), And(Le(Num(0), s.src(Num(0))), Lt(s.src(Num(0)), i), s.cond(s.src(Num(0))))), s.cnt(i)))
	e.fact(Forall([]*T{i}, Implies(And(Le(Num(0), i), Eq(s.cnt(i), Num(0))), Forall([]*T{j}, Implies(And(Le(Num(0), j), Lt(j, i)), Not(s.cond(j))))), s.cnt(i)))
	return s
}

// appNames: the function symbols (and ground names) of a term.
func appNames(t *T, seen map[*T]bool, out map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "app" && len(t.args) > 0 {
		out[t.name] = true
	}
	for _, a := range t.args {
		appNames(a, seen, out)
	}
}

func sameNames(a, b *T) bool {
	x, y := map[string]bool{}, map[string]bool{}
	appNames(a, map[*T]bool{}, x)
	appNames(b, map[*T]bool{}, y)
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

// streamOn: the stream of cond, or one that is known to agree with it on
// the iterations 0 <= k < n of this path.
func (e *Eng) streamOn(cond, k, n *T) *stream {
	lam := Lam(k, cond)
	for _, s := range e.streams {
		if s.lam == lam {
			return s
		}
	}
	for _, s := range e.streams {
		if !sameNames(s.lam, lam) {
			continue
		}
		x := Fresh("sk", SInt)
		hyp := And(Le(Num(0), x), Lt(x, n), Subst(e.streamHyp, map[int]*T{k.id: x}))
		c, d := s.cond(x), Subst(cond, map[int]*T{k.id: x})
		r := e.sol.Check(append(append([]*T{}, e.streamPath...), hyp), Or(And(c, Not(d)), And(d, Not(c))), 1000)
		if os.Getenv("GOVC_STREAM") != "" {
			fmt.Fprintln(os.Stderr, "STREAM", s.id, r, "\n  A", c, "\n  B", d)
		}
		if r == Unsat {
			return s
		}
	}
	return e.stream(cond, k)
}

func (s *stream) cnt(n *T) *T {
	if isTrue(s.lam) {
		return n
	}
	if n.isNum() && n.ival.Sign() == 0 && false {
		return Num(0)
	}
	return App(fmt.Sprintf("cnt%d", s.id), SInt, n)
}
func (s *stream) src(j *T) *T { return App(fmt.Sprintf("src%d", s.id), SInt, j) }

// last returns (some k<n satisfies cond, the last such k).
func (s *stream) last(e *Eng, n *T) (*T, *T) {
	any := func(n *T) *T { return App(fmt.Sprintf("any%d", s.id), SBool, n) }
	w := func(n *T) *T { return App(fmt.Sprintf("lst%d", s.id), SInt, n) }
	if !s.lastDone {
		s.lastDone = true
		nn, kk := FreshBound("n"), FreshBound("k")
		e.fact(Forall([]*T{nn}, Implies(any(nn), And(Le(Num(0), w(nn)), Lt(w(nn), nn), s.cond(w(nn)),
			Forall([]*T{kk}, Implies(And(Lt(w(nn), kk), Lt(kk, nn)), Not(s.cond(kk)))))), any(nn)))
		e.fact(Forall([]*T{nn}, Implies(Not(any(nn)), Forall([]*T{kk}, Implies(And(Le(Num(0), kk), Lt(kk, nn)), Not(s.cond(kk))))), any(nn)))
	}
	return any(n), w(n)
}

// stayFacts: what the completed iterations k < n tell.
func (e *Eng) stayFacts(base *State, conds []*T, gn *generaliser, n, k *T) (stay, q *T) {
	if len(conds) == 0 {
		// the body never completes: at most one iteration
		return Bool(false), Eq(n, Num(0))
	}
	common := map[*T]int{}
	var lists [][]*T
	for _, c := range conds {
		l := conjuncts(c)
		lists = append(lists, l)
		seen := map[*T]bool{}
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				common[x]++
			}
		}
	}
	var com, rest []*T
	for _, x := range lists[0] {
		if common[x] == len(conds) {
			com = append(com, x)
		}
	}
	for _, l := range lists {
		var r []*T
		for _, x := range l {
			if common[x] != len(conds) {
				r = append(r, x)
			}
		}
		rest = append(rest, And(r...))
	}
	d := Or(rest...)
	if !isTrue(d) {
		// exhaustive case split?
		if e.sol.Check(append(append([]*T{}, base.path...), com...), Not(d), 500) == Unsat {
			d = Bool(true)
		}
	}
	stay = And(append(com, d)...)
	g := gn.gen(stay, k)
	var qs []*T
	for _, c := range conjuncts(g) {
		if monotone(c, k) {
			continue
		}
		qs = append(qs, c)
	}
	facts := []*T{}
	if len(qs) > 0 {
		facts = append(facts, Forall([]*T{k}, Implies(And(Le(Num(0), k), Lt(k, n)), And(qs...))))
	}
	facts = append(facts, Implies(Lt(Num(0), n), gn.gen(stay, Sub(n, Num(1)))))
	return stay, And(facts...)
}

func conjuncts(c *T) []*T {
	if c.op == "and" {
		return c.args
	}
	if isTrue(c) {
		return nil
	}
	return []*T{c}
}

// monotone: c(k) implies c(k') for k' < k, or c does not mention k.
func monotone(c, k *T) bool {
	if !Occurs(c, k) {
		return true
	}
	// not (B <= A+k)  i.e. A+k < B
	if c.op == "not" && c.args[0].op == "<=" {
		l, r := c.args[0].args[0], c.args[0].args[1]
		return !Occurs(l, k) && posLinear(r, k)
	}
	if c.op == "<=" {
		return posLinear(c.args[0], k) && !Occurs(c.args[1], k)
	}
	return false
}

func posLinear(t, k *T) bool {
	if t == k {
		return true
	}
	if t.op == "+" {
		a, b := t.args[0], t.args[1]
		return posLinear(a, k) && !Occurs(b, k) || posLinear(b, k) && !Occurs(a, k)
	}
	if t.op == "*" && t.args[1].isNum() && t.args[1].ival.Sign() > 0 {
		return posLinear(t.args[0], k)
	}
	return false
}

// checkPreserved re-establishes the inferred values after one more iteration.
func (e *Eng) checkPreserved(ln, pos string, back []*State, vars []*lvar, n *T) {
	n1 := Add(n, Num(1))
	for _, st := range e.streams {
		if isTrue(st.lam) {
			continue
		}
		e.fact(Implies(Le(Num(0), n), Eq(st.cnt(n1), Add(st.cnt(n), Ite(st.cond(n), Num(1), Num(0))))))
		nm := Sub(n, Num(1))
		e.fact(Implies(Lt(Num(0), n), Eq(st.cnt(n), Add(st.cnt(nm), Ite(st.cond(nm), Num(1), Num(0))))))
	}
	for _, b := range back {
		for _, v := range flatVars(vars) {
			var got, want *T
			if v.grp != nil {
				if v.grp.class != "map" && v.grp.class != "filter" || v.phi == nil && v.key == "" {
					continue
				}
				_, sv, _ := e.nextOf(b, v)
				got = sv.len
				want = Subst(v.grp.cur.len, map[int]*T{n.id: n1})
			} else {
				if v.class != "linear" && v.class != "count" && v.class != "extremum" {
					continue
				}
				if v.phi == nil && v.key == "" {
					continue
				}
				got, _, _ = e.nextOf(b, v)
				want = Subst(v.cur, map[int]*T{n.id: n1})
			}
			e.prove(b, "loop-invariant", Eq(got, want), "loop "+pos+" variable "+v.name, pos)
		}
	}
}
