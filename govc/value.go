package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// PtrV is a non-interior or interior pointer. For an object pointer, ref is the
// object, owner its type and path the leaf prefix of the pointee. For element
// pointers idx is set, ref is the backing array, owner the element type.
type PtrV struct {
	ref   *T
	owner types.Type
	path  string
	idx   *T         // element pointer
	typ   types.Type // pointee
}

type SliceV struct{ arr, off, len, cap *T }

type StructV struct {
	typ types.Type
	fs  []Val
}

type ArrV struct {
	typ   types.Type
	comps []*T // per element leaf: (Array Int sort)
}

// IfaceV: known dynamic type, or opaque term t.
type IfaceV struct {
	dyn types.Type
	val Val
	t   *T
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	recv Val // bound interface method
	meth *types.Func
	bi   *ssa.Builtin
	t    *T // opaque
}

type TupleV []Val

// IterV is a map iterator.
type IterV struct {
	id   int
	m    *T // map ref
	typ  *types.Map
	ord  string // enumeration function suffix
	n    *T     // length
	pres *T     // presence array at start
}

type leaf struct {
	path string
	sort Sort
	typ  types.Type // type of the scalar component (for range facts)
	comp string     // "", "arr","off","len","cap"
}

type layouts struct {
	memo map[string][]leaf
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), nil)
}

// opaqueStruct reports that values of the type are modelled as one token.
func (e *Eng) opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || e.rootPkg[n.Obj().Pkg().Path()] {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			// generated protobuf messages keep their exported fields visible
			if isProtoStruct(st) {
				return false
			}
			return true
		}
	}
	return false
}

func isProtoStruct(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "state" && strings.Contains(st.Field(i).Type().String(), "protoimpl") || st.Field(i).Name() == "state" && strings.Contains(st.Field(i).Type().String(), "impl.MessageState") {
			return true
		}
	}
	return false
}

func opaqueSort(t types.Type) Sort {
	n := typeKey(t)
	if strings.HasSuffix(n, "sync.Mutex") || strings.HasSuffix(n, "sync.RWMutex") || strings.HasSuffix(n, "sync.Once") {
		return SInt
	}
	return Sort("Ob_" + sanitize(n))
}

func (e *Eng) leaves(t types.Type) []leaf {
	k := typeKey(t)
	if l, ok := e.lay[k]; ok {
		return l
	}
	l := e.leaves0(t)
	e.lay[k] = l
	return l
}

func (e *Eng) leaves0(t types.Type) []leaf {
	t = types.Unalias(t)
	if e.opaqueStruct(t) {
		return []leaf{{"", opaqueSort(t), t, ""}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []leaf{{"", basicSort(u), t, ""}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", SInt, t, ""}}
	case *types.Slice:
		return []leaf{{".arr", SInt, t, "arr"}, {".off", SInt, t, "off"}, {".len", SInt, t, "len"}, {".cap", SInt, t, "cap"}}
	case *types.Interface:
		return []leaf{{"", SIface, t, ""}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range e.leaves(f.Type()) {
				out = append(out, leaf{fieldPath(u, i) + l.path, l.sort, l.typ, l.comp})
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range e.leaves(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, arrSort(SInt, l.sort), nil, "elem"})
		}
		return out
	case *types.Tuple:
		panic(unsupported("tuple leaves"))
	}
	panic(unsupported(fmt.Sprintf("layout of %s", t)))
}

func fieldPath(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("._%d", i)
	}
	return "." + n
}

func basicSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsInteger != 0:
		return SInt
	case b.Info()&types.IsFloat != 0:
		return SF64
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Kind() == types.UnsafePointer:
		return SInt
	case b.Kind() == types.UntypedNil:
		return SInt
	}
	return Sort("Ob_" + sanitize(b.Name()))
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }
func unsupported(m string) unsupportedErr {
	return unsupportedErr{m}
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	sg := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), big.NewInt(1)), true
	}
	us := func(n uint) (*big.Int, *big.Int, bool) {
		return big.NewInt(0), new(big.Int).Sub(p(n), big.NewInt(1)), true
	}
	switch b.Kind() {
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32:
		return sg(32)
	case types.Int, types.Int64:
		return sg(64)
	case types.Uint8:
		return us(8)
	case types.Uint16:
		return us(16)
	case types.Uint32:
		return us(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return us(64)
	}
	return nil, nil, false
}

// typeFact is the constraint satisfied by every value of a leaf.
func typeFact(t *T, l leaf) *T {
	if l.comp == "len" || l.comp == "off" {
		return And(Le(Num(0), t), Le(t, BigNum(maxIter)))
	}
	if l.comp == "cap" {
		return And(Le(Num(0), t), Le(t, BigNum(maxIter)))
	}
	if l.comp == "elem" || l.typ == nil {
		return Bool(true)
	}
	if lo, hi, ok := intRange(l.typ); ok {
		return And(Le(BigNum(lo), t), Le(t, BigNum(hi)))
	}
	return Bool(true)
}

// zero value of a leaf
func (e *Eng) zeroLeaf(l leaf) *T {
	return e.zeroSort(l.sort, l)
}
func (e *Eng) zeroSort(s Sort, l leaf) *T {
	switch s {
	case SInt:
		return Num(0)
	case SBool:
		return Bool(false)
	case SStr:
		return StrC("")
	case SF64:
		return Sym("f64_0", SF64)
	case SIface:
		return NilIface()
	}
	if strings.HasPrefix(string(s), "(Array ") {
		return ConstArr(s, e.zeroSort(arrElem(s), leaf{}))
	}
	return Sym("zero_"+sanitize(string(s)), s)
}

func (e *Eng) zero(t types.Type) Val {
	ls := e.leaves(t)
	ts := make([]*T, len(ls))
	for i, l := range ls {
		ts[i] = e.zeroLeaf(l)
	}
	return e.unflat(t, ts)
}

// flat turns a value into its leaf terms.
func (e *Eng) flat(v Val, t types.Type) []*T {
	t = types.Unalias(t)
	switch v := v.(type) {
	case *T:
		return []*T{v}
	case PtrV:
		return []*T{e.ptrTerm(v)}
	case SliceV:
		return []*T{v.arr, v.off, v.len, v.cap}
	case IfaceV:
		return []*T{e.ifaceTerm(v)}
	case FuncV:
		return []*T{e.funcTerm(v)}
	case ArrV:
		return v.comps
	case StructV:
		st := v.typ.Underlying().(*types.Struct)
		var out []*T
		for i, f := range v.fs {
			out = append(out, e.flat(f, st.Field(i).Type())...)
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("flat %T of %v", v, t)))
}

func (e *Eng) unflat(t types.Type, ts []*T) Val {
	t = types.Unalias(t)
	if e.opaqueStruct(t) {
		return ts[0]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Map, *types.Chan:
		return ts[0]
	case *types.Pointer:
		return e.ptrVal(ts[0], u.Elem())
	case *types.Signature:
		return e.funcVal(ts[0])
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}
	case *types.Interface:
		return e.ifaceVal(ts[0])
	case *types.Array:
		return ArrV{t, append([]*T(nil), ts...)}
	case *types.Struct:
		sv := StructV{typ: t}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			c := len(e.leaves(u.Field(i).Type()))
			sv.fs = append(sv.fs, e.unflat(u.Field(i).Type(), ts[n:n+c]))
			n += c
		}
		return sv
	}
	panic(unsupported(fmt.Sprintf("unflat %v", t)))
}

// ---- pointers
var aliasBase = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 300))
var funcBase = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 310))

func (e *Eng) ptrTerm(p PtrV) *T {
	if p.idx == nil && p.path == "" {
		return p.ref
	}
	key := typeKey(p.owner) + "|" + p.path + "|" + fmt.Sprint(p.ref.id)
	if p.idx != nil {
		key += fmt.Sprintf("|%d", p.idx.id)
	}
	if t, ok := e.aliasByKey[key]; ok {
		return t
	}
	n := new(big.Int).Sub(aliasBase, big.NewInt(int64(len(e.alias)+1)))
	t := BigNum(n)
	e.aliasByKey[key] = t
	e.alias[n.String()] = p
	return t
}

func (e *Eng) ptrVal(t *T, elem types.Type) Val {
	if t.isNum() && t.ival.Cmp(aliasBase) < 0 && t.ival.Cmp(funcBase) > 0 {
		if p, ok := e.alias[t.ival.String()]; ok {
			return p
		}
	}
	if a, ok := types.Unalias(elem).Underlying().(*types.Array); ok && !e.opaqueStruct(elem) {
		_ = a
	}
	return PtrV{ref: t, owner: elem, typ: elem}
}

// ---- functions
func (e *Eng) funcTerm(f FuncV) *T {
	if f.t != nil {
		return f.t
	}
	key := ""
	if f.fn != nil {
		key = fmt.Sprintf("%p", f.fn)
	} else if f.meth != nil {
		key = f.meth.FullName()
	}
	for _, b := range f.bind {
		key += "|" + e.valKey(b)
	}
	if f.recv != nil {
		key += "|r" + e.valKey(f.recv)
	}
	if t, ok := e.funcByKey[key]; ok {
		return t
	}
	n := new(big.Int).Sub(funcBase, big.NewInt(int64(len(e.funcs)+1)))
	t := BigNum(n)
	e.funcByKey[key] = t
	e.funcs[n.String()] = f
	return t
}

func (e *Eng) valKey(v Val) string {
	switch v := v.(type) {
	case *T:
		return fmt.Sprint(v.id)
	case PtrV:
		s := fmt.Sprintf("p%d.%s.%s", v.ref.id, typeKey(v.owner), v.path)
		if v.idx != nil {
			s += fmt.Sprintf("[%d]", v.idx.id)
		}
		return s
	case SliceV:
		return fmt.Sprintf("s%d.%d.%d.%d", v.arr.id, v.off.id, v.len.id, v.cap.id)
	case StructV:
		s := "{"
		for _, f := range v.fs {
			s += e.valKey(f) + ";"
		}
		return s + "}"
	case IfaceV:
		return fmt.Sprint(e.ifaceTerm(v).id)
	case FuncV:
		return fmt.Sprint(e.funcTerm(v).id)
	case ArrV:
		s := "a"
		for _, c := range v.comps {
			s += fmt.Sprint(c.id, ",")
		}
		return s
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%v", v)
}

func (e *Eng) funcVal(t *T) Val {
	if t.isNum() {
		if f, ok := e.funcs[t.ival.String()]; ok {
			return f
		}
	}
	return FuncV{t: t}
}

// ---- interfaces
func (e *Eng) tag(t types.Type) int64 {
	k := typeKey(t)
	if n, ok := e.tags[k]; ok {
		return n
	}
	n := int64(len(e.tags) + 1)
	e.tags[k] = n
	e.tagTypes[n] = t
	return n
}

func boxName(k string) string { return "box_" + sanitize(k) }

func (e *Eng) ifaceTerm(v IfaceV) *T {
	if v.t != nil {
		return v.t
	}
	if v.dyn == nil {
		return NilIface()
	}
	return e.box(v.dyn, e.flat(v.val, v.dyn))
}

// box builds box_T(leaves...). A type without leaves gets a dummy argument.
func (e *Eng) box(t types.Type, ts []*T) *T {
	name := boxName(typeKey(t))
	if len(ts) == 0 {
		ts = []*T{Num(0)}
	}
	b := App(name, SIface, ts...)
	if !e.boxed[name] {
		e.boxed[name] = true
		e.boxTypes[b.name] = t
		// axioms
		var vars []*T
		for i, x := range ts {
			vars = append(vars, FreshBoundAny(fmt.Sprintf("b%d", i), x.sort))
		}
		bt := App(name, SIface, vars...)
		cs := []*T{Eq(App("tagof", SInt, bt), Num(e.tag(t)))}
		for i, x := range ts {
			cs = append(cs, Eq(App(unboxName(name, i), x.sort, bt), vars[i]))
		}
		e.fact(Forall(vars, And(cs...), bt))
		// eta: a value with this tag is a box
		iv := FreshBoundAny("i", SIface)
		var us []*T
		for i, x := range ts {
			us = append(us, App(unboxName(name, i), x.sort, iv))
		}
		_ = us
		for it := range e.implFacts {
			e.implFact(it, t)
		}
	}
	return b
}

func unboxName(box string, i int) string { return fmt.Sprintf("un%s_%d", box, i) }

func (e *Eng) ifaceVal(t *T) Val {
	if isNilIface(t) {
		return IfaceV{}
	}
	if t.op == "app" && strings.HasPrefix(t.name, "box_") {
		ty := e.boxTypes[t.name]
		if ty != nil {
			if len(e.leaves(ty)) == 0 {
				return IfaceV{dyn: ty, val: e.unflat(ty, nil)}
			}
			return IfaceV{dyn: ty, val: e.unflat(ty, t.args)}
		}
	}
	return IfaceV{t: t}
}

// implements facts for opaque interface values: impl_I(tag).
func (e *Eng) implTerm(it types.Type, t *T) *T {
	k := typeKey(it)
	if _, ok := e.implFacts[k]; !ok {
		e.implFacts[k] = it
		for _, n := range sortedTags(e.tagTypes) {
			e.implFact(k, e.tagTypes[n])
		}
		e.fact(Not(App("impl_"+sanitize(k), SBool, Num(0))))
	}
	return App("impl_"+sanitize(k), SBool, App("tagof", SInt, t))
}

func sortedTags(m map[int64]types.Type) []int64 {
	var ks []int64
	for i := int64(1); i <= int64(len(m)); i++ {
		if _, ok := m[i]; ok {
			ks = append(ks, i)
		}
	}
	return ks
}

func (e *Eng) implFact(k string, t types.Type) {
	it := e.implFacts[k]
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return
	}
	key := k + "|" + typeKey(t)
	if e.implDone[key] {
		return
	}
	e.implDone[key] = true
	v := types.Implements(t, i)
	a := App("impl_"+sanitize(k), SBool, Num(e.tag(t)))
	if v {
		e.fact(a)
	} else {
		e.fact(Not(a))
	}
}

// unboxAs views the opaque interface term as the concrete type t.
func (e *Eng) unboxAs(t *T, ty types.Type) (Val, *T) {
	name := boxName(typeKey(ty))
	ls := e.leaves(ty)
	var us []*T
	if len(ls) == 0 {
		us = []*T{Num(0)}
	}
	for i, l := range ls {
		us = append(us, App(unboxName(name, i), l.sort, t))
	}
	b := e.box(ty, us)
	fact := Eq(b, t)
	var fs []*T
	for i, l := range ls {
		fs = append(fs, typeFact(us[i], l))
	}
	if len(ls) == 0 {
		return e.unflat(ty, nil), fact
	}
	return e.unflat(ty, us), And(append(fs, fact)...)
}
