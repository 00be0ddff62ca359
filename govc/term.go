package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort written as text ("Int", "Bool", "Str", "F64", "Iface",
// "SeqT", "(Array Int Int)", ...).
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SF64   Sort = "F64"
	SIface Sort = "Iface"
	SSeq   Sort = "SeqT"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// T is a hash-consed term.
type T struct {
	id    int
	op    string // "int","bool","sym","app","builtin ops..."
	name  string // symbol / function name
	args  []*T
	sort  Sort
	ival  *big.Int
	bval  bool
	sval  string          // string constant
	size  int             // tree size (saturating)
	bound map[string]bool // free quantifier-bound symbols (nil if none)
	// for symbols
	info  *symInfo
	depth int // binding depth of lam/forall
	bvars []*T
	reg   *regInfo
}

type symInfo struct {
	isBound bool
	lo, hi  *big.Int // known bounds of an Int symbol (iteration counters)
	initial bool     // initial memory array
}

var (
	termTab = map[string]*T{}
	termSeq int
	symTab  = map[string]*T{}
)

// appRange bounds the values of a function of the inputs.
var appRange = map[string][2]*big.Int{}

func allStrConsts() []*T {
	var ts []*T
	for _, k := range sortedKeys(strConsts) {
		ts = append(ts, strConsts[k])
	}
	return ts
}

func resetTerms() {
	appRange = map[string][2]*big.Int{"seqlen": {new(big.Int), maxIter}}
	termTab = map[string]*T{}
	symTab = map[string]*T{}
	termSeq = 0
	freshCnt = map[string]int{}
	strConsts = map[string]*T{}
	seqNames = map[string]bool{}
	funDecls = map[string]funDecl{}
	strConstSeq = 0
}

type funDecl struct {
	args []Sort
	ret  Sort
}

var funDecls = map[string]funDecl{}
var seqNames = map[string]bool{}

func intern(key string, mk func() *T) *T {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	termSeq++
	t.id = termSeq
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if len(a.bound) > 0 {
			if t.bound == nil {
				t.bound = map[string]bool{}
			}
			for k := range a.bound {
				t.bound[k] = true
			}
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	termTab[key] = t
	return t
}

func mk(op string, s Sort, name string, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *T {
		return &T{op: op, name: name, args: append([]*T(nil), args...), sort: s}
	})
}

func Num(i int64) *T { return BigNum(big.NewInt(i)) }
func BigNum(b *big.Int) *T {
	return intern("int|"+b.String(), func() *T { return &T{op: "int", sort: SInt, ival: new(big.Int).Set(b)} })
}
func Bool(b bool) *T {
	return intern("bool|"+strconv.FormatBool(b), func() *T { return &T{op: "bool", sort: SBool, bval: b} })
}

var strConsts = map[string]*T{}
var strConstSeq int

func StrC(s string) *T {
	if t, ok := strConsts[s]; ok {
		return t
	}
	strConstSeq++
	n := fmt.Sprintf("str!%d", strConstSeq)
	t := intern("strc|"+strconv.Quote(s), func() *T { return &T{op: "strc", name: n, sort: SStr, sval: s} })
	strConsts[s] = t
	return t
}

// Sym declares (or returns) a symbol.
func Sym(name string, s Sort) *T {
	if t, ok := symTab[name]; ok {
		return t
	}
	t := intern("sym|"+name, func() *T { return &T{op: "sym", name: name, sort: s} })
	symTab[name] = t
	return t
}

var freshCnt = map[string]int{}

func Fresh(prefix string, s Sort) *T {
	prefix = sanitize(prefix)
	freshCnt[prefix]++
	return Sym(fmt.Sprintf("%s!%d", prefix, freshCnt[prefix]), s)
}

var maxIter = new(big.Int).Lsh(big.NewInt(1), 50)

func FreshBound(prefix string) *T {
	t := Fresh("k_"+prefix, SInt)
	t.info = &symInfo{isBound: true, lo: big.NewInt(0), hi: maxIter}
	t.bound = map[string]bool{t.name: true}
	return t
}

// FreshBoundAny is a bound variable of any sort without a known range.
func FreshBoundAny(prefix string, s Sort) *T {
	t := Fresh("x_"+prefix, s)
	t.info = &symInfo{isBound: true}
	t.bound = map[string]bool{t.name: true}
	return t
}

// canonBound is the canonical bound variable of binding depth d.
func canonBound(d int, s Sort) *T {
	t := Sym("b!"+strconv.Itoa(d)+"_"+sanitize(string(s)), s)
	if t.info == nil {
		t.info = &symInfo{isBound: true}
		t.bound = map[string]bool{t.name: true}
	}
	return t
}

func bindDepth(t *T) int {
	memo := map[int]bool{}
	max := 0
	var rec func(t *T)
	rec = func(t *T) {
		if memo[t.id] {
			return
		}
		memo[t.id] = true
		if t.depth > max {
			max = t.depth
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return max
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!':
			sb.WriteRune(r)
		case r == '/' || r == '*' || r == '(' || r == ')' || r == '[' || r == ']' || r == ' ' || r == '{' || r == '}' || r == ',' || r == ';':
			sb.WriteByte('_')
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// App is an uninterpreted function application.
func App(name string, ret Sort, args ...*T) *T {
	name = sanitize(name)
	var as []Sort
	for _, a := range args {
		as = append(as, a.sort)
	}
	if len(args) == 0 {
		return Sym(name, ret)
	}
	key := name
	if d, ok := funDecls[key]; ok {
		same := len(d.args) == len(as) && d.ret == ret
		if same {
			for i := range as {
				if as[i] != d.args[i] {
					same = false
				}
			}
		}
		if !same {
			// overload by signature
			var sb strings.Builder
			sb.WriteString(name)
			for _, a := range as {
				sb.WriteString("_" + sanitize(string(a)))
			}
			sb.WriteString("__" + sanitize(string(ret)))
			key = sb.String()
		}
	}
	if _, ok := funDecls[key]; !ok {
		funDecls[key] = funDecl{args: as, ret: ret}
	}
	return mk("app", ret, key, args...)
}

func (t *T) isNum() bool  { return t.op == "int" }
func (t *T) isBool() bool { return t.op == "bool" }
func isTrue(t *T) bool    { return t.op == "bool" && t.bval }
func isFalse(t *T) bool   { return t.op == "bool" && !t.bval }

func Not(a *T) *T {
	switch a.op {
	case "bool":
		return Bool(!a.bval)
	case "not":
		return a.args[0]
	}
	return mk("not", SBool, "", a)
}

func And(as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(t *T) bool
	add = func(t *T) bool {
		if isTrue(t) {
			return true
		}
		if isFalse(t) {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return Bool(false)
		}
	}
	switch len(out) {
	case 0:
		return Bool(true)
	case 1:
		return out[0]
	}
	return mk("and", SBool, "", out...)
}

func Or(as ...*T) *T {
	ns := make([]*T, len(as))
	for i, a := range as {
		ns[i] = Not(a)
	}
	r := Not(And(ns...))
	if r.op == "not" && r.args[0].op == "and" {
		xs := make([]*T, len(r.args[0].args))
		for i, a := range r.args[0].args {
			xs[i] = Not(a)
		}
		return mk("or", SBool, "", xs...)
	}
	return r
}
func Implies(a, b *T) *T {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return Bool(true)
	}
	return Or(Not(a), b)
}

func Ite(c, a, b *T) *T {
	if isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return Not(c)
		}
		if isTrue(a) {
			return Or(c, b)
		}
		if isFalse(a) {
			return And(Not(c), b)
		}
		if isTrue(b) {
			return Or(Not(c), a)
		}
		if isFalse(b) {
			return And(c, a)
		}
	}
	return mk("ite", a.sort, "", c, a, b)
}

func Eq(a, b *T) *T {
	if a == b {
		return Bool(true)
	}
	if a.isNum() && b.isNum() {
		return Bool(a.ival.Cmp(b.ival) == 0)
	}
	if a.isBool() && b.isBool() {
		return Bool(a.bval == b.bval)
	}
	if a.op == "strc" && b.op == "strc" {
		return Bool(false)
	}
	if a.sort == SBool {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return Not(b)
		}
		if isFalse(b) {
			return Not(a)
		}
	}
	if a.sort == SIface {
		if a.op == "app" && b.op == "app" && strings.HasPrefix(a.name, "box_") && strings.HasPrefix(b.name, "box_") {
			if a.name != b.name {
				return Bool(false)
			}
			var cs []*T
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		if isNilIface(a) && b.op == "app" && strings.HasPrefix(b.name, "box_") ||
			isNilIface(b) && a.op == "app" && strings.HasPrefix(a.name, "box_") {
			return Bool(false)
		}
	}
	// ref classes: negative numerals are allocated objects; "old" refs are >= 0
	if a.sort == SInt {
		if refDistinct(a, b) {
			return Bool(false)
		}
		// linear: x + c == d
		if b.isNum() && a.op == "+" && len(a.args) == 2 && a.args[1].isNum() {
			return Eq(a.args[0], BigNum(new(big.Int).Sub(b.ival, a.args[1].ival)))
		}
		if a.isNum() && b.op == "+" && len(b.args) == 2 && b.args[1].isNum() {
			return Eq(b, a)
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].isNum() {
			base, c := a.args[0], a.args[1]
			if base == b {
				return Bool(c.ival.Sign() == 0)
			}
			if b.op == "+" && len(b.args) == 2 && b.args[1].isNum() && b.args[0] == base {
				return Bool(c.ival.Cmp(b.args[1].ival) == 0)
			}
		}
		if b.op == "+" && len(b.args) == 2 && b.args[1].isNum() && b.args[0] == a {
			return Bool(b.args[1].ival.Sign() == 0)
		}
	}
	if (a.op == "ite") && (b.isNum() || b.op == "strc") {
		// distribute over constants
		if (a.args[1].isNum() || a.args[1].op == "strc") || (a.args[2].isNum() || a.args[2].op == "strc") {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if (b.op == "ite") && (a.isNum() || a.op == "strc") {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", a, b)
}

func isNilIface(t *T) bool { return t.op == "sym" && t.name == "nil_iface" }
func NilIface() *T         { return Sym("nil_iface", SIface) }

// isOldRef reports that the Int term denotes a reference of an object that
// existed before the verified code started (those are >= 0; allocated objects
// are negative).
func isOldRef(t *T) bool {
	if t.isNum() {
		return t.ival.Sign() >= 0
	}
	if t.op == "app" && strings.HasPrefix(t.name, "oref_") || t.op == "sym" && strings.HasPrefix(t.name, "oref_") {
		return true
	}
	return false
}

func refDistinct(a, b *T) bool {
	la, ha := rng(a)
	lb, hb := rng(b)
	if ha != nil && lb != nil && ha.Cmp(lb) < 0 {
		return true
	}
	if hb != nil && la != nil && hb.Cmp(la) < 0 {
		return true
	}
	return false
}

func Add(a, b *T) *T {
	if a.isNum() && b.isNum() {
		return BigNum(new(big.Int).Add(a.ival, b.ival))
	}
	if a.isNum() {
		a, b = b, a
	}
	if b.isNum() {
		if b.ival.Sign() == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].isNum() {
			return Add(a.args[0], BigNum(new(big.Int).Add(a.args[1].ival, b.ival)))
		}
	} else {
		// normalise (x+c)+y -> (x+y)+c
		if a.op == "+" && a.args[1].isNum() {
			return Add(Add(a.args[0], b), a.args[1])
		}
		if b.op == "+" && b.args[1].isNum() {
			return Add(Add(a, b.args[0]), b.args[1])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mk("+", SInt, "", a, b)
}
func Sub(a, b *T) *T {
	if b.isNum() {
		return Add(a, BigNum(new(big.Int).Neg(b.ival)))
	}
	if a == b {
		return Num(0)
	}
	// (x+c) - x
	if a.op == "+" {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[1].isNum() {
			return Add(Sub(a.args[0], b), a.args[1])
		}
	}
	if b.op == "+" && b.args[1].isNum() {
		return Add(Sub(a, b.args[0]), BigNum(new(big.Int).Neg(b.args[1].ival)))
	}
	return mk("-", SInt, "", a, b)
}
func Mul(a, b *T) *T {
	if a.isNum() && b.isNum() {
		return BigNum(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.isNum() {
		a, b = b, a
	}
	if b.isNum() && b.ival.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.isNum() && b.ival.Sign() == 0 {
		return b
	}
	return mk("*", SInt, "", a, b)
}

// rng gives cheap syntactic bounds.
func rng(t *T) (lo, hi *big.Int) {
	switch {
	case t.isNum():
		return t.ival, t.ival
	case t.op == "sym" && t.info != nil && (t.info.lo != nil || t.info.hi != nil):
		return t.info.lo, t.info.hi
	case isOldRef(t):
		return big.NewInt(0), nil
	case t.op == "app" && len(t.args) > 0 && appRange[t.name][0] != nil:
		r := appRange[t.name]
		return r[0], r[1]
	case t.op == "app" && t.name == "slen":
		return big.NewInt(0), nil
	case t.op == "*" && t.args[1].isNum():
		l, h := rng(t.args[0])
		c := t.args[1].ival
		if l != nil {
			l = new(big.Int).Mul(l, c)
		}
		if h != nil {
			h = new(big.Int).Mul(h, c)
		}
		if c.Sign() < 0 {
			l, h = h, l
		}
		return l, h
	case t.op == "+":
		l1, h1 := rng(t.args[0])
		l2, h2 := rng(t.args[1])
		var l, h *big.Int
		if l1 != nil && l2 != nil {
			l = new(big.Int).Add(l1, l2)
		}
		if h1 != nil && h2 != nil {
			h = new(big.Int).Add(h1, h2)
		}
		return l, h
	case t.op == "ite":
		l1, h1 := rng(t.args[1])
		l2, h2 := rng(t.args[2])
		var l, h *big.Int
		if l1 != nil && l2 != nil {
			l = l1
			if l2.Cmp(l1) < 0 {
				l = l2
			}
		}
		if h1 != nil && h2 != nil {
			h = h1
			if h2.Cmp(h1) > 0 {
				h = h2
			}
		}
		return l, h
	}
	return nil, nil
}

func Le(a, b *T) *T {
	if a == b {
		return Bool(true)
	}
	_, ha := rng(a)
	lb, _ := rng(b)
	if ha != nil && lb != nil && ha.Cmp(lb) <= 0 {
		return Bool(true)
	}
	la, _ := rng(a)
	_, hb := rng(b)
	if la != nil && hb != nil && la.Cmp(hb) > 0 {
		return Bool(false)
	}
	d := Sub(a, b)
	if d.isNum() {
		return Bool(d.ival.Sign() <= 0)
	}
	return mk("<=", SBool, "", a, b)
}
func Lt(a, b *T) *T {
	return Not(Le(b, a))
}

func Select(a, i *T) *T {
	elemSort := arrElem(a.sort)
	for {
		if a.op == "store" {
			e := Eq(a.args[1], i)
			if isTrue(e) {
				return a.args[2]
			}
			if isFalse(e) {
				a = a.args[0]
				continue
			}
			return Ite(e, a.args[2], Select(a.args[0], i))
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "lam" {
			return Subst(a.args[0], map[int]*T{a.bvars[0].id: i})
		}
		if a.op == "regarr" {
			if b, v, ok := a.regSelect(i); ok {
				if v != nil {
					return v
				}
				a = b
				continue
			}
			if i.op == "ite" {
				return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
			}
		}
		if a.op == "ite" {
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	return mk("select", elemSort, "", a, i)
}

// Lam is the array whose value at x is body.
func Lam(x *T, body *T) *T {
	s := arrSort(x.sort, body.sort)
	if !body.bound[x.name] {
		return ConstArr(s, body)
	}
	if body.op == "select" && body.args[1] == x && !body.args[0].bound[x.name] {
		return body.args[0]
	}
	d := bindDepth(body) + 1
	b := canonBound(d, x.sort)
	nb := Subst(body, map[int]*T{x.id: b})
	return mkLam(d, b, nb, s)
}

func mkLam(d int, b, nb *T, s Sort) *T {
	t := intern(fmt.Sprintf("lam|%s|%d", b.name, nb.id), func() *T {
		return &T{op: "lam", name: b.name, args: []*T{nb}, sort: s, bvars: []*T{b}, depth: d}
	})
	t.bound = minusBound(nb.bound, t.bvars)
	return t
}

func minusBound(m map[string]bool, vs []*T) map[string]bool {
	var nb map[string]bool
	for k := range m {
		drop := false
		for _, v := range vs {
			if v.name == k {
				drop = true
			}
		}
		if !drop {
			if nb == nil {
				nb = map[string]bool{}
			}
			nb[k] = true
		}
	}
	return nb
}

// regInfo describes a memory array after a loop that allocated objects: the
// objects allocated by iteration k at body-relative position j have reference
// first - j - stride*k.
type regInfo struct {
	first  *big.Int // reference of position 0, iteration 0 (largest)
	last   *big.Int // smallest reference of the region
	stride *big.Int
	pos    []*big.Int // positions with a known value, parallel to args[1:]
	bv     *T
}

// RegArr: args[0] is the base array, args[1:] the values (over reg.bv).
func RegArr(base *T, first, last, stride *big.Int, pos []*big.Int, vals []*T, bv *T) *T {
	d := bindDepth(base)
	for _, v := range vals {
		if x := bindDepth(v); x > d {
			d = x
		}
	}
	d++
	b := canonBound(d, SInt)
	var as []*T
	as = append(as, base)
	key := fmt.Sprintf("regarr|%s|%s|%s|%d", first, last, stride, base.id)
	for i, v := range vals {
		nv := Subst(v, map[int]*T{bv.id: b})
		as = append(as, nv)
		key += fmt.Sprintf("|%s:%d", pos[i], nv.id)
	}
	t := intern(key, func() *T {
		return &T{op: "regarr", args: as, sort: base.sort, bvars: []*T{b}, depth: d,
			reg: &regInfo{first: first, last: last, stride: stride, pos: pos, bv: b}}
	})
	var fb map[string]bool
	for _, a := range as {
		for k := range a.bound {
			if k != b.name {
				if fb == nil {
					fb = map[string]bool{}
				}
				fb[k] = true
			}
		}
	}
	t.bound = fb
	return t
}

// linRef splits c - stride*k.
func linRef(i *T, stride *big.Int) (c *big.Int, k *T, ok bool) {
	if i.isNum() {
		return i.ival, Num(0), true
	}
	neg := new(big.Int).Neg(stride)
	m := func(t *T) *T {
		if t.op == "*" && t.args[1].isNum() && t.args[1].ival.Cmp(neg) == 0 {
			return t.args[0]
		}
		if neg.Cmp(big.NewInt(-1)) == 0 && t.op == "*" && t.args[1].isNum() && t.args[1].ival.Cmp(neg) == 0 {
			return t.args[0]
		}
		return nil
	}
	if i.op == "+" && i.args[1].isNum() {
		if k := m(i.args[0]); k != nil {
			return i.args[1].ival, k, true
		}
	}
	return nil, nil, false
}

func (t *T) regSelect(i *T) (base, val *T, ok bool) {
	r := t.reg
	lo, hi := rng(i)
	if lo != nil && lo.Cmp(r.first) > 0 || hi != nil && hi.Cmp(r.last) < 0 {
		return t.args[0], nil, true
	}
	if c, k, ok := linRef(i, r.stride); ok {
		d := new(big.Int).Sub(r.first, c)
		j := new(big.Int).Mod(d, r.stride)
		q := new(big.Int).Div(new(big.Int).Sub(d, j), r.stride)
		if d.Sign() >= 0 {
			for x, p := range r.pos {
				if p.Cmp(j) == 0 {
					kk := Add(k, BigNum(q))
					return nil, Subst(t.args[x+1], map[int]*T{r.bv.id: kk}), true
				}
			}
			// allocated in the region but never written under this key
			return t.args[0], nil, true
		}
	}
	return nil, nil, false
}

func arrElem(s Sort) Sort {
	// "(Array K V)": K is a simple token or parenthesised
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("arrElem of " + str)
	}
	body := str[7 : len(str)-1]
	i := tokEnd(body)
	return Sort(strings.TrimSpace(body[i:]))
}
func arrKey(s Sort) Sort {
	body := string(s)[7 : len(s)-1]
	return Sort(body[:tokEnd(body)])
}
func tokEnd(s string) int {
	if s[0] != '(' {
		return strings.IndexByte(s, ' ')
	}
	d := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return len(s)
}

func Store(a, i, v *T) *T {
	if a.op == "store" {
		e := Eq(a.args[1], i)
		if isTrue(e) {
			return Store(a.args[0], i, v)
		}
		// keep numeral indices ordered so equal heaps get equal terms
		if isFalse(e) && a.args[1].isNum() && i.isNum() && a.args[1].ival.Cmp(i.ival) > 0 {
			return Store(Store(a.args[0], i, v), a.args[1], a.args[2])
		}
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if v.sort != arrElem(a.sort) {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.sort, a.sort))
	}
	return mk("store", a.sort, "", a, i, v)
}

func ConstArr(s Sort, v *T) *T { return mk("constarr", s, string(s), v) }

// Forall builds a quantified formula over bound symbols.
func Forall(vars []*T, body *T, pats ...*T) *T {
	var vs []*T
	for _, v := range vars {
		if body.bound[v.name] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	d := bindDepth(body)
	for _, p := range pats {
		if x := bindDepth(p); x > d {
			d = x
		}
	}
	m := map[int]*T{}
	var bs []*T
	for _, v := range vs {
		d++
		b := canonBound(d, v.sort)
		bs = append(bs, b)
		m[v.id] = b
	}
	args := []*T{Subst(body, m)}
	for i, v := range vs {
		if v.info != nil && v.info.lo != nil && !isTrue(args[0]) {
			args[0] = Or(args[0], Not(mk("<=", SBool, "", BigNum(v.info.lo), bs[i])), Not(mk("<=", SBool, "", bs[i], BigNum(v.info.hi))))
		}
	}
	if isTrue(args[0]) || isFalse(args[0]) {
		return args[0]
	}
	for _, p := range pats {
		args = append(args, Subst(p, m))
	}
	return mkForall(d, bs, args)
}

// ForallMulti uses one multi-pattern.
func ForallMulti(vars []*T, body *T, pat []*T) *T {
	return Forall(vars, body, mk("mpat", SBool, "", pat...))
}

func mkForall(d int, bs []*T, args []*T) *T {
	name := ""
	for _, v := range bs {
		name += "(" + v.name + " " + string(v.sort) + ")"
	}
	key := "forall|" + name
	for _, p := range args {
		key += "," + strconv.Itoa(p.id)
	}
	t := intern(key, func() *T {
		return &T{op: "forall", name: name, args: args, sort: SBool, bvars: bs, depth: d}
	})
	t.bound = minusBound(args[0].bound, bs)
	return t
}

// Subst replaces symbols/terms (by id) in t.
func Subst(t *T, m map[int]*T) *T {
	memo := map[int]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *T, args []*T) *T {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "forall":
		if isTrue(args[0]) || isFalse(args[0]) {
			return args[0]
		}
		return mkForall(t.depth, t.bvars, args)
	case "lam":
		return mkLam(t.depth, t.bvars[0], args[0], t.sort)
	case "regarr":
		return RegArr(args[0], t.reg.first, t.reg.last, t.reg.stride, t.reg.pos, args[1:], t.reg.bv)
	case "app":
		if t.name == "slen" {
			return SLen(args[0])
		}
		if f := appRewrite[t.name]; f != nil {
			return f(args)
		}
		return mk(t.op, t.sort, t.name, args...)
	case "sconcat":
		return SConcat(args...)
	default:
		return mk(t.op, t.sort, t.name, args...)
	}
}

// appRewrite holds smart constructors for interpreted applications.
var appRewrite = map[string]func([]*T) *T{}

func Div(a, b *T) *T { // floor division, b > 0
	if b.isNum() && b.ival.Sign() > 0 {
		if a.isNum() {
			return BigNum(new(big.Int).Div(a.ival, b.ival))
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.op == "*" && a.args[1].isNum() && new(big.Int).Mod(a.args[1].ival, b.ival).Sign() == 0 {
			return Mul(a.args[0], BigNum(new(big.Int).Div(a.args[1].ival, b.ival)))
		}
	}
	return mk("div", SInt, "", a, b)
}
func Mod(a, b *T) *T {
	if b.isNum() && b.ival.Sign() > 0 {
		if a.isNum() {
			return BigNum(new(big.Int).Mod(a.ival, b.ival))
		}
		lo, hi := rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return a
		}
	}
	return mk("mod", SInt, "", a, b)
}

// SymsOf collects the ids of all symbols occurring in t.
func SymsOf(t *T, out map[*T]bool) {
	memo := map[int]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if memo[t.id] {
			return
		}
		memo[t.id] = true
		if t.op == "sym" {
			out[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func Occurs(t *T, x *T) bool {
	m := map[*T]bool{}
	SymsOf(t, m)
	return m[x]
}

// ---- strings
func SConcat(as ...*T) *T {
	var out []*T
	for _, a := range as {
		if a.op == "sconcat" {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	var m []*T
	for _, a := range out {
		if a.op == "strc" && a.sval == "" {
			continue
		}
		if a.op == "strc" && len(m) > 0 && m[len(m)-1].op == "strc" {
			m[len(m)-1] = StrC(m[len(m)-1].sval + a.sval)
			continue
		}
		m = append(m, a)
	}
	switch len(m) {
	case 0:
		return StrC("")
	case 1:
		return m[0]
	}
	return mk("sconcat", SStr, "", m...)
}

func SLen(s *T) *T {
	switch s.op {
	case "strc":
		return Num(int64(len(s.sval)))
	case "sconcat":
		r := Num(0)
		for _, a := range s.args {
			r = Add(r, SLen(a))
		}
		return r
	}
	return App("slen", SInt, s)
}

// ---- printing
type printer struct {
	defs  map[int]string // globally defined shared terms
	emit  func(string)
	decls map[string]bool
}

func newPrinter(emit func(string)) *printer {
	return &printer{defs: map[int]string{}, emit: emit, decls: map[string]bool{}}
}

func (p *printer) declare(t *T) {
	// symbols and functions reachable from t
	memo := map[int]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if memo[t.id] {
			return
		}
		memo[t.id] = true
		for _, a := range t.args {
			rec(a)
		}
		switch t.op {
		case "sym":
			if !p.decls["s:"+t.name] && !(t.info != nil && t.info.isBound) {
				p.decls["s:"+t.name] = true
				p.declSorts(t.sort)
				p.emit(fmt.Sprintf("(declare-const %s %s)", q(t.name), t.sort))
			}
		case "lam":
			if len(t.bound) == 0 {
				n := fmt.Sprintf("lam!%d", t.id)
				if !p.decls["s:"+n] {
					p.decls["s:"+n] = true
					p.emit(fmt.Sprintf("(declare-const %s %s)", n, t.sort))
					b := t.bvars[0]
					body := p.inner(t.args[0])
					p.emit(fmt.Sprintf("(assert (forall ((%s %s)) (! (= (select %s %s) %s) :pattern ((select %s %s)))))", b.name, b.sort, n, b.name, body, n, b.name))
				}
			}
		case "regarr":
			n := fmt.Sprintf("reg!%d", t.id)
			if !p.decls["s:"+n] {
				p.decls["s:"+n] = true
				p.emit(fmt.Sprintf("(declare-const %s %s)", n, t.sort))
				if len(t.bound) == 0 {
					p.emit(fmt.Sprintf("(assert (forall ((r Int)) (! (=> (or (> r %s) (< r %s)) (= (select %s r) (select %s r))) :pattern ((select %s r)))))", numStr(t.reg.first), numStr(t.reg.last), n, p.inner(t.args[0]), n))
				}
			}
		case "strc":
			if !p.decls["s:"+t.name] {
				p.decls["s:"+t.name] = true
				p.emit(fmt.Sprintf("(declare-const %s Str)", t.name))
				p.emit(fmt.Sprintf("(assert (= (strid %s) %s))", t.name, t.name[4:]))
				p.emit(fmt.Sprintf("(assert (= (slen %s) %d))", t.name, len(t.sval)))
			}
		case "app":
			if !p.decls["f:"+t.name] && t.name != "slen" && t.name != "tagof" {
				p.decls["f:"+t.name] = true
				d := funDecls[t.name]
				var as []string
				for _, a := range d.args {
					p.declSorts(a)
					as = append(as, string(a))
				}
				p.declSorts(d.ret)
				p.emit(fmt.Sprintf("(declare-fun %s (%s) %s)", q(t.name), strings.Join(as, " "), d.ret))
			}
		}
	}
	rec(t)
}

// inner prints a term that was already declared (no sharing).
func (p *printer) inner(t *T) string {
	var pr func(t *T) string
	pr = func(t *T) string {
		if d := p.defs[t.id]; d != "" {
			return d
		}
		return p.one(t, pr)
	}
	return pr(t)
}

func numStr(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

var declaredSorts = map[string]bool{}

func (p *printer) declSorts(s Sort) {
	str := string(s)
	if strings.HasPrefix(str, "(Array ") {
		p.declSorts(arrKey(s))
		p.declSorts(arrElem(s))
		return
	}
	switch s {
	case SInt, SBool, SStr, SF64, SIface, SSeq:
		return
	}
	if !p.decls["sort:"+str] {
		p.decls["sort:"+str] = true
		p.emit("(declare-sort " + str + " 0)")
	}
}

func q(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.') {
			return "|" + n + "|"
		}
	}
	return n
}

// str prints t, introducing global definitions for large shared subterms.
func (p *printer) str(t *T) string {
	p.declare(t)
	// count uses
	uses := map[int]int{}
	var cnt func(t *T)
	cnt = func(t *T) {
		uses[t.id]++
		if uses[t.id] > 1 || p.defs[t.id] != "" {
			return
		}
		for _, a := range t.args {
			cnt(a)
		}
	}
	cnt(t)
	var pr func(t *T) string
	pr = func(t *T) string {
		if d := p.defs[t.id]; d != "" {
			return d
		}
		s := p.one(t, pr)
		if (t.size > 12 && uses[t.id] > 1 || t.size > 40) && len(t.bound) == 0 && t.op != "forall" && len(t.args) > 0 {
			n := fmt.Sprintf("d!%d", t.id)
			p.emit(fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, s))
			p.defs[t.id] = n
			return n
		}
		return s
	}
	return pr(t)
}

func (p *printer) one(t *T, pr func(*T) string) string {
	list := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(pr(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.ival.String()
	case "bool":
		return strconv.FormatBool(t.bval)
	case "sym":
		return q(t.name)
	case "strc":
		return t.name
	case "app":
		return list(q(t.name))
	case "not", "and", "or", "ite", "=", "+", "-", "*", "<=", "select", "store", "div", "mod":
		return list(t.op)
	case "constarr":
		return "((as const " + string(t.sort) + ") " + pr(t.args[0]) + ")"
	case "sconcat":
		r := pr(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			r = "(scat " + pr(t.args[i]) + " " + r + ")"
		}
		return r
	case "lam":
		if len(t.bound) == 0 && p.decls[fmt.Sprintf("s:lam!%d", t.id)] {
			return fmt.Sprintf("lam!%d", t.id)
		}
		b := t.bvars[0]
		return "(lambda ((" + b.name + " " + string(b.sort) + ")) " + pr(t.args[0]) + ")"
	case "regarr":
		return fmt.Sprintf("reg!%d", t.id)
	case "forall":
		body := pr(t.args[0])
		if len(t.args) > 1 {
			var ps []string
			for _, a := range t.args[1:] {
				if a.op == "mpat" {
					var xs []string
					for _, y := range a.args {
						xs = append(xs, pr(y))
					}
					ps = append(ps, ":pattern ("+strings.Join(xs, " ")+")")
					continue
				}
				ps = append(ps, ":pattern ("+pr(a)+")")
			}
			return "(forall (" + t.name + ") (! " + body + " " + strings.Join(ps, " ") + "))"
		}
		return "(forall (" + t.name + ") " + body + ")"
	}
	panic("print " + t.op)
}

func (t *T) String() string {
	p := newPrinter(func(string) {})
	var pr func(t *T) string
	depth := 0
	pr = func(t *T) string {
		depth++
		defer func() { depth-- }()
		if depth > 14 {
			return "..."
		}
		if t.op == "strc" {
			return strconv.Quote(t.sval)
		}
		return p.one(t, pr)
	}
	return pr(t)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
