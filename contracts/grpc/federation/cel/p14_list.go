package cel

import (
	"reflect"
	"strconv"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"

	"github.com/mercari/grpc-federation/zzvrt"
)

// zzKey is a key of a totally ordered type.
type zzKey int64

func (k zzKey) ConvertToNative(t reflect.Type) (any, error) { return int64(k), nil }
func (k zzKey) ConvertToType(t ref.Type) ref.Val            { return k }
func (k zzKey) Equal(o ref.Val) ref.Val {
	x, ok := o.(zzKey)
	return types.Bool(ok && x == k)
}
func (k zzKey) Type() ref.Type { return types.IntType }
func (k zzKey) Value() any     { return int64(k) }
func (k zzKey) Compare(o ref.Val) ref.Val {
	x, ok := o.(zzKey)
	if !ok {
		return types.NewErr("no such overload")
	}
	if k < x {
		return types.Int(-1)
	}
	if k > x {
		return types.Int(1)
	}
	return types.Int(0)
}

func zzKeyOf(i int) int64 {
	if zzvrt.Native() {
		return int64(zzvrt.Choice("key", 5, i))
	}
	return zzvrt.Int64("key", i)
}

// zzSorted: the list holds every element 0..n-1 once, in the order of their keys.
func zzSorted(v ref.Val, n int, desc, stable bool) {
	o, ok := v.(*zzObj)
	zzvrt.Ensures("a list is returned", ok)
	r, ok := o.v.([]ref.Val)
	zzvrt.Ensures("a list is returned", ok)
	zzvrt.Ensures("as many elements as before", len(r) == n)
	at := func(i int) int {
		x, ok := r[i].(types.Int)
		if !ok {
			return -1
		}
		return int(x)
	}
	zzvrt.Ensures("every element is one of the list", zzvrt.Forall(0, n, func(i int) bool {
		return 0 <= at(i) && at(i) < n
	}))
	zzvrt.Ensures("no element twice", zzvrt.Forall(0, n, func(i int) bool {
		return zzvrt.Forall(i+1, n, func(j int) bool { return at(i) != at(j) })
	}))
	zzvrt.Ensures("in the order of the keys", zzvrt.Forall(0, n, func(i int) bool {
		return zzvrt.Forall(i+1, n, func(j int) bool {
			if desc {
				return zzKeyOf(at(i)) >= zzKeyOf(at(j))
			}
			return zzKeyOf(at(i)) <= zzKeyOf(at(j))
		})
	}))
	if stable {
		zzvrt.Ensures("elements with equal keys keep their order", zzvrt.Forall(0, n, func(i int) bool {
			return zzvrt.Forall(i+1, n, func(j int) bool {
				return zzKeyOf(at(i)) != zzKeyOf(at(j)) || at(i) < at(j)
			})
		}))
	}
}

func zzSort(f func(lib *ListLibrary, orig, keys ref.Val) ref.Val, desc, stable bool) {
	n := zzLen("n")
	vs := make([]ref.Val, n)
	ks := make([]ref.Val, n)
	for i := 0; i < n; i++ {
		vs[i] = types.Int(i)
	}
	for i := 0; i < n; i++ {
		ks[i] = zzKey(zzKeyOf(i))
	}
	v := f(&ListLibrary{typeAdapter: zzAdapter{}}, &zzRefList{vs: vs}, &zzRefList{vs: ks})
	zzSorted(v, n, desc, stable)
	zzvrt.Ensures("the list is unchanged", len(vs) == n && zzvrt.Forall(0, n, func(i int) bool { return zzIsInt(vs[i], int64(i)) }))
}

//verif:property P14
//verif:title sorting in ascending order
func contract_list_sort_asc() {
	zzSort(func(lib *ListLibrary, orig, keys ref.Val) ref.Val { return lib.sortAsc(orig, keys) }, false, false)
}

//verif:property P14
//verif:title sorting in descending order
func contract_list_sort_desc() {
	zzSort(func(lib *ListLibrary, orig, keys ref.Val) ref.Val { return lib.sortDesc(orig, keys) }, true, false)
}

//verif:property P14
//verif:title stable sorting in ascending order
func contract_list_sort_stable_asc() {
	zzSort(func(lib *ListLibrary, orig, keys ref.Val) ref.Val { return lib.sortStableAsc(orig, keys) }, false, true)
}

//verif:property P14
//verif:title stable sorting in descending order
func contract_list_sort_stable_desc() {
	zzSort(func(lib *ListLibrary, orig, keys ref.Val) ref.Val { return lib.sortStableDesc(orig, keys) }, true, true)
}

var _ traits.Comparer = zzKey(0)

func zzElems(name string, n int) []ref.Val {
	r := make([]ref.Val, n)
	for i := 0; i < n; i++ {
		r[i] = types.String(zzvrt.String(name, i))
	}
	return r
}

func zzIsElem(v ref.Val, name string, i int) bool { return zzIsString(v, zzvrt.String(name, i)) }

func zzLen(name string) int {
	if zzvrt.Native() {
		return zzvrt.Choice(name, 30)
	}
	return zzvrt.Size(name)
}

//verif:property P14
//verif:title no level removed leaves the elements as they are
func contract_list_flatten_none() {
	n := zzLen("n")
	vs := zzElems("e", n)
	r, err := flatten(&zzRefList{vs: vs}, 0)
	zzvrt.Ensures("no error", err == nil)
	zzvrt.Ensures("the elements in their order", len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return zzIsElem(r[i], "e", i) }))
}

//verif:property P14
//verif:title flatten of a list whose elements are lists and other values
func contract_list_flatten() {
	a, b := zzLen("n1"), zzLen("n2")
	deep := &zzRefList{vs: []ref.Val{types.Int(1)}}
	l1 := &zzRefList{vs: zzElems("x", a)}
	l2 := &zzRefList{vs: zzElems("y", b)}
	l3 := &zzRefList{vs: []ref.Val{deep}}
	r, err := flatten(&zzRefList{vs: []ref.Val{l1, types.Int(7), l2, l3}}, 1)
	zzvrt.Ensures("no error", err == nil)
	zzvrt.Ensures("one level is removed", len(r) == a+1+b+1)
	zzvrt.Ensures("the elements of the first list", zzvrt.Forall(0, a, func(i int) bool { return zzIsElem(r[i], "x", i) }))
	zzvrt.Ensures("an element that is no list", zzIsInt(r[a], 7))
	zzvrt.Ensures("the elements of the second list", zzvrt.Forall(0, b, func(i int) bool { return zzIsElem(r[a+1+i], "y", i) }))
	d, ok := r[a+1+b].(*zzRefList)
	zzvrt.Ensures("no second level is removed", ok && d == deep)
	zzvrt.Ensures("the lists are unchanged", len(l1.vs) == a && len(l2.vs) == b)
}

// zzListEnv compiles and evaluates an expression with the list library.
func zzListEval(expr string, vars map[string]*cel.Type, in map[string]any) (ref.Val, error) {
	opts := []cel.EnvOption{cel.StdLib(), cel.Lib(NewListLibrary(types.DefaultTypeAdapter)), cel.ASTValidators(NewListValidator())}
	for k, t := range vars {
		opts = append(opts, cel.Variable(k, t))
	}
	env, err := cel.NewCustomEnv(opts...)
	if err != nil {
		panic(err)
	}
	ast, iss := env.Compile(expr)
	if iss.Err() != nil {
		return nil, iss.Err()
	}
	p, err := env.Program(ast)
	if err != nil {
		return nil, err
	}
	v, _, err := p.Eval(in)
	return v, err
}

// zzNative gives the elements of a list of lists, or of a list.
func zzVals(v ref.Val) []ref.Val {
	l, ok := v.(traits.Lister)
	if !ok {
		return nil
	}
	n := int(l.Size().(types.Int))
	r := make([]ref.Val, n)
	for i := 0; i < n; i++ {
		r[i] = l.Get(types.Int(i))
	}
	return r
}

func zzKeyText(k, kind int) (any, int) {
	switch kind {
	case 0:
		return int64(k), k
	case 1:
		return uint64(k), k
	case 2:
		return float64(k) / 2, k
	case 3:
		return []string{"", "A", "a", "aa", "é", "世"}[k], k
	case 4:
		return k >= 3, k / 3
	case 5:
		return time.Duration(k) * time.Millisecond, k
	case 6:
		return time.Unix(int64(k)*86400, 0).UTC(), k
	default:
		return []byte{byte(k)}, k
	}
}

var zzKeyTypes = []*cel.Type{cel.IntType, cel.UintType, cel.DoubleType, cel.StringType, cel.BoolType, cel.DurationType, cel.TimestampType, cel.BytesType}

//verif:property P14
//verif:title the sort macros in a CEL environment: maps sorted by a key of each comparable type
//verif:bounded
//verif:native 800
func contract_list_sort_macros() {
	kind := zzvrt.Choice("kind", 8)
	n := zzvrt.Choice("n", 20)
	rows := make([]map[string]any, n)
	rank := make([]int, n)
	for i := 0; i < n; i++ {
		k, r := zzKeyText(zzvrt.Choice("k", 6, i), kind)
		rows[i] = map[string]any{"k": k, "i": int64(i)}
		rank[i] = r
	}
	m := zzvrt.Choice("macro", 6)
	name := []string{"sortAsc", "sortDesc", "sortStableAsc", "sortStableDesc", "sortStableAsc", "sortStableDesc"}[m]
	ks := make([]any, n)
	is := make([]int64, n)
	for i := 0; i < n; i++ {
		ks[i], is[i] = rows[i]["k"], int64(i)
	}
	var v ref.Val
	var err error
	vars := map[string]*cel.Type{"is": cel.ListType(cel.IntType), "ks": cel.ListType(zzKeyTypes[kind])}
	in := map[string]any{"is": is, "ks": ks}
	switch {
	case m < 4:
		v, err = zzListEval("is."+name+"(i, ks[i])", vars, in)
	case m == 4:
		v, err = zzListEval("is.sortDesc(i, i).sortAsc(i, i).sortStableAsc(j, ks[j])", vars, in)
	default:
		v, err = zzListEval("is.sortStableDesc(i, i).sortAsc(i, i).sortStableDesc(i, ks[i])", vars, in)
	}
	zzvrt.Ensures("no error", err == nil)
	got := zzVals(v)
	zzvrt.Ensures("as many elements as before", len(got) == n)
	seen := make([]bool, n)
	at := make([]int, n)
	for j := 0; j < n; j++ {
		x, ok := got[j].(types.Int)
		zzvrt.Ensures("an element of the list", ok && 0 <= x && int(x) < n)
		zzvrt.Ensures("no element twice", !seen[x])
		seen[x] = true
		at[j] = int(x)
	}
	desc := m%2 == 1
	for j := 1; j < n; j++ {
		a, b := rank[at[j-1]], rank[at[j]]
		zzvrt.Ensures("in the order of the keys", !desc && a <= b || desc && a >= b)
		if m >= 2 {
			zzvrt.Ensures("elements with equal keys keep their order", a != b || at[j-1] < at[j])
		}
	}
	for i := 0; i < n; i++ {
		zzvrt.Ensures("the list is unchanged", is[i] == int64(i))
	}
}

//verif:property P14
//verif:title sorting by a key that cannot be compared is rejected when the expression is compiled
//verif:bounded
//verif:native 100
func contract_list_validator() {
	name := []string{"sortAsc", "sortDesc", "sortStableAsc", "sortStableDesc"}[zzvrt.Choice("macro", 4)]
	bad := zzvrt.Choice("bad", 2) == 0
	key := []string{"i", "'a'", "1.5", "i > 1", "-i", "b'x'", "duration('1s')"}[zzvrt.Choice("good key", 7)]
	if bad {
		key = []string{"[i]", "{'a': i}", "[[i]]", "type(i)"}[zzvrt.Choice("bad key", 4)]
	}
	pre := []string{"", ".sortAsc(v, v)", ".sortStableDesc(x, x)", ".filter(x, x > 0)"}[zzvrt.Choice("before", 4)]
	post := []string{"", ".sortAsc(v, v)", ".map(x, x)", ".size()"}[zzvrt.Choice("after", 4)]
	_, err := zzListEval("is"+pre+"."+name+"(i, "+key+")"+post, map[string]*cel.Type{"is": cel.ListType(cel.IntType)}, map[string]any{"is": []int64{3, 1, 2}})
	zzvrt.Ensures("rejected exactly when the key has no order", (err != nil) == bad)
}

//verif:property P14
//verif:title reduce, first and flatten in a CEL environment
//verif:bounded
//verif:native 800
func contract_list_reduce_first_flatten() {
	n := zzvrt.Choice("n", 6)
	var flat []int64
	rows := make([]any, n)
	for i := 0; i < n; i++ {
		m := zzvrt.Choice("m", 4, i)
		row := make([]int64, m)
		for j := 0; j < m; j++ {
			row[j] = int64(zzvrt.Choice("e", 9, i, j))
			flat = append(flat, row[j])
		}
		rows[i] = row
	}
	vars := map[string]*cel.Type{"rows": cel.ListType(cel.ListType(cel.IntType)), "deep": cel.ListType(cel.ListType(cel.ListType(cel.IntType)))}
	in := map[string]any{"rows": rows, "deep": []any{rows, []any{}, rows}}
	v, err := zzListEval("rows.flatten()", vars, in)
	zzvrt.Ensures("no error", err == nil)
	got := zzVals(v)
	zzvrt.Ensures("flatten: the elements of the elements", len(got) == len(flat))
	for i := 0; i < len(flat); i++ {
		zzvrt.Ensures("flatten: in their order", zzIsInt(got[i], flat[i]))
	}
	v, err = zzListEval("deep.flatten()", vars, in)
	zzvrt.Ensures("no error", err == nil)
	got = zzVals(v)
	zzvrt.Ensures("flatten: one level only", len(got) == 2*n)
	for i := 0; i < len(got); i++ {
		row := zzVals(got[i])
		want := rows[i%n].([]int64)
		zzvrt.Ensures("flatten: the inner lists", len(row) == len(want))
		for j := 0; j < len(want); j++ {
			zzvrt.Ensures("flatten: the inner lists in their order", zzIsInt(row[j], want[j]))
		}
	}
	v, err = zzListEval("rows.flatten().reduce(acc, cur, acc * 10 + cur, 1)", vars, in)
	acc := int64(1)
	for i := 0; i < len(flat); i++ {
		acc = acc*10 + flat[i]
	}
	zzvrt.Ensures("reduce: the accumulator passed through the elements in order", err == nil && zzIsInt(v, acc))
	x := int64(zzvrt.Choice("x", 9))
	v, err = zzListEval("rows.flatten().first(e, e > "+strconv.FormatInt(x, 10)+")", vars, in)
	zzvrt.Ensures("no error", err == nil)
	o, ok := v.(*types.Optional)
	zzvrt.Ensures("first: an optional", ok)
	for i := 0; i < len(flat); i++ {
		if flat[i] > x {
			zzvrt.Ensures("first: the first element that satisfies the condition", o.HasValue() && zzIsInt(o.GetValue(), flat[i]))
			return
		}
	}
	zzvrt.Ensures("first: none when no element satisfies it", !o.HasValue())
}
