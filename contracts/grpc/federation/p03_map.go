package federation

import (
	"context"
	"reflect"

	"github.com/google/cel-go/cel"

	"github.com/mercari/grpc-federation/zzvrt"
)

func zzSource(n int) []int64 {
	src := make([]int64, 0, n)
	for i := 0; i < n; i++ {
		src = append(src, zzvrt.Int64("src", i))
	}
	return src
}

//verif:property P03
//verif:title the i-th result is the body's result for the i-th element
func contract_eval_map_elements() {
	n := zzvrt.Size("n")
	src := zzSource(n)
	s := zzNewScope()
	i := 0
	ret, err := evalMap(&zzCtx{}, s, "it", cel.IntType,
		func(v *zzScope) []int64 {
			zzvrt.Ensures("the source is read under the read lock of the scope", v == s && s.r == 1)
			return src
		},
		reflect.TypeOf([]int64(nil)),
		func(_ context.Context, it *MapIteratorValue) (any, error) {
			zzvrt.Ensures("the body runs with the scope unlocked", s.free())
			zzvrt.Ensures("the body sees its element", it.evalValues["it"] == any(src[i]))
			k := i
			i++
			return zzvrt.Int64("out", k), nil
		})
	zzvrt.Ensures("no error", err == nil)
	zzvrt.Ensures("each element is visited once", i == n)
	out, ok := ret.([]int64)
	zzvrt.Ensures("the result is a list", ok)
	zzvrt.Ensures("the list has the source's length", len(out) == n)
	zzvrt.Ensures("each result in its place", zzvrt.Forall(0, n, func(j int) bool { return out[j] == zzvrt.Int64("out", j) }))
	zzvrt.Ensures("the source is not changed", zzvrt.Forall(0, n, func(j int) bool { return src[j] == zzvrt.Int64("src", j) }))
	zzvrt.Ensures("the scope is left unlocked", s.free())
}

//verif:property P03
//verif:title the first failing element stops the evaluation with its error
func contract_eval_map_error() {
	n := zzvrt.Size("n")
	src := zzSource(n)
	s := zzNewScope()
	i := 0
	ret, err := evalMap(&zzCtx{}, s, "it", cel.IntType,
		func(v *zzScope) []int64 { return src },
		reflect.TypeOf([]int64(nil)),
		func(_ context.Context, it *MapIteratorValue) (any, error) {
			k := i
			i++
			if zzvrt.Choice("fails", 4, k) == 0 {
				return nil, zzvrt.Err("body", k)
			}
			return zzvrt.Int64("out", k), nil
		})
	zzvrt.Ensures("the scope is left unlocked", s.free())
	if err == nil {
		zzvrt.Ensures("all elements were visited", i == n)
		zzvrt.Ensures("no element failed", zzvrt.Forall(0, n, func(j int) bool { return zzvrt.Choice("fails", 4, j) != 0 }))
		return
	}
	zzvrt.Ensures("no result with an error", ret == nil)
	zzvrt.Ensures("some element was visited", 0 < i && i <= n)
	zzvrt.Ensures("the failing element is the last one visited", zzvrt.Choice("fails", 4, i-1) == 0 && err == zzvrt.Err("body", i-1))
	zzvrt.Ensures("no earlier element failed", zzvrt.Forall(0, i-1, func(j int) bool { return zzvrt.Choice("fails", 4, j) != 0 }))
}

//verif:property P03
//verif:title the body sees the enclosing scope's variables and one declaration more
func contract_eval_map_visible() {
	n := zzvrt.Size("n")
	m := zzvrt.Size("m")
	src := zzSource(n)
	s := zzNewScope()
	x := zzvrt.String("x")
	zzvrt.Requires(x != "it")
	s.eval[x] = zzvrt.Int64("xv")
	for j := 0; j < m; j++ {
		s.env = append(s.env, cel.Variable(zzvrt.String("var", j), cel.IntType))
	}
	i := 0
	_, err := evalMap(&zzCtx{}, s, "it", cel.IntType,
		func(v *zzScope) []int64 { return src },
		reflect.TypeOf([]int64(nil)),
		func(_ context.Context, it *MapIteratorValue) (any, error) {
			zzvrt.Ensures("the enclosing scope's variables are visible", it.evalValues[x] == any(zzvrt.Int64("xv")))
			zzvrt.Ensures("the iterator variable is the element", it.evalValues["it"] == any(src[i]))
			zzvrt.Ensures("one declaration more than the enclosing scope", len(it.envOpts) == m+1)
			i++
			return int64(0), nil
		})
	zzvrt.Ensures("no error", err == nil)
}

//verif:property P03
//verif:title the iteration leaves the enclosing scope's variables and declarations as they were
//verif:precise
func contract_eval_map_scope() {
	n := zzvrt.Size("n")
	m := zzvrt.Size("m")
	spare := zzvrt.Size("spare")
	src := zzSource(n)
	s := zzNewScope()
	x := zzvrt.String("x")
	s.eval[x] = zzvrt.Int64("xv")
	s.env = make([]cel.EnvOption, m, m+spare)
	i := 0
	_, err := evalMap(&zzCtx{}, s, "it", cel.IntType,
		func(v *zzScope) []int64 { return src },
		reflect.TypeOf([]int64(nil)),
		func(_ context.Context, it *MapIteratorValue) (any, error) {
			zzvrt.Ensures("the enclosing scope stays as it was", len(s.eval) == 1 && len(s.env) == m)
			it.setEvalValue("inner", i)
			it.setEnvOptValue("inner", cel.IntType)
			i++
			return int64(0), nil
		})
	zzvrt.Ensures("no error", err == nil)
	zzvrt.Ensures("the enclosing variables are unchanged", len(s.eval) == 1 && s.eval[x] == any(zzvrt.Int64("xv")))
	zzvrt.Ensures("the enclosing declarations are unchanged", len(s.env) == m)
	full := s.env[:m+spare]
	zzvrt.Ensures("the enclosing declarations are not shared", zzvrt.Forall(m, m+spare, func(j int) bool { return full[j] == nil }))
}

//verif:property P03
//verif:title a repeated definition: condition, evaluation and binding
func contract_eval_def_map() {
	s := zzNewScope()
	t := s.t
	n := zzvrt.Size("n")
	src := zzSource(n)
	cond := zzExpr(t, 1, zzvrt.Bool("condition"), "if")
	setErr := zzvrt.ErrOrNil("setter")
	var got []int64
	sets, i := 0, 0
	under := false
	name := zzvrt.String("name")
	typ := cel.ListType(cel.IntType)
	def := DefMap[[]int64, int64, *zzScope]{
		Name: name, Type: typ, IfCacheIndex: 1,
		IteratorName: "it", IteratorType: cel.IntType,
		IteratorSource: func(*zzScope) []int64 { return src },
		Iterator: func(_ context.Context, it *MapIteratorValue) (any, error) {
			k := i
			i++
			if zzvrt.Choice("fails", 4, k) == 0 {
				return nil, zzvrt.Err("body", k)
			}
			return zzvrt.Int64("out", k), nil
		},
		Setter: func(v *zzScope, l []int64) error {
			sets++
			under = s.w == 1
			got = l
			return setErr
		},
	}
	hasIf := zzvrt.Bool("has_if")
	if hasIf {
		def.If = "c"
	}
	err := EvalDefMap(zzCtxWith(cond), s, def)
	zzvrt.Ensures("the scope is left unlocked", s.free())
	zzvrt.Ensures("the definition is memoised under its own name", len(s.doNames) == 1 && s.doNames[0] == name)
	if hasIf && cond.failure() != nil {
		zzvrt.Ensures("a failing condition fails the definition", err == cond.failure() && sets == 0 && i == 0 && len(s.vals) == 0)
		return
	}
	zzvrt.Ensures("the setter runs once under the lock", sets == 1 && under)
	zzvrt.Ensures("published once under its own name and type", len(s.vals) == 1 && s.locked && s.vnames[0] == name && s.names[0] == name && s.types[0] == typ)
	l, ok := s.vals[0].([]int64)
	zzvrt.Ensures("published with its own type", ok)
	if hasIf && !zzvrt.Bool("condition") {
		zzvrt.Ensures("nothing is evaluated when the condition is false", i == 0)
		zzvrt.Ensures("the setter sees the zero value", got == nil)
		zzvrt.Ensures("dependents see the zero value", l == nil)
		zzvrt.Ensures("only the setter can fail", err == setErr)
		return
	}
	if i == 0 || zzvrt.Choice("fails", 4, i-1) != 0 {
		zzvrt.Ensures("all elements evaluated", i == n)
		zzvrt.Ensures("setter and dependents see the results", len(got) == n && len(l) == n && zzvrt.Forall(0, n, func(j int) bool {
			return got[j] == zzvrt.Int64("out", j) && l[j] == zzvrt.Int64("out", j)
		}))
		zzvrt.Ensures("only the setter can fail", err == setErr)
		return
	}
	zzvrt.Ensures("the element's error is returned", err != nil && (setErr != nil || err == zzvrt.Err("body", i-1)))
	zzvrt.Ensures("no result is bound", got == nil && l == nil)
}

type zzItem struct{ n int64 }

var zzItemA, zzItemB = &zzItem{1}, &zzItem{2}

func zzPickItem(name string, i int) *zzItem {
	switch zzvrt.Choice(name, 3, i) {
	case 0:
		return nil
	case 1:
		return zzItemA
	}
	return zzItemB
}

//verif:property P03
//verif:title unset elements are elements too, and so are unset results
func contract_eval_map_unset() {
	n := zzvrt.Size("n")
	src := make([]*zzItem, 0, n)
	for i := 0; i < n; i++ {
		src = append(src, zzPickItem("src", i))
	}
	s := zzNewScope()
	i := 0
	ret, err := evalMap(&zzCtx{}, s, "it", cel.IntType,
		func(v *zzScope) []*zzItem { return src },
		reflect.TypeOf([]*zzItem(nil)),
		func(_ context.Context, it *MapIteratorValue) (any, error) {
			zzvrt.Ensures("the body sees its element", it.evalValues["it"] == any(src[i]))
			k := i
			i++
			return src[k], nil
		})
	zzvrt.Ensures("no error", err == nil)
	zzvrt.Ensures("each element is visited once", i == n)
	out, ok := ret.([]*zzItem)
	zzvrt.Ensures("the list has the source's length", ok && len(out) == n)
	zzvrt.Ensures("each result in its place", zzvrt.Forall(0, n, func(j int) bool { return out[j] == src[j] }))
}
