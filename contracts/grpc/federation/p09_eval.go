package federation

import (
	"reflect"

	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"

	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:property P09
//verif:title an evaluated expression: value, null, absent optional and errors
func contract_eval_outcome() {
	s := zzNewScope()
	val := zzvrt.Int64("val")
	inner := &zzVal{v: val, cerr: zzvrt.ErrOrNil("conv")}
	p := &zzProg{t: s.t, id: 3, err: zzvrt.ErrOrNil("eval")}
	p.on = func() { zzvrt.Ensures("the expression is evaluated under the write lock", s.w == 1) }
	var out ref.Val
	kind := zzvrt.Choice("kind", 5)
	switch kind {
	case 0:
		out = inner
	case 1:
		out = celtypes.NullValue
	case 2:
		out = celtypes.OptionalNone
	case 3:
		out = celtypes.OptionalOf(inner)
	case 4:
		out = celtypes.OptionalOf(celtypes.NullValue)
	}
	p.out = out
	v, err := EvalCEL(zzCtxWith(p), &EvalCELRequest{Value: s, Expr: "e", OutType: reflect.TypeOf(int64(0)), CacheIndex: 3})
	zzvrt.Ensures("the scope is left unlocked", s.free())
	zzvrt.Ensures("evaluated exactly once", len(s.t.ev) == 1)
	switch {
	case p.err != nil:
		zzvrt.Ensures("the evaluation error is returned", err == p.err && v == nil)
	case kind == 0 || kind == 3:
		if inner.cerr != nil {
			zzvrt.Ensures("the conversion error is returned", err == inner.cerr)
		} else {
			zzvrt.Ensures("the converted value", err == nil && v == any(val))
		}
	default:
		zzvrt.Ensures("null and absent give the zero value of the requested type", err == nil && v == any(int64(0)))
	}
}

//verif:property P09
//verif:title without a requested type the plain value is returned
func contract_eval_untyped() {
	s := zzNewScope()
	val := zzvrt.Int64("val")
	p := &zzProg{t: s.t, id: 3, err: zzvrt.ErrOrNil("eval")}
	kind := zzvrt.Choice("kind", 5)
	switch kind {
	case 0:
		p.out = &zzVal{v: val}
	case 1:
		p.out = celtypes.NullValue
	case 2:
		p.out = celtypes.OptionalNone
	case 3:
		p.out = celtypes.OptionalOf(&zzVal{v: val})
	case 4:
		p.out = celtypes.OptionalOf(celtypes.NullValue)
	}
	v, err := EvalCEL(zzCtxWith(p), &EvalCELRequest{Value: s, Expr: "e", CacheIndex: 3})
	zzvrt.Ensures("the scope is left unlocked", s.free())
	switch {
	case p.err != nil:
		zzvrt.Ensures("the evaluation error is returned", err == p.err && v == nil)
	case kind == 0 || kind == 3:
		zzvrt.Ensures("the value", err == nil && v == any(val))
	default:
		zzvrt.Ensures("null and absent give no value", err == nil && v == nil)
	}
}

//verif:property P09
//verif:title a missing cache or cache index is an error and nothing is evaluated
func contract_eval_no_cache() {
	s := zzNewScope()
	p := zzExpr(s.t, 3, zzvrt.Int64("val"), "e")
	idx := zzvrt.Int("index")
	ctx := zzCtxWith(p)
	noCache := zzvrt.Bool("no_cache")
	if noCache {
		ctx = &zzCtx{}
	}
	zzvrt.Requires(noCache || idx == 0)
	v, err := EvalCEL(ctx, &EvalCELRequest{Value: s, Expr: "e", OutType: reflect.TypeOf(int64(0)), CacheIndex: idx})
	zzvrt.Ensures("the scope is left unlocked", s.free())
	zzvrt.Ensures("nothing is evaluated", len(s.t.ev) == 0)
	zzvrt.Ensures("it is an error", v == nil && err != nil)
	if noCache {
		zzvrt.Ensures("the missing cache is reported", err == ErrCELCacheMap)
	} else {
		zzvrt.Ensures("the missing index is reported", err == ErrCELCacheIndex)
	}
}

//verif:property P09
//verif:title a compiled expression is found under the index it was stored under and nowhere else
func contract_cache_map() {
	m := NewCELCacheMap()
	i, j := zzvrt.Int("i"), zzvrt.Int("j")
	zzvrt.Requires(i != j)
	a, b := &zzProg{id: 1}, &zzProg{id: 2}
	ctx := &zzCtx{cache: m}
	zzvrt.Ensures("nothing is stored at first", getCELProgramCache(ctx, i) == nil && getCELProgramCache(ctx, j) == nil)
	setCELProgramCache(ctx, i, a)
	zzvrt.Ensures("found under its index", getCELProgramCache(ctx, i) == cel.Program(a))
	zzvrt.Ensures("and nowhere else", getCELProgramCache(ctx, j) == nil)
	setCELProgramCache(ctx, j, b)
	zzvrt.Ensures("storing another one changes nothing", getCELProgramCache(ctx, i) == cel.Program(a) && getCELProgramCache(ctx, j) == cel.Program(b))
	m2 := NewCELCacheMap()
	zzvrt.Ensures("caches are separate", getCELProgramCache(&zzCtx{cache: m2}, i) == nil)
}
