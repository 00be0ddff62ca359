package federation

import (
	"context"
	"errors"
	"fmt"

	"github.com/google/cel-go/cel"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/zzvrt"
)

// zzDefRun checks one definition of kind k (1 expression, 2 message, 3 enum).
func zzDefRun(k int) {
	sc := zzNewScope()
	t := sc.t
	val := zzvrt.Int64("val")
	cond := zzExpr(t, 1, zzvrt.Bool("condition"), "if")
	by := zzExpr(t, 2, val, "by")
	bodyErr := zzvrt.ErrOrNil("body")
	setErr := zzvrt.ErrOrNil("setter")
	var got []int64
	var setUnderLock bool
	typ := cel.IntType
	name := zzvrt.String("name")
	def := Def[int64, *zzScope]{
		Name: name, Type: typ, IfCacheIndex: 1, ByCacheIndex: 2,
		Setter: func(s *zzScope, v int64) error {
			t.add(5)
			setUnderLock = s.w == 1
			got = append(got, v)
			return setErr
		},
	}
	hasIf := zzvrt.Bool("has_if")
	if hasIf {
		def.If = "c"
	}
	switch k {
	case 1:
		def.By = "e"
	case 2:
		def.Message = func(context.Context, *zzScope) (any, error) {
			t.add(2)
			if bodyErr != nil {
				return nil, bodyErr
			}
			return val, nil
		}
	case 3:
		def.Enum = func(context.Context, *zzScope) (int64, error) {
			t.add(2)
			return val, bodyErr
		}
	}
	runErr := bodyErr
	if k == 1 {
		runErr = by.failure()
	}
	ctx := zzCtxWith(cond, by)
	var err error
	if zzvrt.Bool("ignore_and_response") {
		err = IgnoreAndResponse(ctx, sc, def)
		zzvrt.Ensures("the response variable is not memoised", len(sc.doNames) == 0)
	} else {
		err = EvalDef(ctx, sc, def)
		zzvrt.Ensures("the definition is memoised under its own name", len(sc.doNames) == 1 && sc.doNames[0] == name)
	}
	zzvrt.Ensures("every lock is released", sc.free())
	if hasIf && cond.failure() != nil {
		zzvrt.Ensures("the condition's error is returned", err == cond.failure())
		zzvrt.Ensures("nothing is evaluated after a failing condition", len(t.ev) == 1 && t.ev[0] == 1)
		return
	}
	runs := !hasIf || zzvrt.Bool("condition")
	i := 0
	if hasIf {
		zzvrt.Ensures("the condition is evaluated first", len(t.ev) > 0 && t.ev[0] == 1)
		i = 1
	}
	if runs {
		zzvrt.Ensures("the value is evaluated exactly once", len(t.ev) == i+2 && t.ev[i] == 2 && t.ev[i+1] == 5)
	} else {
		zzvrt.Ensures("a false condition evaluates nothing", len(t.ev) == i+1 && t.ev[i] == 5)
	}
	want := int64(0)
	if runs && runErr == nil {
		want = val
	}
	if !(k == 3 && runs && runErr != nil) {
		zzvrt.Ensures("the setter gets the value", len(got) == 1 && got[0] == want)
		zzvrt.Ensures("the published value is the value", len(sc.vals) == 1 && sc.vals[0] == any(want))
	}
	zzvrt.Ensures("published once under its own name and type", len(sc.names) == 1 && sc.names[0] == name && sc.types[0] == typ && len(sc.vnames) == 1 && sc.vnames[0] == name)
	zzvrt.Ensures("published under the write lock", sc.locked && setUnderLock)
	if !runs {
		runErr = nil
	}
	switch {
	case runErr == nil && setErr == nil:
		zzvrt.Ensures("no error without a failure", err == nil)
	case setErr == nil:
		zzvrt.Ensures("the evaluation's error is returned", err == runErr)
	case runErr == nil:
		zzvrt.Ensures("the setter's error is returned", err == setErr)
	default:
		zzvrt.Ensures("both errors are reported", err != nil && errors.Is(err, runErr) && errors.Is(err, setErr))
	}
}

//verif:property P02
//verif:title a definition by expression: condition, single evaluation, binding and errors
func contract_def_by() { zzDefRun(1) }

//verif:property P02
//verif:title a definition by message: condition, single evaluation, binding and errors
func contract_def_message() { zzDefRun(2) }

//verif:property P02
//verif:title a definition by enum: condition, single evaluation, binding and errors
func contract_def_enum() { zzDefRun(3) }

//verif:property P02
//verif:title a failing validation fails with its own status, or Internal when it has none
func contract_def_validation() {
	sc := zzNewScope()
	t := sc.t
	cond := zzExpr(t, 1, zzvrt.Bool("condition"), "if")
	typ := cel.BoolType
	def := Def[bool, *zzScope]{Name: "_def", Type: typ, IfCacheIndex: 1,
		Setter: func(_ *zzScope, v bool) error { t.add(5); return nil },
	}
	hasIf := zzvrt.Bool("has_if")
	if hasIf {
		def.If = "c"
	}
	var verr error
	kind := zzvrt.Choice("validation", 4)
	code := grpccodes.Code(zzvrt.Choice("code", 16) + 1)
	switch kind {
	case 1:
		verr = zzvrt.Err("validation")
	case 2:
		verr = grpcstatus.Error(code, zzvrt.String("message"))
	case 3:
		verr = fmt.Errorf("wrapped: %w", grpcstatus.Error(code, zzvrt.String("message")))
	}
	def.Validation = func(context.Context, *zzScope) error { t.add(2); return verr }
	err := EvalDef(zzCtxWith(cond), sc, def)
	zzvrt.Ensures("every lock is released", sc.free())
	if hasIf && cond.failure() != nil {
		zzvrt.Ensures("the condition's error is returned", err == cond.failure())
		zzvrt.Ensures("a failing condition runs no validation", len(t.ev) == 1 && t.ev[0] == 1)
		return
	}
	if hasIf && !zzvrt.Bool("condition") {
		zzvrt.Ensures("a false condition runs no validation", err == nil && len(t.ev) == 2 && t.ev[1] == 5)
		return
	}
	i := 0
	if hasIf {
		i = 1
	}
	zzvrt.Ensures("the validation runs exactly once", len(t.ev) == i+2 && t.ev[i] == 2 && t.ev[i+1] == 5)
	switch kind {
	case 0:
		zzvrt.Ensures("a passing validation is no error", err == nil)
	case 1:
		zzvrt.Ensures("a failure without a status is Internal", err != nil && grpcstatus.Code(err) == grpccodes.Internal)
	default:
		zzvrt.Ensures("a failure with a status is returned as it is", err == verr)
	}
}

//verif:property P02
//verif:title a conditional body runs exactly when its condition evaluates to true
func contract_if() {
	sc := zzNewScope()
	t := sc.t
	cond := zzExpr(t, 1, zzvrt.Bool("condition"), "if")
	berr := zzvrt.ErrOrNil("body")
	var got *zzScope
	err := If(zzCtxWith(cond), &IfParam[*zzScope]{Value: sc, Expr: "c", CacheIndex: 1, Body: func(v *zzScope) error {
		t.add(2)
		got = v
		zzvrt.Ensures("the body runs without a lock", v.free())
		return berr
	}})
	zzvrt.Ensures("every lock is released", sc.free())
	switch {
	case cond.failure() != nil:
		zzvrt.Ensures("the condition's error is returned", err == cond.failure() && len(t.ev) == 1)
	case zzvrt.Bool("condition"):
		zzvrt.Ensures("the body runs once with the scope and its error is returned", err == berr && got == sc && len(t.ev) == 2 && t.ev[0] == 1 && t.ev[1] == 2)
	default:
		zzvrt.Ensures("the body does not run", err == nil && got == nil && len(t.ev) == 1)
	}
}

//verif:property P02 P09
//verif:title the value set from an expression is exactly its result
func contract_set_cel_value() {
	sc := zzNewScope()
	t := sc.t
	val := zzvrt.String("val")
	ex := zzExpr(t, 1, val, "e")
	serr := zzvrt.ErrOrNil("setter")
	var got []string
	underLock := true
	err := SetCELValue(zzCtxWith(ex), &SetCELValueParam[string]{Value: sc, Expr: "e", CacheIndex: 1, Setter: func(v string) error {
		got = append(got, v)
		underLock = underLock && sc.w == 1
		return serr
	}})
	zzvrt.Ensures("every lock is released", sc.free())
	zzvrt.Ensures("evaluated exactly once", len(t.ev) == 1 && t.ev[0] == 1)
	if ex.failure() != nil {
		zzvrt.Ensures("an evaluation error is returned and nothing is set", err == ex.failure() && len(got) == 0)
		return
	}
	zzvrt.Ensures("the setter gets the result once, under the lock", len(got) == 1 && got[0] == val && underLock)
	zzvrt.Ensures("the setter's error is returned", err == serr)
}
