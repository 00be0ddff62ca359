package federation

import (
	"reflect"
	"strconv"

	"github.com/google/cel-go/cel"

	"github.com/mercari/grpc-federation/zzvrt"
)

// The outcomes of compiling an expression, see the models below.
type zzCompiler struct {
	env, ast, prog error
	made           int
	p              *zzProg
	expr           string
}

var zzComp1 *zzCompiler

//verif:model github.com/google/cel-go/cel.NewCustomEnv
func zzNewEnv(...cel.EnvOption) (*cel.Env, error) {
	if zzComp1.env != nil {
		return nil, zzComp1.env
	}
	return &cel.Env{}, nil
}

//verif:model github.com/mercari/grpc-federation/grpc/federation.createCELAst
func zzCreateAst(req *EvalCELRequest, _ *cel.Env) (*cel.Ast, error) {
	zzvrt.Ensures("the requested expression is compiled", req.Expr == zzComp1.expr)
	if zzComp1.ast != nil {
		return nil, zzComp1.ast
	}
	return &cel.Ast{}, nil
}

//verif:model (*github.com/google/cel-go/cel.Env).Program
func zzProgram(_ *cel.Env, _ *cel.Ast, _ ...cel.ProgramOption) (cel.Program, error) {
	zzComp1.made++
	if zzComp1.prog != nil {
		return nil, zzComp1.prog
	}
	return zzComp1.p, nil
}

//verif:property P09
//verif:title the first evaluation compiles, later ones reuse exactly that program
//verif:native 150
func contract_eval_compile() {
	s := zzNewScope()
	idx := zzvrt.Int("index")
	zzvrt.Requires(idx != 0)
	val := int64(zzvrt.Int32("val"))
	ctx := &zzCtx{cache: NewCELCacheMap()}
	if zzvrt.Native() {
		zzCompileNative(ctx, s, idx, val)
		return
	}
	expr := zzvrt.String("expr")
	c := &zzCompiler{env: zzvrt.ErrOrNil("env"), ast: zzvrt.ErrOrNil("ast"), prog: zzvrt.ErrOrNil("prog"), p: zzExpr(s.t, 3, val, "e"), expr: expr}
	zzComp1 = c
	failed := c.env != nil || c.ast != nil || c.prog != nil
	req := func(i int) *EvalCELRequest {
		return &EvalCELRequest{Value: s, Expr: expr, OutType: reflect.TypeOf(int64(0)), CacheIndex: i}
	}
	v, err := EvalCEL(ctx, req(idx))
	zzvrt.Ensures("the scope is left unlocked", s.free())
	if failed {
		zzvrt.Ensures("a compilation error is returned", v == nil && err != nil)
		zzvrt.Ensures("nothing is evaluated", len(s.t.ev) == 0)
		zzvrt.Ensures("nothing is stored", getCELProgramCache(ctx, idx) == nil)
		return
	}
	zzvrt.Ensures("the compiled program's outcome", err == c.p.failure() && (err != nil || v == any(val)))
	zzvrt.Ensures("it is stored under its index", getCELProgramCache(ctx, idx) == cel.Program(c.p))
	v, err = EvalCEL(ctx, req(idx))
	zzvrt.Ensures("the same outcome again", err == c.p.failure() && (err != nil || v == any(val)))
	zzvrt.Ensures("compiled once", c.made == 1 && len(s.t.ev) == 2)
	zzvrt.Ensures("the scope is left unlocked", s.free())
	other := zzvrt.Int("other")
	zzvrt.Requires(other != 0 && other != idx)
	v, err = EvalCEL(ctx, req(other))
	zzvrt.Ensures("another index compiles for itself", c.made == 2)
}

func zzCompileNative(ctx *zzCtx, s *zzScope, idx int, val int64) {
	s.env = []cel.EnvOption{cel.StdLib(), cel.Variable("x", cel.IntType)}
	s.eval["x"] = val
	ev := func(i int, expr string) (any, error) {
		v, err := EvalCEL(ctx, &EvalCELRequest{Value: s, Expr: expr, OutType: reflect.TypeOf(int64(0)), CacheIndex: i})
		zzvrt.Ensures("the scope is left unlocked", s.free())
		return v, err
	}
	v, err := ev(idx, "undeclared + 1")
	zzvrt.Ensures("a compilation error is returned", v == nil && err != nil)
	zzvrt.Ensures("nothing is stored", getCELProgramCache(ctx, idx) == nil)
	k := int64(zzvrt.Choice("k", 9))
	v, err = ev(idx, "x + "+strconv.FormatInt(k, 10))
	zzvrt.Ensures("the compiled program's outcome", err == nil && v == any(val+k))
	p := getCELProgramCache(ctx, idx)
	zzvrt.Ensures("it is stored under its index", p != nil)
	s.eval["x"] = val + 1
	v, err = ev(idx, "x + "+strconv.FormatInt(k, 10))
	zzvrt.Ensures("the same program on the new variables", err == nil && v == any(val+1+k))
	zzvrt.Ensures("compiled once", getCELProgramCache(ctx, idx) == p)
	v, err = ev(idx+1, "x + "+strconv.FormatInt(k+1, 10))
	if idx+1 != 0 {
		zzvrt.Ensures("another index compiles for itself", err == nil && v == any(val+2+k))
	}
	v, err = ev(idx, "1 / 0")
	zzvrt.Ensures("the index decides which program is used", err == nil && v == any(val+1+k))
}
