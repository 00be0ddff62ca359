package federation

import (
	"reflect"
	"strings"

	"github.com/google/cel-go/cel"
	celast "github.com/google/cel-go/common/ast"
	"github.com/google/cel-go/parser"
	exprpb "google.golang.org/genproto/googleapis/api/expr/v1alpha1"

	"github.com/mercari/grpc-federation/zzvrt"
)

// zzFront holds the outcomes of the CEL front end, see the models below.
type zzFront struct {
	texts    []string // the texts compiled so far
	ast0     *cel.Ast // what each compilation yields
	ast1     *cel.Ast
	iss0     error
	iss1     error
	checked  *exprpb.CheckedExpr
	checkErr error
	nulls    bool // some comparison with null was rewritten
	native   *celast.AST
	toErr    error
	text     string
	textErr  error
	order    []int
}

var zzFront1 *zzFront

//verif:model (*github.com/google/cel-go/cel.Env).Compile
func zzFrontCompile(_ *cel.Env, text string) (*cel.Ast, *cel.Issues) {
	f := zzFront1
	f.texts = append(f.texts, text)
	f.order = append(f.order, 1)
	if len(f.texts) == 1 {
		if f.iss0 != nil {
			return nil, zzIssue0
		}
		return f.ast0, zzIssue0
	}
	if f.iss1 != nil {
		return nil, zzIssue1
	}
	return f.ast1, zzIssue1
}

var zzIssue0, zzIssue1 *cel.Issues

//verif:model (*github.com/google/cel-go/cel.Issues).Err
func zzFrontErr(i *cel.Issues) error {
	if i == zzIssue0 {
		return zzFront1.iss0
	}
	return zzFront1.iss1
}

//verif:model github.com/google/cel-go/cel.AstToCheckedExpr
func zzFrontChecked(a *cel.Ast) (*exprpb.CheckedExpr, error) {
	f := zzFront1
	f.order = append(f.order, 2)
	zzvrt.Ensures("the compiled expression is examined", a == f.ast0)
	if f.checkErr != nil {
		return nil, f.checkErr
	}
	return f.checked, nil
}

//verif:model (*github.com/mercari/grpc-federation/grpc/federation.comparingNullResolver).Resolve
func zzFrontResolve(_ *comparingNullResolver, c *exprpb.CheckedExpr) bool {
	f := zzFront1
	f.order = append(f.order, 3)
	zzvrt.Ensures("its checked form is rewritten", c == f.checked)
	return f.nulls
}

//verif:model github.com/google/cel-go/common/ast.ToAST
func zzFrontToAST(c *exprpb.CheckedExpr) (*celast.AST, error) {
	f := zzFront1
	f.order = append(f.order, 4)
	zzvrt.Ensures("the rewritten form is converted", c == f.checked && len(f.order) >= 2 && f.order[len(f.order)-2] == 3)
	if f.toErr != nil {
		return nil, f.toErr
	}
	return f.native, nil
}

//verif:model (*github.com/google/cel-go/common/ast.AST).Expr
func zzFrontExpr(*celast.AST) celast.Expr { return nil }

//verif:model (*github.com/google/cel-go/common/ast.AST).SourceInfo
func zzFrontInfo(*celast.AST) *celast.SourceInfo { return nil }

//verif:model github.com/google/cel-go/parser.Unparse
func zzFrontUnparse(celast.Expr, *celast.SourceInfo, ...parser.UnparserOption) (string, error) {
	f := zzFront1
	f.order = append(f.order, 5)
	if f.textErr != nil {
		return "", f.textErr
	}
	return f.text, nil
}

//verif:property P09
//verif:title the requested expression is compiled with every argument reference resolved
//verif:native 300
func contract_eval_ast() {
	expr := zzvrt.String("expr")
	if zzvrt.Native() {
		zzAstNative()
		return
	}
	f := &zzFront{
		ast0: &cel.Ast{}, ast1: &cel.Ast{}, iss0: zzvrt.ErrOrNil("iss0"), iss1: zzvrt.ErrOrNil("iss1"),
		checked: &exprpb.CheckedExpr{}, checkErr: zzvrt.ErrOrNil("check"), nulls: zzvrt.Bool("nulls"),
		native: &celast.AST{}, toErr: zzvrt.ErrOrNil("toast"), text: zzvrt.String("text"), textErr: zzvrt.ErrOrNil("unparse"),
	}
	zzFront1 = f
	zzIssue0, zzIssue1 = &cel.Issues{}, &cel.Issues{}
	ast, err := createCELAst(&EvalCELRequest{Expr: expr, CacheIndex: 1}, &cel.Env{})
	zzvrt.Ensures("the expression is compiled with each $ standing for the message argument",
		len(f.texts) >= 1 && f.texts[0] == strings.ReplaceAll(expr, "$", MessageArgumentVariableName))
	switch {
	case f.iss0 != nil:
		zzvrt.Ensures("a compilation error is returned", ast == nil && err == f.iss0)
	case f.checkErr != nil:
		zzvrt.Ensures("an error of examining the expression is returned", ast == nil && err == f.checkErr)
	case !f.nulls:
		zzvrt.Ensures("without a comparison with null the compiled expression itself", err == nil && ast == f.ast0 && len(f.texts) == 1)
	case f.toErr != nil:
		zzvrt.Ensures("an error of converting the rewritten form is returned", ast == nil && err == f.toErr)
	case f.textErr != nil:
		zzvrt.Ensures("an error of printing the rewritten form is returned", ast == nil && err == f.textErr)
	default:
		zzvrt.Ensures("the rewritten text is compiled", len(f.texts) == 2 && f.texts[1] == f.text)
		if f.iss1 != nil {
			zzvrt.Ensures("a compilation error of the rewritten text is returned", ast == nil && err == f.iss1)
		} else {
			zzvrt.Ensures("the compiled rewritten expression", err == nil && ast == f.ast1)
		}
	}
}

// zzAstNative evaluates sums with many references to the message argument.
func zzAstNative() {
	s := zzNewScope()
	v := int64(zzvrt.Int32("v"))
	s.env = []cel.EnvOption{cel.StdLib(), cel.Variable(MessageArgumentVariableName, cel.IntType), cel.Variable("x", cel.IntType)}
	s.eval[MessageArgumentVariableName] = v
	s.eval["x"] = int64(1)
	ctx := &zzCtx{cache: NewCELCacheMap()}
	n := zzvrt.Choice("references", 20) + 1
	expr, want := "0", int64(0)
	for i := 0; i < n; i++ {
		if zzvrt.Bool("ref", i) {
			expr, want = expr+" + $", want+v
		} else {
			expr, want = expr+" + x", want+1
		}
	}
	out, err := EvalCEL(ctx, &EvalCELRequest{Value: s, Expr: expr, OutType: reflect.TypeOf(int64(0)), CacheIndex: 1})
	zzvrt.Ensures("every $ stands for the message argument", err == nil && out == any(want))
	_, err = EvalCEL(ctx, &EvalCELRequest{Value: s, Expr: expr + " + undeclared", OutType: reflect.TypeOf(int64(0)), CacheIndex: 2})
	zzvrt.Ensures("a compilation error is returned", err != nil)
}
