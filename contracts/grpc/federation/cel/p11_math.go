package cel

import (
	"math"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:model github.com/google/cel-go/cel.FunctionBinding
func zzBinding11m(b func(...ref.Val) ref.Val) cel.OverloadOpt { zzImpl = b; return nil }

//verif:model github.com/google/cel-go/cel.Overload
func zzOverload11m(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	zzPend = append(zzPend, &zzOver{id: id, args: args, result: result, impl: zzImpl})
	return nil
}

//verif:model github.com/google/cel-go/cel.Function
func zzFunction11m(name string, opts ...cel.FunctionOpt) cel.EnvOption {
	zzDecls[name] = append(zzDecls[name], zzPend...)
	zzPend = nil
	return nil
}

//verif:property P11
//verif:title math functions are the Go functions
func contract_math() {
	l := zzOpen(MathPackageName, NewMathLibrary())
	x, y := zzvrt.Float64("x"), zzvrt.Float64("y")
	i := zzvrt.Int64("i")
	zzvrt.Ensures("sqrt of a double", zzIsDouble(l.call("sqrt", types.Double(x)), math.Sqrt(x)))
	zzvrt.Ensures("sqrt of an int", zzIsDouble(l.call("sqrt", types.Int(i)), math.Sqrt(float64(i))))
	zzvrt.Ensures("pow", zzIsDouble(l.call("pow", types.Double(x), types.Double(y)), math.Pow(x, y)))
	zzvrt.Ensures("floor", zzIsDouble(l.call("floor", types.Double(x)), math.Floor(x)))
}
