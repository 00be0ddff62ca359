package cel

import (
	"context"
	"reflect"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzOver is one overload a library declares, as cel-go is told about it.
type zzOver struct {
	id     string
	args   []*cel.Type
	result *cel.Type
	impl   func(...ref.Val) ref.Val
	member bool
}

var (
	zzImpl  func(...ref.Val) ref.Val // the binding created last
	zzPend  []*zzOver                // the overloads of the function being declared
	zzDecls map[string][]*zzOver     // the functions declared
	zzConst map[string]ref.Val       // the constants declared
)

// zzLib gives access to the functions a library declares, with their
// implementations.
type zzLib struct {
	pkg   string
	decls map[string][]*zzOver
	env   *cel.Env
}

func zzOpen(pkg string, lib cel.SingletonLibrary) *zzLib {
	zzImpl, zzPend = nil, nil
	zzDecls = map[string][]*zzOver{}
	zzConst = map[string]ref.Val{}
	opts := lib.CompileOptions()
	l := &zzLib{pkg: packageName(pkg) + "."}
	if !zzvrt.Native() {
		l.decls = zzDecls
		return l
	}
	env, err := cel.NewCustomEnv(opts...)
	if err != nil {
		panic(err)
	}
	l.decls = map[string][]*zzOver{}
	for name, f := range env.Functions() {
		bs, err := f.Bindings()
		if err != nil {
			panic(err)
		}
		for _, o := range f.OverloadDecls() {
			v := &zzOver{id: o.ID(), args: o.ArgTypes(), result: o.ResultType(), member: o.IsMemberFunction()}
			for _, b := range bs {
				if b.Operator == o.ID() {
					v.impl = b.Function
				}
			}
			l.decls[name] = append(l.decls[name], v)
		}
	}
	l.env = env
	return l
}

func zzKindOf(v ref.Val) types.Kind {
	switch x := v.(type) {
	case types.Bool:
		return types.BoolKind
	case types.Int:
		return types.IntKind
	case types.Uint:
		return types.UintKind
	case types.Double:
		return types.DoubleKind
	case types.String:
		return types.StringKind
	case types.Bytes:
		return types.BytesKind
	case types.Duration:
		return types.DurationKind
	case types.Timestamp:
		return types.TimestampKind
	case *types.Err:
		return types.ErrorKind
	case traits.Lister:
		return types.ListKind
	case traits.Mapper:
		return types.MapKind
	case *EnumSelector:
		return types.OpaqueKind
	default:
		_ = x
		return types.StructKind
	}
}

func zzObjName(v ref.Val) string {
	switch x := v.(type) {
	case *zzObj:
		return x.name
	case *Source:
		return "grpc.federation.rand.Source"
	case *Rand:
		return "grpc.federation.rand.Rand"
	case *UUID:
		return "grpc.federation.uuid.UUID"
	}
	return ""
}

func zzAccepts(o *zzOver, args []ref.Val) bool {
	if len(o.args) != len(args) {
		return false
	}
	for i := 0; i < len(args); i++ {
		if o.args[i].Kind() != types.DynKind && o.args[i].Kind() != types.AnyKind && o.args[i].Kind() != types.TypeParamKind && o.args[i].Kind() != zzKindOf(args[i]) {
			return false
		}
		if n := zzObjName(args[i]); n != "" && o.args[i].Kind() == types.StructKind && o.args[i].TypeName() != n {
			return false
		}
	}
	return true
}

// constant gives the value of a declared constant.
func (l *zzLib) constant(name string) ref.Val {
	if !zzvrt.Native() {
		v, ok := zzConst[l.pkg+name]
		if !ok {
			zzvrt.Missing("a constant of the library")
		}
		return v
	}
	ast, iss := l.env.Compile(l.pkg + name)
	if iss.Err() != nil {
		panic(iss.Err())
	}
	p, err := l.env.Program(ast)
	if err != nil {
		panic(err)
	}
	v, _, err := p.Eval(map[string]any{})
	if err != nil {
		panic(err)
	}
	return v
}

// call evaluates a function of the library on arguments of its declared types.
func (l *zzLib) call(name string, args ...ref.Val) ref.Val {
	vs := make([]ref.Val, 0, 8)
	vs = append(vs, NewContextValue(context.Background()))
	vs = append(vs, args...)
	return zzRun(l.decls[l.pkg+name], false, vs)
}

// member evaluates a method.
func (l *zzLib) member(name string, self ref.Val, args ...ref.Val) ref.Val {
	vs := make([]ref.Val, 0, 8)
	vs = append(vs, self, NewContextValue(context.Background()))
	vs = append(vs, args...)
	return zzRun(l.decls[name], true, vs)
}

func zzRun(os []*zzOver, member bool, vs []ref.Val) ref.Val {
	for _, o := range os {
		if o.member == member && zzAccepts(o, vs) && o.impl != nil {
			r := o.impl(vs...)
			k := zzKindOf(r)
			d := o.result.Kind()
			zzvrt.Ensures("the result has the declared type, or is an error", k == d || k == types.ErrorKind || d == types.DynKind || d == types.AnyKind)
			return r
		}
	}
	zzvrt.Missing("a function of the library")
	return nil
}

func zzIsDouble(v ref.Val, want float64) bool {
	d, ok := v.(types.Double)
	return ok && zzvrt.SameF(float64(d), want)
}

func zzIsInt(v ref.Val, want int64) bool {
	d, ok := v.(types.Int)
	return ok && int64(d) == want
}

func zzIsUint(v ref.Val, want uint64) bool {
	d, ok := v.(types.Uint)
	return ok && uint64(d) == want
}

func zzIsBool(v ref.Val, want bool) bool {
	d, ok := v.(types.Bool)
	return ok && bool(d) == want
}

func zzIsBytes(v ref.Val, want []byte) bool {
	d, ok := v.(types.Bytes)
	return ok && string(d) == string(want)
}

// zzIsStrings reports whether v is the list of the given strings.
func zzIsStrings(v ref.Val, want []string) bool {
	l, ok := v.(traits.Lister)
	if !ok || !zzIsInt(l.Size(), int64(len(want))) {
		return false
	}
	return zzvrt.Forall(0, len(want), func(i int) bool { return zzIsString(l.Get(types.Int(i)), want[i]) })
}

// zzErrOr reports whether v is an error exactly when err is one, and satisfies
// ok when there is none.
func zzErrOr(v ref.Val, err error, ok bool) bool {
	_, isErr := v.(*types.Err)
	if err != nil {
		return isErr
	}
	return !isErr && ok
}

// zzText is a string that is interesting for the functions under contract.
func zzText(name string) string {
	if !zzvrt.Native() {
		return zzvrt.String(name)
	}
	pool := []string{"", "a", "A", "ab", "aba", "abab", " a b ", "é", "世界", "x,y,z", ",", "-12", "99", "0x1F", "1e3", "true", "nan", "\n", "\"q\"", "'", "\xff", "\x00", "ÀÉ", "ß", "ǆ", "\u00a0x", "hello World", "3.5", "1+2i", "\\u00e9b", "`a`", "\"a\"b", "f", "g", "9223372036854775808"}
	k := zzvrt.Choice(name+" pool", len(pool)+6)
	if k < len(pool) {
		return pool[k]
	}
	if k < len(pool)+3 {
		return pool[zzvrt.Choice(name+" 1", len(pool))] + pool[zzvrt.Choice(name+" 2", len(pool))]
	}
	return zzvrt.String(name)
}

func zzIsString(v ref.Val, want string) bool {
	d, ok := v.(types.String)
	return ok && string(d) == want
}

// zzRefList is a list of CEL values.
type zzRefList struct{ vs []ref.Val }

func (l *zzRefList) ConvertToNative(t reflect.Type) (any, error) { return nil, nil }
func (l *zzRefList) ConvertToType(t ref.Type) ref.Val            { return l }
func (l *zzRefList) Equal(o ref.Val) ref.Val                     { return types.False }
func (l *zzRefList) Type() ref.Type                              { return types.ListType }
func (l *zzRefList) Value() any                                  { return l.vs }
func (l *zzRefList) Add(o ref.Val) ref.Val                       { return l }
func (l *zzRefList) Contains(o ref.Val) ref.Val                  { return types.False }
func (l *zzRefList) Get(i ref.Val) ref.Val {
	return l.vs[i.(types.Int)]
}
func (l *zzRefList) Iterator() traits.Iterator { return &zzIter{l: l} }
func (l *zzRefList) Size() ref.Val             { return types.Int(len(l.vs)) }

// zzIter goes through the elements of a list.
type zzIter struct {
	l *zzRefList
	i int
}

func (x *zzIter) ConvertToNative(t reflect.Type) (any, error) { return nil, nil }
func (x *zzIter) ConvertToType(t ref.Type) ref.Val            { return x }
func (x *zzIter) Equal(o ref.Val) ref.Val                     { return types.False }
func (x *zzIter) Type() ref.Type                              { return types.IteratorType }
func (x *zzIter) Value() any                                  { return nil }
func (x *zzIter) HasNext() ref.Val                            { return types.Bool(x.i < len(x.l.vs)) }
func (x *zzIter) Next() ref.Val {
	v := x.l.vs[x.i]
	x.i++
	return v
}

// zzObj is a message as a CEL value.
type zzObj struct {
	name string
	v    any
}

func (o *zzObj) ConvertToNative(t reflect.Type) (any, error) { return o.v, nil }
func (o *zzObj) ConvertToType(t ref.Type) ref.Val            { return o }
func (o *zzObj) Equal(x ref.Val) ref.Val                     { return types.False }
func (o *zzObj) Type() ref.Type                              { return types.NewObjectType(o.name) }
func (o *zzObj) Value() any                                  { return o.v }

// zzAdapter turns messages into zzObj.
type zzAdapter struct{}

func (zzAdapter) NativeToValue(v any) ref.Val { return &zzObj{v: v} }
