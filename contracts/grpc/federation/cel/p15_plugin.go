package cel

import (
	"errors"
	"reflect"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:property P15
//verif:title an argument is sent to the plugin under the kind its function declares, as it is
func contract_send_scalar() {
	i := &CELPluginInstance{}
	switch zzvrt.Choice("kind", 6) {
	case 0:
		v := zzvrt.Bool("b")
		x, err := i.refToCELPluginValue(cel.BoolType, types.Bool(v))
		zzvrt.Ensures("a truth value can be sent", err == nil && x != nil)
		k, ok := x.Value.(*plugin.CELPluginValue_Bool)
		zzvrt.Ensures("as one", ok && k.Bool == v)
	case 1:
		v := zzvrt.Float64("f")
		x, err := i.refToCELPluginValue(cel.DoubleType, types.Double(v))
		zzvrt.Ensures("a floating-point number can be sent", err == nil && x != nil)
		k, ok := x.Value.(*plugin.CELPluginValue_Double)
		zzvrt.Ensures("as one", ok && zzvrt.SameF(k.Double, v))
	case 2:
		v := zzvrt.Int64("i")
		x, err := i.refToCELPluginValue(cel.IntType, types.Int(v))
		zzvrt.Ensures("an integer or enum can be sent", err == nil && x != nil)
		k, ok := x.Value.(*plugin.CELPluginValue_Int64)
		zzvrt.Ensures("as one", ok && k.Int64 == v)
	case 3:
		v := zzvrt.Uint64("u")
		x, err := i.refToCELPluginValue(cel.UintType, types.Uint(v))
		zzvrt.Ensures("an unsigned integer can be sent", err == nil && x != nil)
		k, ok := x.Value.(*plugin.CELPluginValue_Uint64)
		zzvrt.Ensures("as one", ok && k.Uint64 == v)
	case 4:
		v := zzvrt.Bytes("bytes")
		x, err := i.refToCELPluginValue(cel.BytesType, types.Bytes(v))
		zzvrt.Ensures("bytes can be sent", err == nil && x != nil)
		k, ok := x.Value.(*plugin.CELPluginValue_Bytes)
		zzvrt.Ensures("as bytes", ok && string(k.Bytes) == string(v))
	case 5:
		v := zzvrt.String("s")
		x, err := i.refToCELPluginValue(cel.StringType, types.String(v))
		zzvrt.Ensures("a text can be sent", err == nil && x != nil)
		k, ok := x.Value.(*plugin.CELPluginValue_String_)
		zzvrt.Ensures("as a text", ok && k.String_ == v)
	}
}

//verif:property P15
//verif:title a result is received from the plugin under the kind its function declares, as it is
func contract_receive_scalar() {
	i := &CELPluginInstance{}
	fn := &CELFunction{Name: "f"}
	switch zzvrt.Choice("kind", 7) {
	case 0:
		v := zzvrt.Bool("b")
		zzvrt.Ensures("a truth value is received", zzIsBool(i.celPluginValueToRef(fn, cel.BoolType, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_Bool{Bool: v}}), v))
	case 1:
		v := zzvrt.Float64("f")
		zzvrt.Ensures("a floating-point number is received", zzIsDouble(i.celPluginValueToRef(fn, cel.DoubleType, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_Double{Double: v}}), v))
	case 2:
		v := zzvrt.Int64("i")
		zzvrt.Ensures("an integer or enum is received", zzIsInt(i.celPluginValueToRef(fn, cel.IntType, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_Int64{Int64: v}}), v))
	case 3:
		v := zzvrt.Uint64("u")
		zzvrt.Ensures("an unsigned integer is received", zzIsUint(i.celPluginValueToRef(fn, cel.UintType, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_Uint64{Uint64: v}}), v))
	case 4:
		v := zzvrt.Bytes("bytes")
		zzvrt.Ensures("bytes are received", zzIsBytes(i.celPluginValueToRef(fn, cel.BytesType, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_Bytes{Bytes: v}}), v))
	case 5:
		v := zzvrt.String("s")
		zzvrt.Ensures("a text is received", zzIsString(i.celPluginValueToRef(fn, cel.StringType, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_String_{String_: v}}), v))
	case 6:
		r := i.celPluginValueToRef(fn, cel.DurationType, &plugin.CELPluginValue{})
		zzvrt.Ensures("a result of a kind that cannot be received is an error", types.IsError(r))
		_, err := i.refToCELPluginValue(cel.DurationType, types.Duration{})
		zzvrt.Ensures("and so is such an argument", err != nil)
	}
}

// zzSendElem is the contract of refToCELPluginValue for the elements of a list.
func zzSendElem(i *CELPluginInstance, typ *cel.Type, v ref.Val) (*plugin.CELPluginValue, error) {
	zzvrt.Ensures("an element is sent under the kind of the elements", typ == zzElemType)
	k, ok := v.(types.Int)
	zzvrt.Ensures("an element is what the list holds", ok)
	if zzvrt.Bool("bad", int(k)) {
		return nil, zzvrt.ErrE("cannot be sent", int(k))
	}
	return zzvrt.Obj[plugin.CELPluginValue]("sent", int(k)), nil
}

var zzElemType *cel.Type

//verif:property P15
//verif:title every element of a list of any length and depth is sent, in its place; an element that cannot be sent is reported
//verif:inductive (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).refToCELPluginValue zzSendElem
func contract_send_list() {
	if zzvrt.Native() {
		return
	}
	n := zzvrt.Size("n")
	l := &zzRefList{}
	for k := 0; k < n; k++ {
		l.vs = append(l.vs, types.Int(k))
	}
	i := &CELPluginInstance{}
	zzElemType = cel.ObjectType("zz.Element")
	x, err := i.refToCELPluginValue(cel.ListType(zzElemType), l)
	zzvrt.Ensures("a list is sent if every element is", (err == nil) == zzvrt.Forall(0, n, func(k int) bool { return !zzvrt.Bool("bad", k) }))
	if err != nil {
		return
	}
	k, ok := x.Value.(*plugin.CELPluginValue_List)
	zzvrt.Ensures("as a list of as many values", ok && k.List != nil && len(k.List.Values) == n)
	zzvrt.Ensures("each in its place", zzvrt.Forall(0, n, func(j int) bool { return k.List.Values[j] == zzvrt.Obj[plugin.CELPluginValue]("sent", j) }))
}

// zzRecvElem is the contract of celPluginValueToRef for the elements of a list.
func zzRecvElem(i *CELPluginInstance, fn *CELFunction, typ *cel.Type, v *plugin.CELPluginValue) ref.Val {
	zzvrt.Ensures("an element is received under the kind of the elements", typ == zzElemType)
	k := v.GetInt64()
	if zzvrt.Bool("bad", int(k)) {
		return types.NewErr("cannot be received")
	}
	return types.Int(k)
}

//verif:property P15
//verif:title every element of a list of any length and depth is received, in its place; an element that cannot be received makes the result an error
//verif:inductive (*github.com/mercari/grpc-federation/grpc/federation/cel.CELPluginInstance).celPluginValueToRef zzRecvElem
func contract_receive_list() {
	if zzvrt.Native() {
		return
	}
	n := zzvrt.Size("n")
	l := &plugin.CELPluginListValue{}
	for k := 0; k < n; k++ {
		l.Values = append(l.Values, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_Int64{Int64: int64(k)}})
	}
	i := &CELPluginInstance{celRegistry: zzvrt.Obj[types.Registry]("registry")}
	zzElemType = cel.ObjectType("zz.Element")
	r := i.celPluginValueToRef(&CELFunction{Name: "f"}, cel.ListType(zzElemType), &plugin.CELPluginValue{Value: &plugin.CELPluginValue_List{List: l}})
	good := zzvrt.Forall(0, n, func(k int) bool { return !zzvrt.Bool("bad", k) })
	if types.IsError(r) {
		zzvrt.Ensures("a list is an error only if an element is", !good)
		return
	}
	zzvrt.Ensures("a list with an element that is an error is an error", good)
	x, ok := r.(traits.Lister)
	zzvrt.Ensures("a list is received as a list of as many values", ok && x.Size() == types.Int(n))
	j := zzvrt.Int("j")
	zzvrt.Requires(0 <= j && j < n)
	zzvrt.Ensures("each in its place", zzIsInt(x.Get(types.Int(j)), int64(j)))
}

// zzMsg is a message as an expression sees it.
type zzMsg struct{ msg any }

func (m *zzMsg) ConvertToNative(reflect.Type) (any, error) { return nil, errors.New("none") }
func (m *zzMsg) ConvertToType(ref.Type) ref.Val            { return m }
func (m *zzMsg) Equal(ref.Val) ref.Val                     { return types.False }
func (m *zzMsg) Type() ref.Type                            { return types.TypeType }
func (m *zzMsg) Value() any                                { return m.msg }

func zzNative(r *types.Registry, v any) ref.Val {
	a, ok := v.(*anypb.Any)
	zzvrt.Ensures("the message received is unpacked by the registry of the plugin", r == zzvrt.Obj[types.Registry]("registry") && ok && a == zzvrt.Obj[anypb.Any]("received"))
	return types.String("unpacked")
}

//verif:property P15
//verif:title a message is sent packed and received unpacked
//verif:usemodel (*github.com/google/cel-go/common/types.Registry).NativeToValue zzNative
func contract_send_message() {
	if zzvrt.Native() {
		return
	}
	i := &CELPluginInstance{celRegistry: zzvrt.Obj[types.Registry]("registry")}
	typ := cel.ObjectType("zz.Message")
	v := zzvrt.Obj[plugin.CELPluginGRPCMetadata]("message")
	want, packErr := anypb.New(v)
	x, err := i.refToCELPluginValue(typ, &zzMsg{v})
	zzvrt.Ensures("what cannot be packed is reported", (err != nil) == (packErr != nil))
	if err == nil {
		k, ok := x.Value.(*plugin.CELPluginValue_Message)
		zzvrt.Ensures("a message is sent packed", ok && k.Message == want)
	}
	a := zzvrt.Obj[anypb.Any]("packed")
	x, err = i.refToCELPluginValue(typ, &zzMsg{a})
	zzvrt.Ensures("a message that is packed can be sent", err == nil)
	k, ok := x.Value.(*plugin.CELPluginValue_Message)
	zzvrt.Ensures("as it is", ok && k.Message == a)
	_, err = i.refToCELPluginValue(typ, &zzMsg{zzvrt.String("text")})
	zzvrt.Ensures("what is no message is reported", err != nil)
	r := i.celPluginValueToRef(&CELFunction{Name: "f"}, typ, &plugin.CELPluginValue{Value: &plugin.CELPluginValue_Message{Message: zzvrt.Obj[anypb.Any]("received")}})
	zzvrt.Ensures("a message received is unpacked", zzIsString(r, "unpacked"))
}
