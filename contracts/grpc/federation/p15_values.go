package federation

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	celplugin "github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
	"github.com/mercari/grpc-federation/zzvrt"
)

func zzSent(res *celplugin.CELPluginResponse, err error) *celplugin.CELPluginValue {
	zzvrt.Ensures("a value can be sent", err == nil && res != nil && res.Error == "")
	return res.Value
}

//verif:property P15
//verif:title a text, bytes, truth value or number is sent under its kind and received unchanged
func contract_plugin_scalars() {
	switch zzvrt.Choice("kind", 7) {
	case 0:
		v := zzvrt.String("s")
		x := zzSent(ToStringCELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_String_)
		zzvrt.Ensures("a text is sent as a text", ok && k.String_ == v)
		r, err := ToString(x)
		zzvrt.Ensures("and received as it was", err == nil && r == v)
	case 1:
		v := zzvrt.Bytes("bs")
		x := zzSent(ToBytesCELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_Bytes)
		zzvrt.Ensures("bytes are sent as bytes", ok && string(k.Bytes) == string(v))
		r, err := ToBytes(x)
		zzvrt.Ensures("and received as they were", err == nil && string(r) == string(v))
	case 2:
		v := zzvrt.Bool("b")
		x := zzSent(ToBoolCELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_Bool)
		zzvrt.Ensures("a truth value is sent as one", ok && k.Bool == v)
		r, err := ToBool(x)
		zzvrt.Ensures("and received as it was", err == nil && r == v)
	case 3:
		v := zzvrt.Int64("i64")
		x := zzSent(ToInt64CELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_Int64)
		zzvrt.Ensures("an integer is sent as an integer", ok && k.Int64 == v)
		r, err := ToInt64(x)
		zzvrt.Ensures("and received as it was", err == nil && r == v)
	case 4:
		v := zzvrt.Uint64("u64")
		x := zzSent(ToUint64CELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_Uint64)
		zzvrt.Ensures("an unsigned integer is sent as one", ok && k.Uint64 == v)
		r, err := ToUint64(x)
		zzvrt.Ensures("and received as it was", err == nil && r == v)
	case 5:
		v := zzvrt.Float64("f")
		x := zzSent(ToFloat64CELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_Double)
		zzvrt.Ensures("a floating-point number is sent as one", ok && zzvrt.SameF(k.Double, v))
		r, err := ToFloat64(x)
		zzvrt.Ensures("and received as it was", err == nil && zzvrt.SameF(r, v))
	case 6:
		e := zzvrt.Err("failure")
		res := ToErrorCELPluginResponse(e)
		zzvrt.Ensures("an error is sent as its text, without a value", res.Error == e.Error() && res.Value == nil)
	}
}

type zzEnum int32

//verif:property P15
//verif:title a 32-bit integer, enum or number is sent under its kind and received unchanged; one out of range is an error
func contract_plugin_narrow() {
	switch zzvrt.Choice("kind", 5) {
	case 0:
		v := zzvrt.Int32("i32")
		x := zzSent(ToInt32CELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_Int64)
		zzvrt.Ensures("an integer is sent as an integer", ok && k.Int64 == int64(v))
	case 1:
		v := zzvrt.Uint32("u32")
		x := zzSent(ToUint32CELPluginResponse(v))
		k, ok := x.Value.(*celplugin.CELPluginValue_Uint64)
		zzvrt.Ensures("an unsigned integer is sent as one", ok && k.Uint64 == uint64(v))
	case 2:
		v := zzvrt.Int64("i64")
		x := &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Int64{Int64: v}}
		fits := math.MinInt32 <= v && v <= math.MaxInt32
		r, err := ToInt32(x)
		zzvrt.Ensures("an integer is received as it was, or reported", (err == nil) == fits && zzvrt.Implies(fits, int64(r) == v))
		e, err := ToEnum[zzEnum](x)
		zzvrt.Ensures("an enum is received as it was, or reported", (err == nil) == fits && zzvrt.Implies(fits, int64(e) == v))
	case 3:
		v := zzvrt.Uint64("u64")
		x := &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Uint64{Uint64: v}}
		fits := v <= math.MaxUint32
		r, err := ToUint32(x)
		zzvrt.Ensures("an unsigned integer is received as it was, or reported", (err == nil) == fits && zzvrt.Implies(fits, uint64(r) == v))
	case 4:
		v := zzvrt.Float64("f")
		x := zzSent(ToFloat32CELPluginResponse(float32(v)))
		k, ok := x.Value.(*celplugin.CELPluginValue_Double)
		zzvrt.Ensures("a floating-point number is sent as one", ok && zzvrt.SameF(k.Double, float64(float32(v))))
		r, err := ToFloat32(x)
		zzvrt.Ensures("and received as it was", err == nil && zzvrt.SameF(float64(r), float64(float32(v))))
	}
}

func zzSentList(res *celplugin.CELPluginResponse, err error, n int) []*celplugin.CELPluginValue {
	zzvrt.Ensures("a list can be sent", err == nil && res != nil && res.Error == "")
	l, ok := res.Value.Value.(*celplugin.CELPluginValue_List)
	zzvrt.Ensures("as a list of as many values", ok && l.List != nil && len(l.List.Values) == n)
	return l.List.Values
}

//verif:property P15
//verif:title a list of any length is sent as a list and received unchanged: texts and bytes
func contract_plugin_list_texts() {
	n := zzvrt.Size("n")
	if zzvrt.Bool("bytes") {
		var v [][]byte
		for i := 0; i < n; i++ {
			v = append(v, []byte(zzvrt.String("bs", i)))
		}
		res, err := ToBytesListCELPluginResponse(v)
		l := zzSentList(res, err, n)
		zzvrt.Ensures("each as bytes", zzvrt.Forall(0, n, func(i int) bool {
			k, ok := l[i].Value.(*celplugin.CELPluginValue_Bytes)
			return ok && string(k.Bytes) == string(v[i])
		}))
		r, err := ToBytesList(res.Value)
		zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return string(r[i]) == string(v[i]) }))
		return
	}
	var v []string
	for i := 0; i < n; i++ {
		v = append(v, zzvrt.String("s", i))
	}
	res, err := ToStringListCELPluginResponse(v)
	l := zzSentList(res, err, n)
	zzvrt.Ensures("each as a text", zzvrt.Forall(0, n, func(i int) bool {
		k, ok := l[i].Value.(*celplugin.CELPluginValue_String_)
		return ok && k.String_ == v[i]
	}))
	r, err := ToStringList(res.Value)
	zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return r[i] == v[i] }))
}

//verif:property P15
//verif:title a list of any length is sent as a list and received unchanged: integers
func contract_plugin_list_ints() {
	n := zzvrt.Size("n")
	switch zzvrt.Choice("kind", 3) {
	case 0:
		var v []int64
		for i := 0; i < n; i++ {
			v = append(v, zzvrt.Int64("i64", i))
		}
		res, err := ToInt64ListCELPluginResponse(v)
		l := zzSentList(res, err, n)
		zzvrt.Ensures("each as an integer", zzvrt.Forall(0, n, func(i int) bool {
			k, ok := l[i].Value.(*celplugin.CELPluginValue_Int64)
			return ok && k.Int64 == v[i]
		}))
		r, err := ToInt64List(res.Value)
		zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return r[i] == v[i] }))
	case 1:
		var v []int32
		for i := 0; i < n; i++ {
			v = append(v, zzvrt.Int32("i32", i))
		}
		res, err := ToInt32ListCELPluginResponse(v)
		l := zzSentList(res, err, n)
		zzvrt.Ensures("each as an integer", zzvrt.Forall(0, n, func(i int) bool {
			k, ok := l[i].Value.(*celplugin.CELPluginValue_Int64)
			return ok && k.Int64 == int64(v[i])
		}))
		r, err := ToInt32List(res.Value)
		zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return r[i] == v[i] }))
	case 2:
		var v []bool
		for i := 0; i < n; i++ {
			v = append(v, zzvrt.Bool("b", i))
		}
		res, err := ToBoolListCELPluginResponse(v)
		l := zzSentList(res, err, n)
		zzvrt.Ensures("each as a truth value", zzvrt.Forall(0, n, func(i int) bool {
			k, ok := l[i].Value.(*celplugin.CELPluginValue_Bool)
			return ok && k.Bool == v[i]
		}))
		r, err := ToBoolList(res.Value)
		zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return r[i] == v[i] }))
	}
}

//verif:property P15
//verif:title a list of any length is sent as a list and received unchanged: unsigned integers
func contract_plugin_list_uints() {
	n := zzvrt.Size("n")
	if zzvrt.Bool("narrow") {
		var v []uint32
		for i := 0; i < n; i++ {
			v = append(v, zzvrt.Uint32("u32", i))
		}
		res, err := ToUint32ListCELPluginResponse(v)
		l := zzSentList(res, err, n)
		zzvrt.Ensures("each as an unsigned integer", zzvrt.Forall(0, n, func(i int) bool {
			k, ok := l[i].Value.(*celplugin.CELPluginValue_Uint64)
			return ok && k.Uint64 == uint64(v[i])
		}))
		r, err := ToUint32List(res.Value)
		zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return r[i] == v[i] }))
		return
	}
	var v []uint64
	for i := 0; i < n; i++ {
		v = append(v, zzvrt.Uint64("u64", i))
	}
	res, err := ToUint64ListCELPluginResponse(v)
	l := zzSentList(res, err, n)
	zzvrt.Ensures("each as an unsigned integer", zzvrt.Forall(0, n, func(i int) bool {
		k, ok := l[i].Value.(*celplugin.CELPluginValue_Uint64)
		return ok && k.Uint64 == v[i]
	}))
	r, err := ToUint64List(res.Value)
	zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return r[i] == v[i] }))
}

//verif:property P15
//verif:title a list of any length is sent as a list and received unchanged: floating-point numbers
func contract_plugin_list_floats() {
	n := zzvrt.Size("n")
	if zzvrt.Bool("narrow") {
		var v []float32
		for i := 0; i < n; i++ {
			v = append(v, float32(zzvrt.Float64("f32", i)))
		}
		res, err := ToFloat32ListCELPluginResponse(v)
		l := zzSentList(res, err, n)
		zzvrt.Ensures("each as a floating-point number", zzvrt.Forall(0, n, func(i int) bool {
			k, ok := l[i].Value.(*celplugin.CELPluginValue_Double)
			return ok && zzvrt.SameF(k.Double, float64(v[i]))
		}))
		r, err := ToFloat32List(res.Value)
		zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return zzvrt.SameF(float64(r[i]), float64(v[i])) }))
		return
	}
	var v []float64
	for i := 0; i < n; i++ {
		v = append(v, zzvrt.Float64("f", i))
	}
	res, err := ToFloat64ListCELPluginResponse(v)
	l := zzSentList(res, err, n)
	zzvrt.Ensures("each as a floating-point number", zzvrt.Forall(0, n, func(i int) bool {
		k, ok := l[i].Value.(*celplugin.CELPluginValue_Double)
		return ok && zzvrt.SameF(k.Double, v[i])
	}))
	r, err := ToFloat64List(res.Value)
	zzvrt.Ensures("the list is received as it was", err == nil && len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return zzvrt.SameF(r[i], v[i]) }))
}

//verif:property P15
//verif:title a list with an integer out of the range of its kind is reported, any other is received unchanged
func contract_plugin_list_range() {
	n := zzvrt.Size("n")
	x := &celplugin.CELPluginListValue{}
	if zzvrt.Bool("signed") {
		for i := 0; i < n; i++ {
			x.Values = append(x.Values, &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Int64{Int64: zzvrt.Int64("i64", i)}})
		}
		fits := zzvrt.Forall(0, n, func(i int) bool {
			return math.MinInt32 <= zzvrt.Int64("i64", i) && zzvrt.Int64("i64", i) <= math.MaxInt32
		})
		l := &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_List{List: x}}
		if zzvrt.Bool("enum") {
			r, err := ToEnumList[zzEnum](l)
			zzvrt.Ensures("enums out of range are reported", (err == nil) == fits)
			zzvrt.Ensures("enums are received as they were", zzvrt.Implies(err == nil, len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return int64(r[i]) == zzvrt.Int64("i64", i) })))
			return
		}
		r, err := ToInt32List(l)
		zzvrt.Ensures("integers out of range are reported", (err == nil) == fits)
		zzvrt.Ensures("integers are received as they were", zzvrt.Implies(err == nil, len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return int64(r[i]) == zzvrt.Int64("i64", i) })))
		return
	}
	for i := 0; i < n; i++ {
		x.Values = append(x.Values, &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Uint64{Uint64: zzvrt.Uint64("u64", i)}})
	}
	fits := zzvrt.Forall(0, n, func(i int) bool { return zzvrt.Uint64("u64", i) <= math.MaxUint32 })
	r, err := ToUint32List(&celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_List{List: x}})
	zzvrt.Ensures("integers out of range are reported", (err == nil) == fits)
	zzvrt.Ensures("integers are received as they were", zzvrt.Implies(err == nil, len(r) == n && zzvrt.Forall(0, n, func(i int) bool { return r[i] == uint32(zzvrt.Uint64("u64", i)) })))
}

//verif:property P15
//verif:title a message is sent packed and received unpacked, each of a list in its place; a failure is reported
func contract_plugin_messages() {
	if zzvrt.Native() {
		return
	}
	v := zzvrt.Obj[celplugin.CELPluginGRPCMetadata]("v")
	packed, packErr := anypb.New(v)
	res, err := ToMessageCELPluginResponse(v)
	zzvrt.Ensures("what cannot be packed is reported", (err != nil) == (packErr != nil))
	if err != nil {
		return
	}
	m, ok := res.Value.Value.(*celplugin.CELPluginValue_Message)
	zzvrt.Ensures("a message is sent packed", ok && m.Message == packed && res.Error == "")
	n := zzvrt.Size("n")
	var vs []*celplugin.CELPluginGRPCMetadata
	for i := 0; i < n; i++ {
		vs = append(vs, zzvrt.Obj[celplugin.CELPluginGRPCMetadata]("v", i))
	}
	ress, err := ToMessageListCELPluginResponse(vs)
	fits := zzvrt.Forall(0, n, func(i int) bool {
		_, err := anypb.New(vs[i])
		return err == nil
	})
	zzvrt.Ensures("a message of a list that cannot be packed is reported", (err == nil) == fits)
	if err != nil {
		return
	}
	l, ok := ress.Value.Value.(*celplugin.CELPluginValue_List)
	zzvrt.Ensures("messages are sent as a list", ok && len(l.List.Values) == n && ress.Error == "")
	zzvrt.Ensures("each packed", zzvrt.Forall(0, n, func(i int) bool {
		m, ok := l.List.Values[i].Value.(*celplugin.CELPluginValue_Message)
		a, _ := anypb.New(vs[i])
		return ok && m.Message == a
	}))
}

//verif:property P15
//verif:title messages sent are received as they were
//verif:bounded 500 messages and lists of up to 5
//verif:native 500
func contract_plugin_messages_there_and_back() {
	if !zzvrt.Native() {
		return
	}
	v := &celplugin.CELPluginGRPCMetadata{Key: zzvrt.String("key"), Values: []string{zzvrt.String("value")}}
	res, err := ToMessageCELPluginResponse(v)
	zzvrt.Ensures("a message can be sent, unless one of its texts is none", err == nil || !utf8.ValidString(v.Key+v.Values[0]))
	if err == nil {
		r, err := ToMessage[*celplugin.CELPluginGRPCMetadata](res.Value)
		zzvrt.Ensures("and is received as it was", err == nil && proto.Equal(r, v))
	}
	n := zzvrt.Choice("n", 6)
	var vs []*wrapperspb.Int64Value
	for i := 0; i < n; i++ {
		vs = append(vs, wrapperspb.Int64(zzvrt.Int64("v", i)))
	}
	res, err = ToMessageListCELPluginResponse(vs)
	zzvrt.Ensures("messages can be sent", err == nil)
	rs, err := ToMessageList[*wrapperspb.Int64Value](res.Value)
	zzvrt.Ensures("all of them are received", err == nil && len(rs) == n)
	for i := range rs {
		zzvrt.Ensures("each as it was", proto.Equal(rs[i], vs[i]))
	}
	bad := &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Message{Message: &anypb.Any{TypeUrl: "type.googleapis.com/zz.Unknown"}}}
	_, err = ToMessage[*wrapperspb.Int64Value](bad)
	zzvrt.Ensures("a message of an unknown type is reported", err != nil)
	_, err = ToMessageList[*wrapperspb.Int64Value](&celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_List{List: &celplugin.CELPluginListValue{Values: append(res.Value.GetList().GetValues(), bad)}}})
	zzvrt.Ensures("also in a list", err != nil)
}

func zzWireValue(name string, depth int) *celplugin.CELPluginValue {
	kinds := 8
	if depth == 0 {
		kinds = 7
	}
	switch zzvrt.Choice(name+" kind", kinds) {
	case 0:
		return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Int64{Int64: zzvrt.Int64(name + " i")}}
	case 1:
		return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Uint64{Uint64: zzvrt.Uint64(name + " u")}}
	case 2:
		return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Double{Double: zzvrt.Float64(name + " f")}}
	case 3:
		return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_String_{String_: strings.ToValidUTF8(zzvrt.String(name+" s"), "?") + "\n\u2028"}}
	case 4:
		return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Bool{Bool: zzvrt.Bool(name + " b")}}
	case 5:
		return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Bytes{Bytes: zzvrt.Bytes(name + " bytes")}}
	case 6:
		a, err := anypb.New(wrapperspb.Int64(zzvrt.Int64(name + " m")))
		if err != nil {
			panic(err)
		}
		return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_Message{Message: a}}
	}
	l := &celplugin.CELPluginListValue{}
	for i, n := 0, zzvrt.Choice(name+" n", 4); i < n; i++ {
		l.Values = append(l.Values, zzWireValue(fmt.Sprintf("%s/%d", name, i), depth-1))
	}
	return &celplugin.CELPluginValue{Value: &celplugin.CELPluginValue_List{List: l}}
}

//verif:property P15
//verif:title a request or response is one line and is decoded to what was encoded
//verif:bounded 2000 requests and responses with values nested up to 2 deep
//verif:native 2000
func contract_plugin_wire() {
	if !zzvrt.Native() {
		return
	}
	res := &celplugin.CELPluginResponse{Value: zzWireValue("v", 2)}
	if zzvrt.Bool("failed") {
		res = &celplugin.CELPluginResponse{Error: strings.ToValidUTF8(zzvrt.String("error"), "?") + "\nx"}
	}
	b, err := EncodeCELPluginResponse(res)
	zzvrt.Ensures("a response can be encoded, in one line", err == nil && !bytes.ContainsAny(b, "\r\n"))
	var got celplugin.CELPluginResponse
	zzvrt.Ensures("and decoded as it was", protojson.Unmarshal(b, &got) == nil && proto.Equal(&got, res))
	req := &celplugin.CELPluginRequest{Method: "m", Args: []*celplugin.CELPluginValue{zzWireValue("a", 1), zzWireValue("b", 1)}}
	req.Metadata = append(req.Metadata, &celplugin.CELPluginGRPCMetadata{Key: "k", Values: []string{strings.ToValidUTF8(zzvrt.String("md"), "?")}})
	b, err = protojson.Marshal(req)
	if err != nil {
		panic(err)
	}
	r, err := DecodeCELPluginRequest(b)
	zzvrt.Ensures("a request is decoded as it was", err == nil && proto.Equal(r, req))
	_, err = DecodeCELPluginRequest(b[:len(b)-1])
	zzvrt.Ensures("an incomplete request is reported", err != nil)
	ver := CELPluginVersionSchema{ProtocolVersion: int(zzvrt.Int32("version")), FederationVersion: "v", Functions: []string{"f", "g"}}
	b, err = EncodeCELPluginVersion(ver)
	var back CELPluginVersionSchema
	zzvrt.Ensures("the version is one line and decoded as it was", err == nil && !bytes.ContainsAny(b, "\r\n") && json.Unmarshal(b, &back) == nil && reflect.DeepEqual(ver, back))
}
