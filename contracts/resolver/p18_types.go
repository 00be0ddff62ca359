package resolver

import (
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/mercari/grpc-federation/types"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzKind is any protobuf kind.
func zzKind(name string) types.Kind {
	if zzvrt.Native() {
		return types.Kind(zzvrt.Choice(name, 18) + 1)
	}
	k := zzvrt.Int(name)
	zzvrt.Requires(1 <= k && k <= 18)
	return types.Kind(k)
}

// zzFewKinds is one of five scalar kinds.
func zzFewKinds(name string) types.Kind {
	switch zzvrt.Choice(name, 5) {
	case 0:
		return types.Int32
	case 1:
		return types.Int64
	case 2:
		return types.String
	case 3:
		return types.Bool
	default:
		return types.Bytes
	}
}

func zzKindIs(k types.Kind, t descriptorpb.FieldDescriptorProto_Type) bool { return int(k) == int(t) }

func zzNumeric(k types.Kind) bool {
	return !zzKindIs(k, descriptorpb.FieldDescriptorProto_TYPE_BOOL) &&
		!zzKindIs(k, descriptorpb.FieldDescriptorProto_TYPE_STRING) &&
		!zzKindIs(k, descriptorpb.FieldDescriptorProto_TYPE_GROUP) &&
		!zzKindIs(k, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE) &&
		!zzKindIs(k, descriptorpb.FieldDescriptorProto_TYPE_BYTES) &&
		!zzKindIs(k, descriptorpb.FieldDescriptorProto_TYPE_ENUM)
}

//verif:property P18
//verif:title which types may be bound to which
func contract_is_different_type() {
	from := &Type{Kind: zzKind("from"), Repeated: zzvrt.Bool("from repeated")}
	to := &Type{Kind: zzKind("to"), Repeated: zzvrt.Bool("to repeated")}
	if zzvrt.Bool("null") {
		from = &Type{IsNull: true}
		zzvrt.Ensures("null may be bound to a list, a message or bytes, and to nothing else",
			isDifferentType(from, to) == !(to.Repeated || zzKindIs(to.Kind, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE) || zzKindIs(to.Kind, descriptorpb.FieldDescriptorProto_TYPE_BYTES)))
		return
	}
	fe := zzKindIs(from.Kind, descriptorpb.FieldDescriptorProto_TYPE_ENUM)
	ok := from.Repeated == to.Repeated &&
		(from.Kind == to.Kind || zzNumeric(from.Kind) && zzNumeric(to.Kind) || fe && zzNumeric(to.Kind))
	zzvrt.Ensures("compatible exactly when the repetition and the kind are", isDifferentType(from, to) == !ok)
	zzvrt.Ensures("an unknown type is reported elsewhere", !isDifferentType(nil, to) && !isDifferentType(from, nil))
}

//verif:property P18
//verif:title types are the same only with the same kind and repetition
func contract_is_exactly_same_type() {
	l := &Type{Kind: zzKind("left"), Repeated: zzvrt.Bool("left repeated")}
	r := &Type{Kind: zzKind("right"), Repeated: zzvrt.Bool("right repeated")}
	same := l.Kind == r.Kind && l.Repeated == r.Repeated
	zzvrt.Ensures("kind and repetition decide", isExactlySameType(l, r) == same)
	zzvrt.Ensures("an unknown type is like no other", !isExactlySameType(nil, r) && !isExactlySameType(l, nil))
}

func zzFieldsOf(name string) ([]*Field, []*Type) {
	n := 2
	ts := make([]*Type, n)
	fs := make([]*Field, n)
	for i := 0; i < n; i++ {
		ts[i] = &Type{Kind: zzKind(name + []string{" 1", " 2"}[i]), Repeated: zzvrt.Bool(name+" repeated", i)}
		fs[i] = &Field{Name: []string{"a", "b"}[i], Type: ts[i]}
	}
	return fs, ts
}

//verif:property P18
//verif:title messages are the same only when their fields are, in whichever order
func contract_is_exactly_same_message() {
	lf, lt := zzFieldsOf("left")
	rf, rt := zzFieldsOf("right")
	if zzvrt.Bool("other order") {
		rf = []*Field{rf[1], rf[0]}
	}
	extra := zzvrt.Bool("one more field")
	if extra {
		rf = append(rf, &Field{Name: "c", Type: Int64Type})
	}
	renamed := zzvrt.Bool("another name")
	if renamed {
		rf[0].Name = "z"
	}
	l := &Type{Kind: types.Message, Message: &Message{Name: "L", Fields: lf}}
	r := &Type{Kind: types.Message, Message: &Message{Name: "R", Fields: rf}}
	eq := func(a, b *Type) bool { return a.Kind == b.Kind && a.Repeated == b.Repeated }
	want := !extra && !renamed && eq(lt[0], rt[0]) && eq(lt[1], rt[1])
	zzvrt.Ensures("every field decides", isExactlySameType(l, r) == want)
	zzvrt.Ensures("in both directions", isExactlySameType(r, l) == want)
	zzvrt.Ensures("a message is not a value without fields", !isExactlySameType(l, &Type{Kind: types.Message}))
}

//verif:property P18
//verif:title no conversion between identical types, one between any other two
func contract_required_type_conversion() {
	e1, e2 := &Enum{Name: "E1"}, &Enum{Name: "E2"}
	m1, m2 := &Message{Name: "M1"}, &Message{Name: "M2"}
	pick := func(name string) *Type {
		t := &Type{Kind: zzKind(name), Repeated: zzvrt.Bool("repeated")}
		switch {
		case t.Kind == types.Enum:
			t.Enum = e1
			if zzvrt.Bool(name + " second enum") {
				t.Enum = e2
			}
		case t.Kind == types.Message:
			t.Message = m1
			if zzvrt.Bool(name + " second message") {
				t.Message = m2
			}
		}
		return t
	}
	from, to := pick("from"), pick("to")
	same := from.Kind == to.Kind && from.Enum == to.Enum && from.Message == to.Message
	zzvrt.Ensures("required exactly when the types differ", requiredTypeConversion(from, to) == !same)
	k1, k2 := &Type{Kind: zzKind("key 1")}, &Type{Kind: zzKind("key 2")}
	zzvrt.Requires(!zzKindIs(k1.Kind, 11) && !zzKindIs(k2.Kind, 11) && !zzKindIs(k1.Kind, 14) && !zzKindIs(k2.Kind, 14))
	zzvrt.Ensures("a map requires one exactly when its keys or its values do",
		requiredTypeConversion(NewMapType(k1, from), NewMapType(k2, to)) == (k1.Kind != k2.Kind || !same))
	zzvrt.Ensures("an unknown type requires none", !requiredTypeConversion(nil, to) && !requiredTypeConversion(from, nil))
}

func zzDeclares(ds []*TypeConversionDecl, from, to *Type) bool {
	for i := 0; i < len(ds); i++ {
		f, t := ds[i].From, ds[i].To
		if f.Kind == from.Kind && t.Kind == to.Kind && f.Repeated == from.Repeated && t.Repeated == to.Repeated &&
			f.Message == from.Message && t.Message == to.Message && f.Enum == from.Enum && t.Enum == to.Enum &&
			f.OneofField == from.OneofField && t.OneofField == to.OneofField {
			return true
		}
	}
	return false
}

//verif:property P18
//verif:title the conversions declared for two fields of scalar, enum or list type
func contract_decls_scalar() {
	f := &File{Package: &Package{Name: "p"}}
	e1, e2 := &Enum{Name: "E1", File: f}, &Enum{Name: "E2", File: f}
	pick := func(name string) *Type {
		t := &Type{Kind: zzKind(name), Repeated: zzvrt.Bool("repeated")}
		zzvrt.Requires(t.Kind != types.Message && t.Kind != types.Group)
		if t.Kind == types.Enum {
			t.Enum = e1
			if zzvrt.Bool(name + " second enum") {
				t.Enum = e2
			}
		}
		return t
	}
	from, to := pick("from"), pick("to")
	ds := typeConversionDecls(from, to, map[string]struct{}{})
	if from.Kind == to.Kind && from.Enum == to.Enum {
		zzvrt.Ensures("none for identical types", len(ds) == 0)
		return
	}
	zzvrt.Ensures("the pair is declared", zzDeclares(ds, from, to))
	n := 1
	if from.Repeated {
		n = 2
		ef, et := from.Clone(), to.Clone()
		ef.Repeated, et.Repeated = false, false
		zzvrt.Ensures("the pair of the elements of a list is declared", zzDeclares(ds, ef, et))
	}
	zzvrt.Ensures("nothing else is declared", len(ds) == n)
	zzvrt.Ensures("none from or to null", len(typeConversionDecls(&Type{IsNull: true}, to, map[string]struct{}{})) == 0)
}

//verif:property P18
//verif:title the conversions declared for two maps
func contract_decls_map() {
	k1, k2 := &Type{Kind: zzFewKinds("key 1")}, &Type{Kind: zzFewKinds("key 2")}
	v1, v2 := &Type{Kind: zzFewKinds("value 1")}, &Type{Kind: zzFewKinds("value 2")}
	from, to := NewMapType(k1, v1), NewMapType(k2, v2)
	ds := typeConversionDecls(from, to, map[string]struct{}{})
	kd, vd := k1.Kind != k2.Kind, v1.Kind != v2.Kind
	if !kd && !vd {
		zzvrt.Ensures("none for identical maps", len(ds) == 0)
		return
	}
	zzvrt.Ensures("the maps are declared", zzDeclares(ds, from, to))
	zzvrt.Ensures("the keys are declared when they differ", zzDeclares(ds, k1, k2) == (kd || vd && zzPair(k1, k2, v1, v2)))
	zzvrt.Ensures("the values are declared when they differ", zzDeclares(ds, v1, v2) == (vd || kd && zzPair(k1, k2, v1, v2)))
}

func zzPair(k1, k2, v1, v2 *Type) bool { return k1.Kind == v1.Kind && k2.Kind == v2.Kind }
