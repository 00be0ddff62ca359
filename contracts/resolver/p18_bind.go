package resolver

import (
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/types"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzBindType is a type of any kind; messages and enums are taken from the given ones.
func zzBindType(name string, m1, m2 *Message, e1, e2 *Enum) *Type {
	t := &Type{Kind: zzKind(name), Repeated: zzvrt.Bool(name + " repeated")}
	zzvrt.Requires(t.Kind != types.Group)
	switch {
	case t.Kind == types.Enum:
		t.Enum = e1
		if zzvrt.Bool(name + " second") {
			t.Enum = e2
		}
	case t.Kind == types.Message:
		t.Message = m1
		if zzvrt.Bool(name + " second") {
			t.Message = m2
		}
	}
	return t
}

// zzAliased declares, or not, that the second message and enum stand for the first.
func zzAliased() (m1, m2 *Message, e1, e2 *Enum, aliased bool) {
	f := zzFile("p")
	m1, m2 = &Message{File: f, Name: "M1"}, &Message{File: f, Name: "M2"}
	e1, e2 = &Enum{File: f, Name: "E1"}, &Enum{File: f, Name: "E2"}
	other, otherEnum := &Message{File: f, Name: "M3"}, &Enum{File: f, Name: "E3"}
	aliased = zzvrt.Bool("aliased")
	if aliased {
		m2.Rule = &MessageRule{Aliases: []*Message{other, m1}}
		e2.Rule = &EnumRule{Aliases: []*Enum{otherEnum, e1}}
	} else {
		m2.Rule = &MessageRule{Aliases: []*Message{other}}
		e2.Rule = &EnumRule{Aliases: []*Enum{otherEnum}}
	}
	return
}

func zzCompatible(from, to *Type, aliased bool) bool {
	if from.Repeated != to.Repeated {
		return false
	}
	switch {
	case from.Kind == types.Message && to.Kind == types.Message:
		return from.Message == to.Message || aliased
	case from.Kind == types.Enum && to.Kind == types.Enum:
		return from.Enum == to.Enum || aliased
	case from.Kind == types.Enum:
		return zzNumeric(to.Kind)
	case zzNumeric(from.Kind) && zzNumeric(to.Kind):
		return true
	}
	return from.Kind == to.Kind
}

//verif:property P18
//verif:title an incompatible binding of a field is reported, a compatible one is not
func contract_validate_bind() {
	m1, m2, e1, e2, aliased := zzAliased()
	from, to := zzBindType("from", m1, m2, e1, e2), zzBindType("to", m1, m2, e1, e2)
	ctx := newContext()
	r := &Resolver{}
	f := &Field{Name: "x", Type: to}
	b := source.NewMessageBuilder("f.proto", "M").WithField("x")
	if zzvrt.Bool("null") {
		r.validateBindFieldType(ctx, &Type{IsNull: true}, f, b)
		zzvrt.Ensures("null may be bound to a list, a message or bytes, and to nothing else",
			(zzReported(ctx) == 0) == (to.Repeated || to.Kind == types.Message || to.Kind == types.Bytes))
		return
	}
	r.validateBindFieldType(ctx, from, f, b)
	zzvrt.Ensures("reported exactly when the types are not compatible", (zzReported(ctx) == 0) == zzCompatible(from, to, aliased))
	zzvrt.Ensures("reported once", zzReported(ctx) <= 1)
}

//verif:property P18
//verif:title an incompatible binding of a request field is reported, a compatible one is not
func contract_validate_request() {
	m1, m2, e1, e2, aliased := zzAliased()
	from, to := zzBindType("from", m1, m2, e1, e2), zzBindType("to", m1, m2, e1, e2)
	ctx := newContext()
	r := &Resolver{}
	f := &Field{Name: "x", Type: to}
	b := source.NewLocationBuilder("f.proto").WithMessage("M").WithOption().WithDef(0).WithCall().WithRequest(0)
	if zzvrt.Bool("null") {
		r.validateRequestFieldType(ctx, &Type{IsNull: true}, f, b)
		zzvrt.Ensures("null may be bound to a list, a message or bytes, and to nothing else",
			(zzReported(ctx) == 0) == (to.Repeated || to.Kind == types.Message || to.Kind == types.Bytes))
		return
	}
	r.validateRequestFieldType(ctx, from, f, b)
	// a number may be sent as an enum
	want := zzCompatible(from, to, aliased) || from.Repeated == to.Repeated && zzNumeric(from.Kind) && to.Kind == types.Enum
	zzvrt.Ensures("reported exactly when the types are not compatible", (zzReported(ctx) == 0) == want)
	zzvrt.Ensures("reported once", zzReported(ctx) <= 1)
}

//verif:property P18
//verif:title every alternative of a bound enum selector must be compatible
func contract_validate_bind_selector() {
	m1, _, e1, e2, aliased := zzAliased()
	e3 := &Enum{File: m1.File, Name: "E4"}
	pick := func(name string) *Enum {
		switch zzvrt.Choice(name, 3) {
		case 0:
			return e1
		case 1:
			return e2
		default:
			return e3
		}
	}
	x, y, z := pick("x"), pick("y"), pick("z")
	sel := zzSelector(&Type{Kind: types.Enum, Enum: x}, &Type{Kind: types.Enum, Enum: y})
	if zzvrt.Bool("nested") {
		sel = zzSelector(sel, &Type{Kind: types.Enum, Enum: z})
	} else {
		z = e2
	}
	rep := zzvrt.Bool("repeated")
	sel.Repeated = rep
	ctx := newContext()
	b := source.NewMessageBuilder("f.proto", "M").WithField("x")
	(&Resolver{}).validateBindFieldType(ctx, sel, &Field{Name: "x", Type: &Type{Kind: types.Enum, Enum: e2, Repeated: rep}}, b)
	ok := func(e *Enum) bool { return e == e2 || e == e1 && aliased }
	zzvrt.Ensures("reported exactly when an alternative is not compatible", (zzReported(ctx) == 0) == (ok(x) && ok(y) && ok(z)))
	ctx = newContext()
	(&Resolver{}).validateBindFieldType(ctx, sel, &Field{Name: "x", Type: &Type{Kind: types.Enum, Enum: e2, Repeated: !rep}}, b)
	zzvrt.Ensures("another repetition is reported", zzReported(ctx) == 1)
}

//verif:property P18
//verif:title the keys and the values of a bound map must be compatible
func contract_validate_bind_map() {
	k1, k2 := &Type{Kind: zzFewKinds("key 1")}, &Type{Kind: zzFewKinds("key 2")}
	v1, v2 := &Type{Kind: zzFewKinds("value 1")}, &Type{Kind: zzFewKinds("value 2")}
	ctx := newContext()
	f := &Field{Name: "x", Type: NewMapType(k2, v2)}
	ok := func(a, b *Type) bool { return a.Kind == b.Kind || zzNumeric(a.Kind) && zzNumeric(b.Kind) }
	if zzvrt.Bool("request") {
		(&Resolver{}).validateRequestFieldType(ctx, NewMapType(k1, v1), f, source.NewLocationBuilder("f.proto").WithMessage("M").WithOption().WithDef(0).WithCall().WithRequest(0))
	} else {
		(&Resolver{}).validateBindFieldType(ctx, NewMapType(k1, v1), f, source.NewMessageBuilder("f.proto", "M").WithField("x"))
	}
	zzvrt.Ensures("reported exactly when the keys or the values are not compatible", (zzReported(ctx) == 0) == (ok(k1, k2) && ok(v1, v2)))
}
