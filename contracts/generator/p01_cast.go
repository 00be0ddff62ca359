package generator

import (
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/types"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzIntKind is the i-th protobuf integer kind with its width and signedness.
func zzIntKind(i int) (k types.Kind, bits int, signed bool, goName string) {
	switch i {
	case 0:
		return types.Int32, 32, true, "Int32"
	case 1:
		return types.Sint32, 32, true, "Int32"
	case 2:
		return types.Sfixed32, 32, true, "Int32"
	case 3:
		return types.Uint32, 32, false, "Uint32"
	case 4:
		return types.Fixed32, 32, false, "Uint32"
	case 5:
		return types.Int64, 64, true, "Int64"
	case 6:
		return types.Sint64, 64, true, "Int64"
	case 7:
		return types.Sfixed64, 64, true, "Int64"
	case 8:
		return types.Uint64, 64, false, "Uint64"
	default:
		return types.Fixed64, 64, false, "Uint64"
	}
}

//verif:property P01
//verif:title the generator selects the checked conversion exactly for the pairs that can lose a value
func contract_cast_selection() {
	fk, fb, fs, fn := zzIntKind(zzvrt.Choice("from", 10))
	tk, tb, ts, tn := zzIntKind(zzvrt.Choice("to", 10))
	f := &CastField{fromType: &resolver.Type{Kind: fk}, toType: &resolver.Type{Kind: tk}, file: &File{}}
	// every value of the source type is a value of the destination type
	var subset bool
	switch {
	case fs && ts, !fs && !ts:
		subset = fb <= tb
	case fs && !ts:
		subset = false
	default:
		subset = fb < tb
	}
	zzvrt.Ensures("a pair that can lose a value is checked", zzvrt.Implies(!subset, f.IsRequiredValidationNumber()))
	zzvrt.Ensures("a pair that cannot lose a value is not checked", zzvrt.Implies(subset, !f.IsRequiredValidationNumber()))
	zzvrt.Ensures("the checked conversion is the one between the two Go types", f.CastWithValidationName() == fn+"To"+tn)
}

//verif:property P01
//verif:title an integer pair is converted as a number, not as a struct, enum, map or oneof
func contract_cast_dispatch() {
	fk, _, _, _ := zzIntKind(zzvrt.Choice("from", 10))
	tk, _, _, _ := zzIntKind(zzvrt.Choice("to", 10))
	rep := zzvrt.Bool("repeated")
	f := &CastField{fromType: &resolver.Type{Kind: fk, Repeated: rep}, toType: &resolver.Type{Kind: tk, Repeated: rep}, file: &File{}}
	zzvrt.Ensures("a list is converted element by element", f.IsSlice() == rep)
	zzvrt.Ensures("neither struct, map, enum nor oneof", !f.IsStruct() && !f.IsMap() && !f.IsEnum() && !f.IsOneof() && !f.IsEnumToNumber() && !f.IsNumberToEnum())
}
