package types

import "github.com/mercari/grpc-federation/zzvrt"

// zzKind is protobuf's own table: number, name, signed, unsigned, floating.
func zzKind(n int) (name string, signed, unsigned, floating bool) {
	switch n {
	case 1:
		return "double", false, false, true
	case 2:
		return "float", false, false, true
	case 3:
		return "int64", true, false, false
	case 4:
		return "uint64", false, true, false
	case 5:
		return "int32", true, false, false
	case 6:
		return "fixed64", false, true, false
	case 7:
		return "fixed32", false, true, false
	case 8:
		return "bool", false, false, false
	case 9:
		return "string", false, false, false
	case 10:
		return "group", false, false, false
	case 11:
		return "message", false, false, false
	case 12:
		return "bytes", false, false, false
	case 13:
		return "uint32", false, true, false
	case 14:
		return "enum", false, false, false
	case 15:
		return "sfixed32", true, false, false
	case 16:
		return "sfixed64", true, false, false
	case 17:
		return "sint32", true, false, false
	case 18:
		return "sint64", true, false, false
	}
	return "", false, false, false
}

//verif:property P20
//verif:title every protobuf kind has its own name and class
func contract_kind_table() {
	n := zzvrt.Choice("n", 18) + 1
	k := Kind(n)
	name, s, u, f := zzKind(n)
	zzvrt.Ensures("name", k.ToString() == name)
	zzvrt.Ensures("signed", k.IsInt() == s)
	zzvrt.Ensures("unsigned", k.IsUint() == u)
	zzvrt.Ensures("floating point", k.IsFloat() == f)
	if n != 11 && n != 14 {
		zzvrt.Ensures("the name leads back to the kind", ToKind(name) == k)
	}
}

//verif:property P20
//verif:title a name that is no scalar kind is unknown, a number that is no kind has no class
func contract_kind_unknown() {
	s := zzvrt.String("s")
	k := ToKind(s)
	zzvrt.Ensures("a known kind has exactly that name", k == Unknown || k.ToString() == s)
	n := zzvrt.Int("n")
	zzvrt.Requires(n < 1 || n > 18)
	zzvrt.Ensures("no class", !Kind(n).IsInt() && !Kind(n).IsUint() && !Kind(n).IsFloat() && Kind(n).ToString() == "null")
}
