package federation

import (
	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"

	"github.com/mercari/grpc-federation/zzvrt"
)

// The functions declared, as cel-go is told about them.
var (
	zzUnary  ref13U
	zzBinary ref13B
	zzUnarys map[string]ref13U
	zzBins   map[string]ref13B
)

type (
	ref13U = func(ref.Val) ref.Val
	ref13B = func(ref.Val, ref.Val) ref.Val
)

//verif:model github.com/google/cel-go/cel.UnaryBinding
func zzUnary13(f func(ref.Val) ref.Val) cel.OverloadOpt { zzUnary = f; return nil }

//verif:model github.com/google/cel-go/cel.BinaryBinding
func zzBinary13(f func(ref.Val, ref.Val) ref.Val) cel.OverloadOpt { zzBinary = f; return nil }

//verif:model github.com/google/cel-go/cel.Overload
func zzOverload13(id string, args []*cel.Type, result *cel.Type, opts ...cel.OverloadOpt) cel.FunctionOpt {
	return nil
}

//verif:model github.com/google/cel-go/cel.Function
func zzFunction13(name string, opts ...cel.FunctionOpt) cel.EnvOption {
	if zzUnary != nil {
		zzUnarys[name] = zzUnary
	}
	if zzBinary != nil {
		zzBins[name] = zzBinary
	}
	zzUnary, zzBinary = nil, nil
	return nil
}

func zzEnumFuncs(f func() []cel.EnvOption) (map[string]ref13U, map[string]ref13B) {
	zzUnary, zzBinary = nil, nil
	zzUnarys, zzBins = map[string]ref13U{}, map[string]ref13B{}
	opts := f()
	if !zzvrt.Native() {
		return zzUnarys, zzBins
	}
	env, err := cel.NewCustomEnv(opts...)
	if err != nil {
		panic(err)
	}
	us, bs := map[string]ref13U{}, map[string]ref13B{}
	for name, d := range env.Functions() {
		os, err := d.Bindings()
		if err != nil {
			panic(err)
		}
		for _, o := range os {
			if o.Unary != nil {
				us[name] = o.Unary
			}
			if o.Binary != nil {
				bs[name] = o.Binary
			}
		}
	}
	return us, bs
}

func zzEnumNames() []string {
	return []string{"", "ZERO", "ONE", "TWO", "NEG", "MAX", "zero", "pkg.ZERO"}
}

func zzEnumName(name string) string {
	if !zzvrt.Native() {
		return zzvrt.String(name)
	}
	ns := zzEnumNames()
	return ns[zzvrt.Choice(name, len(ns))]
}

func zzEnumNum(name string) int64 {
	if !zzvrt.Native() {
		return zzvrt.Int64(name)
	}
	pool := []int64{0, 1, 2, -1, 2147483647, -2147483648, 2147483648, 4294967296, 4294967297, -4294967295, 3}
	if k := zzvrt.Choice(name+" pool", len(pool)+2); k < len(pool) {
		return pool[k]
	}
	return zzvrt.Int64(name)
}

// zzEnumDecl is an enum declaration: names of numbers and numbers of names.
func zzEnumDecl() (map[string]int32, map[int32]string) {
	byName, byNum := map[string]int32{}, map[int32]string{}
	n := zzvrt.Size("values", 6)
	for i := 0; i < n; i++ {
		name := zzEnumNames()[1+zzvrt.Choice("declared name", 7, i)]
		num := int32(zzEnumNum("declared number " + string(rune('0'+i))))
		byName[name] = num
		if _, dup := byNum[num]; !dup {
			byNum[num] = name
		}
	}
	return byName, byNum
}

func zzEnumMaps(byName map[string]int32, byNum map[int32]string) {
	us, _ := zzEnumFuncs(func() []cel.EnvOption { return EnumAccessorOptions("pkg.Enum", byName, byNum) })
	name, value, from := us["pkg.Enum.name"], us["pkg.Enum.value"], us["pkg.Enum.from"]
	if name == nil || value == nil || from == nil {
		zzvrt.Missing("an enum accessor")
	}
	n := zzEnumNum("number")
	want := ""
	if int64(int32(n)) == n {
		want = byNum[int32(n)]
	}
	s, ok := name(celtypes.Int(n)).(celtypes.String)
	zzvrt.Ensures("name gives the declared name of the number, and no name when there is none", ok && string(s) == want)
	k := zzEnumName("name")
	v, ok := value(celtypes.String(k)).(celtypes.Int)
	zzvrt.Ensures("value gives the declared number of the name", ok && int64(v) == int64(byName[k]))
	f, ok := from(celtypes.Int(n)).(celtypes.Int)
	zzvrt.Ensures("from gives the number itself", ok && int64(f) == n)
}

//verif:property P13
//verif:title accessors of an enum
func contract_enum_accessors() {
	if zzvrt.Native() {
		zzEnumMaps(zzEnumDecl())
		return
	}
	zzEnumMaps(zzvrt.Any[map[string]int32]("by name"), zzvrt.Any[map[int32]string]("by number"))
}

//verif:property P13
//verif:title attributes of an enum value
func contract_enum_attributes() {
	var attrs EnumAttributeMap[int32]
	if !zzvrt.Native() {
		attrs = zzvrt.Any[EnumAttributeMap[int32]]("attributes")
	} else {
		attrs = EnumAttributeMap[int32]{}
		n := zzvrt.Size("values", 5)
		for i := 0; i < n; i++ {
			x := "declared " + string(rune('0'+i))
			vs := EnumValueAttributeMap{}
			for j := 0; j < zzvrt.Choice(x+" attributes", 3); j++ {
				vs[zzEnumName(x+" attribute "+string(rune('0'+j)))] = zzvrt.String(x + " value " + string(rune('0'+j)))
			}
			attrs[int32(zzEnumNum(x))] = vs
		}
	}
	_, bs := zzEnumFuncs(func() []cel.EnvOption { return []cel.EnvOption{EnumAttrOption("pkg.Enum", attrs)} })
	attr := bs["pkg.Enum.attr"]
	if attr == nil {
		zzvrt.Missing("attr")
	}
	n := zzEnumNum("number")
	k := zzEnumName("attribute")
	var m EnumValueAttributeMap
	if int64(int32(n)) == n {
		m = attrs[int32(n)]
	}
	v := attr(celtypes.Int(n), celtypes.String(k))
	if m == nil {
		_, isErr := v.(*celtypes.Err)
		zzvrt.Ensures("a number without attributes is reported", isErr)
		return
	}
	s, ok := v.(celtypes.String)
	zzvrt.Ensures("attr gives the declared attribute of the number", ok && string(s) == m[k])
}
