package resolver

import (
	"github.com/mercari/grpc-federation/grpc/federation"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzEnum is an enum of the package with some of the values A, B and C.
func zzEnum(pkg, name string) (*Enum, [3]*EnumValue) {
	e := &Enum{File: zzFile(pkg), Name: name}
	var has [3]*EnumValue
	names := [3]string{"A", "B", "C"}
	for i := 0; i < 3; i++ {
		if zzvrt.Bool("value of "+name, i) {
			has[i] = &EnumValue{Enum: e, Value: names[i]}
			e.Values = append(e.Values, has[i])
		}
	}
	return e, has
}

func zzEnumCtx() *context {
	ctx := newContext()
	f := zzFile("fed")
	f.Name = "fed.proto"
	return ctx.withFile(f)
}

//verif:property P19
//verif:title a value is found by its name, or by its full name in its own enum only
func contract_enum_value_lookup() {
	e, has := zzEnum("dep", "Dep")
	names := [3]string{"A", "B", "C"}
	for i := 0; i < 3; i++ {
		zzvrt.Ensures("name", e.Value(names[i]) == has[i] && e.HasValue(names[i]) == (has[i] != nil))
		zzvrt.Ensures("full name", e.Value("dep.Dep."+names[i]) == has[i])
		zzvrt.Ensures("another enum", e.Value("dep.Other."+names[i]) == nil && e.Value("other.Dep."+names[i]) == nil && e.Value("dep.De."+names[i]) == nil)
		zzvrt.Ensures("part of a name", e.Value("Dep."+names[i]) == nil && e.Value("x.dep.Dep."+names[i]) == nil && e.Value("dep.Dep.x."+names[i]) == nil && e.Value("."+names[i]) == nil)
	}
	zzvrt.Ensures("unknown names", e.Value("D") == nil && e.Value("a") == nil && e.Value("dep.Dep") == nil && e.Value("dep.Dep.") == nil)
	var none *Enum
	zzvrt.Ensures("no enum", none.Value("A") == nil && !none.HasValue("A"))
	nested := &Enum{File: zzFile("dep"), Message: &Message{File: zzFile("dep"), Name: "M"}, Name: "Dep"}
	nested.Values = []*EnumValue{{Enum: nested, Value: "A"}}
	zzvrt.Ensures("nested enum", nested.Value("dep.M.Dep.A") == nested.Values[0] && nested.Value("dep.Dep.A") == nil && nested.Value("A") == nested.Values[0])
}

// zzSame reports that the aliases are exactly the given values.
func zzSame(as []*EnumValueAlias, enums [2]*Enum, want [2]*EnumValue) bool {
	n := 0
	for i := 0; i < 2; i++ {
		if want[i] == nil {
			continue
		}
		if n >= len(as) || as[n].EnumAlias != enums[i] || len(as[n].Aliases) != 1 || as[n].Aliases[0] != want[i] {
			return false
		}
		n++
	}
	return n == len(as)
}

//verif:property P19
//verif:title an alias of a value names values of the alias enums only, and has to exist in them
func contract_enum_value_alias() {
	e1, has1 := zzEnum("dep", "Dep")
	e2, has2 := zzEnum("other", "Other")
	enums := [2]*Enum{e1, e2}
	aliases := []*Enum{e1, e2}
	if zzvrt.Bool("one enum") {
		aliases = aliases[:1]
		has2 = [3]*EnumValue{}
	}
	all := func(a, b *EnumValue) bool { return a != nil && (b != nil || len(aliases) == 1) }
	ctx := zzEnumCtx()
	r := &Resolver{}
	var got []*EnumValueAlias
	var want [2]*EnumValue
	ok := false
	switch zzvrt.Choice("alias", 6) {
	case 0:
		got = r.resolveEnumValueAlias(ctx, "B", "", aliases)
		want, ok = [2]*EnumValue{has1[1], has2[1]}, all(has1[1], has2[1])
	case 1:
		got = r.resolveEnumValueAlias(ctx, "B", "A", aliases)
		want, ok = [2]*EnumValue{has1[0], has2[0]}, all(has1[0], has2[0])
	case 2:
		got = r.resolveEnumValueAlias(ctx, "B", "dep.Dep.C", aliases)
		want, ok = [2]*EnumValue{has1[2], nil}, has1[2] != nil
	case 3:
		got = r.resolveEnumValueAlias(ctx, "B", "other.Other.B", aliases)
		want, ok = [2]*EnumValue{nil, has2[1]}, has2[1] != nil
	case 4:
		got = r.resolveEnumValueAlias(ctx, "B", "third.Third.A", aliases)
	default:
		got = r.resolveEnumValueAlias(ctx, "B", "D", aliases)
	}
	zzvrt.Ensures("reported exactly when the value is missing", (zzReported(ctx) == 0) == ok)
	zzvrt.Ensures("reported once", zzReported(ctx) <= 1)
	if ok {
		zzvrt.Ensures("the values named", zzSame(got, enums, want))
	} else {
		zzvrt.Ensures("no value", len(got) == 0)
	}
}

//verif:property P19
//verif:title the value option: alias, default and the name by itself
func contract_enum_value_rule() {
	e1, has1 := zzEnum("dep", "Dep")
	ctx := zzEnumCtx()
	r := &Resolver{}
	fed := &Enum{File: zzFile("fed"), Name: "Fed"}
	fed.Values = []*EnumValue{{Enum: fed, Value: "B"}}
	rules := zzvrt.Choice("enum option", 3)
	switch rules {
	case 1:
		fed.Rule = &EnumRule{}
	case 2:
		fed.Rule = &EnumRule{Aliases: []*Enum{e1}}
	}
	b := source.NewEnumBuilder("fed.proto", "", "Fed").WithValue("B").WithOption()
	if zzvrt.Bool("no value option") {
		got := r.resolveEnumValueRule(ctx, fed, fed.Values[0], nil, b)
		zzvrt.Ensures("the same name is required when the enum has an alias", (zzReported(ctx) == 0) == (rules != 2 || has1[1] != nil))
		zzvrt.Ensures("no rule without an enum option", (got == nil) == (rules == 0))
		if got != nil && rules == 2 && has1[1] != nil {
			zzvrt.Ensures("the same name", !got.Default && len(got.Aliases) == 1 && got.Aliases[0].EnumAlias == e1 && len(got.Aliases[0].Aliases) == 1 && got.Aliases[0].Aliases[0] == has1[1])
		}
		return
	}
	def := &federation.EnumValueRule{}
	isDefault := zzvrt.Bool("default")
	if isDefault {
		t := true
		def.Default = &t
	}
	n := zzvrt.Choice("aliases", 3)
	switch n {
	case 1:
		def.Alias = []string{"C"}
	case 2:
		def.Alias = []string{"dep.Dep.A", "C"}
	}
	got := r.resolveEnumValueRule(ctx, fed, fed.Values[0], def, b)
	if n > 0 && rules != 2 {
		zzvrt.Ensures("an alias of a value needs an alias of the enum", zzReported(ctx) == 1 && got == nil)
		return
	}
	zzvrt.Ensures("a rule", got != nil && got.Default == isDefault)
	if isDefault {
		zzvrt.Ensures("the default has no alias", len(got.Aliases) == 0 && zzReported(ctx) == 0)
		return
	}
	if rules != 2 {
		zzvrt.Ensures("no alias", len(got.Aliases) == 0 && zzReported(ctx) == 0)
		return
	}
	var want []*EnumValue
	switch n {
	case 0:
		want = []*EnumValue{has1[1]}
	case 1:
		want = []*EnumValue{has1[2]}
	default:
		want = []*EnumValue{has1[0], has1[2]}
	}
	missing := 0
	for i := 0; i < len(want); i++ {
		if want[i] == nil {
			missing++
		}
	}
	zzvrt.Ensures("every missing value is reported", zzReported(ctx) == missing)
	k := 0
	for i := 0; i < len(want); i++ {
		if want[i] == nil {
			continue
		}
		zzvrt.Ensures("every alias is kept", k < len(got.Aliases) && got.Aliases[k].EnumAlias == e1 && len(got.Aliases[k].Aliases) == 1 && got.Aliases[k].Aliases[0] == want[i])
		k++
	}
	zzvrt.Ensures("and no other", len(got.Aliases) == k)
}
