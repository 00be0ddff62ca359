package generator

import (
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/types"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzTypeGraph draws messages of two packages whose equally named fields are compatible.
func zzTypeGraph(fp, tp *resolver.File) (from, to []*resolver.Message) {
	n := 3
	names := []string{"L", "M", "N"}
	fenums := []*resolver.Enum{{Name: "E", File: fp}, {Name: "F", File: fp}}
	tenums := []*resolver.Enum{{Name: "E", File: tp}, {Name: "F", File: tp}}
	for i := 0; i < n; i++ {
		from = append(from, &resolver.Message{File: fp, Name: names[i]})
		to = append(to, &resolver.Message{File: tp, Name: names[i]})
	}
	num := []types.Kind{types.Int32, types.Int64, types.Uint64, types.Float}
	elem := func(i, j int) (*resolver.Type, *resolver.Type) {
		switch zzvrt.Choice("elem", 5, j) {
		case 0:
			return &resolver.Type{Kind: num[zzvrt.Choice("fk", 4, i, j)]}, &resolver.Type{Kind: num[zzvrt.Choice("tk", 4, i, j)]}
		case 1:
			return &resolver.Type{Kind: types.Enum, Enum: fenums[zzvrt.Choice("fe", 2, i, j)]},
				&resolver.Type{Kind: types.Enum, Enum: tenums[zzvrt.Choice("te", 2, i, j)]}
		case 2:
			return &resolver.Type{Kind: types.Enum, Enum: fenums[zzvrt.Choice("fe", 2, i, j)]}, &resolver.Type{Kind: num[zzvrt.Choice("tk", 4, i, j)]}
		default:
			return &resolver.Type{Kind: types.Message, Message: from[zzvrt.Choice("fm", n, i, j)]},
				&resolver.Type{Kind: types.Message, Message: to[zzvrt.Choice("tm", n, i, j)]}
		}
	}
	for i := 0; i < n; i++ {
		fo := &resolver.Oneof{Name: "one", Message: from[i]}
		too := &resolver.Oneof{Name: "one", Message: to[i]}
		for j := 0; j < zzvrt.Choice("fields", 4, i); j++ {
			ft, tt := elem(i, j)
			name := []string{"a", "b", "c"}[j]
			ff := &resolver.Field{Name: name, Type: ft, Message: from[i]}
			tf := &resolver.Field{Name: name, Type: tt, Message: to[i]}
			switch zzvrt.Choice("shape", 4, j) {
			case 0:
				ft.Repeated, tt.Repeated = true, true
			case 1:
				kinds := []types.Kind{types.Int32, types.Int64, types.String}
				ff.Type = resolver.NewMapType(&resolver.Type{Kind: kinds[zzvrt.Choice("key", 3, i, j)]}, ft)
				tf.Type = resolver.NewMapType(&resolver.Type{Kind: kinds[zzvrt.Choice("key", 3, i, j)]}, tt)
			default:
				if zzvrt.Bool("from oneof", i, j) {
					ff.Oneof = fo
					ft.OneofField = &resolver.OneofField{Field: ff}
					fo.Fields = append(fo.Fields, ff)
				}
				if zzvrt.Bool("to oneof", i, j) {
					tf.Oneof = too
					tt.OneofField = &resolver.OneofField{Field: tf}
					too.Fields = append(too.Fields, tf)
				}
			}
			if zzvrt.Bool("renamed", i, j) {
				tf.Name = "new_" + name
				if zzvrt.Bool("aliased", i, j) {
					tf.Rule = &resolver.FieldRule{Aliases: []*resolver.Field{ff}}
				}
			}
			from[i].Fields = append(from[i].Fields, ff)
			to[i].Fields = append(to[i].Fields, tf)
		}
		if len(fo.Fields) != 0 {
			from[i].Oneofs = []*resolver.Oneof{fo}
		}
		if len(too.Fields) != 0 {
			to[i].Oneofs = []*resolver.Oneof{too}
		}
	}
	return from, to
}

//verif:property P18
//verif:bounded messages of at most three fields, three pairs of messages, drawn at random
//verif:title every conversion the generated conversions call is generated
//verif:native 4000
func contract_cast_closure() {
	if !zzvrt.Native() {
		return
	}
	fp, tp := zzResolverFile("from"), zzResolverFile("to")
	from, to := zzTypeGraph(fp, tp)
	ft := &resolver.Type{Kind: types.Message, Message: from[0]}
	tt := &resolver.Type{Kind: types.Message, Message: to[zzvrt.Choice("root", 3)]}
	svc := &resolver.Service{File: tp, Name: "S"}
	switch zzvrt.Choice("where", 3) {
	case 0:
		svc.Methods = []*resolver.Method{{Name: "Plain", Response: tt.Message}, {Name: "M", Response: tt.Message, Rule: &resolver.MethodRule{Response: ft.Message}}}
	case 1:
		ft.Repeated, tt.Repeated = true, true
		fallthrough
	default:
		svc.Messages = []*resolver.Message{{Name: "R", File: tp, Fields: []*resolver.Field{
			{Name: "x", Type: tt, Rule: &resolver.FieldRule{Value: &resolver.Value{CEL: &resolver.CELValue{Out: ft}}}},
		}}}
	}
	s := newService(svc, &File{File: tp, pkgMap: map[*resolver.GoPackage]struct{}{}, aliasMap: map[*resolver.GoPackage]string{}})
	casts := s.CastFields()
	declared := map[string]bool{}
	for _, c := range casts {
		zzvrt.Ensures("no conversion is generated twice", !declared[c.Name])
		declared[c.Name] = true
	}
	ok := true
	need := func(required bool, name string) {
		if required && !declared[name] {
			ok = false
		}
	}
	need(true, castFuncName(ft, tt))
	for _, c := range casts {
		switch {
		case c.IsSlice():
			v := c.ToSlice()
			need(v.ElemRequiredCast, v.ElemCastName)
		case c.IsMap():
			v := c.ToMap()
			need(v.KeyRequiredCast, v.KeyCastName)
			need(v.ValueRequiredCast, v.ValueCastName)
		case c.IsOneof():
			v := c.ToOneof()
			need(v.RequiredCast, v.CastName)
		case c.IsStruct():
			v := c.ToStruct()
			for _, f := range v.Fields {
				need(f.RequiredCast, f.CastName)
			}
			for _, o := range v.Oneofs {
				for _, f := range o.Fields {
					need(f.RequiredCast, f.CastName)
				}
			}
		}
	}
	zzvrt.Ensures("a called conversion exists", ok)
}
