package generator

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"

	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/types"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzEnums is a federated enum, a dependency and another dependency whose values have the same names.
func zzEnums() (fed, dep, other *resolver.Enum, file *resolver.File) {
	file = zzResolverFile("fed")
	depFile := zzResolverFile("dep")
	mk := func(f *resolver.File, name string, values ...string) *resolver.Enum {
		e := &resolver.Enum{File: f, Name: name}
		for i := 0; i < len(values); i++ {
			e.Values = append(e.Values, &resolver.EnumValue{Enum: e, Value: values[i]})
		}
		return e
	}
	fed = mk(file, "Fed", "A", "B")
	dep = mk(depFile, "Dep", "X", "Y", "A")
	other = mk(depFile, "Other", "X", "Y", "A")
	return fed, dep, other, file
}

// zzAliasOf is a value of the enum.
func zzAliasOf(e *resolver.Enum, name string, i, j int) *resolver.EnumValue {
	switch zzvrt.Choice(name, 3, i, j) {
	case 0:
		return e.Values[0]
	case 1:
		return e.Values[1]
	default:
		return e.Values[2]
	}
}

// zzDeclareAliases gives the values of the federated enum aliases in the dependency and in the other enum
// and reports which of them stand for which.
func zzDeclareAliases(fed, dep, other *resolver.Enum, max int) (alias [6]bool, def [2]bool) {
	for i := 0; i < 2; i++ {
		if zzvrt.Bool("no rule", i) {
			continue
		}
		rule := &resolver.EnumValueRule{Default: zzvrt.Bool("default", i)}
		def[i] = rule.Default
		for j := 0; j < max; j++ {
			switch zzvrt.Choice("alias", 3, i, j) {
			case 0:
				v := zzAliasOf(dep, "value", i, j)
				for k := 0; k < 3; k++ {
					if v == dep.Values[k] {
						alias[i*3+k] = true
					}
				}
				rule.Aliases = append(rule.Aliases, &resolver.EnumValueAlias{EnumAlias: dep, Aliases: []*resolver.EnumValue{v}})
			case 1:
				v := other.Values[2]
				rule.Aliases = append(rule.Aliases, &resolver.EnumValueAlias{EnumAlias: other, Aliases: []*resolver.EnumValue{v}})
			}
		}
		fed.Values[i].Rule = rule
	}
	return alias, def
}

// zzConvert is what the conversion turns a value into.
func zzConvert(c *CastEnum, from string) string {
	for i := 0; i < len(c.FromValues); i++ {
		if c.FromValues[i].FromValue == from {
			return c.FromValues[i].ToValue
		}
	}
	return c.DefaultValue
}

func zzCast(from, to *resolver.Enum, file *resolver.File) *CastField {
	f := &File{File: file, pkgMap: map[*resolver.GoPackage]struct{}{}, aliasMap: map[*resolver.GoPackage]string{}}
	return &CastField{
		fromType: &resolver.Type{Kind: types.Enum, Enum: from},
		toType:   &resolver.Type{Kind: types.Enum, Enum: to},
		file:     f,
	}
}

func zzText(e *resolver.Enum, i int) string {
	if e.Name == "Fed" {
		return "Fed_" + e.Values[i].Value
	}
	return "dep." + e.Name + "_" + e.Values[i].Value
}

//verif:property P19
//verif:title a dependency value becomes the federated value that declares it as its alias, or the default
func contract_enum_from_dependency() {
	fed, dep, other, file := zzEnums()
	fed.Rule = &resolver.EnumRule{Aliases: []*resolver.Enum{other, dep}}
	max := 2
	if zzvrt.Native() {
		max = 3
	}
	alias, def := zzDeclareAliases(fed, dep, other, max)
	zzvrt.Requires(!(def[0] && def[1]))
	for k := 0; k < 3; k++ {
		zzvrt.Requires(!(alias[k] && alias[3+k]))
	}
	c, err := zzCast(dep, fed, file).ToEnum()
	zzvrt.Ensures("accepted", err == nil)
	for k := 0; k < 3; k++ {
		want := "0"
		switch {
		case alias[k]:
			want = zzText(fed, 0)
		case alias[3+k]:
			want = zzText(fed, 1)
		case def[0]:
			want = zzText(fed, 0)
		case def[1]:
			want = zzText(fed, 1)
		}
		zzvrt.Ensures("every value", zzConvert(c, zzText(dep, k)) == want)
	}
}

//verif:property P19
//verif:title a federated value becomes its only alias in the dependency
func contract_enum_to_dependency() {
	fed, dep, other, file := zzEnums()
	fed.Rule = &resolver.EnumRule{Aliases: []*resolver.Enum{dep, other}}
	max := 2
	if zzvrt.Native() {
		max = 3
	}
	alias, def := zzDeclareAliases(fed, dep, other, max)
	unique := !def[0] && !def[1]
	for i := 0; i < 2; i++ {
		n := 0
		for k := 0; k < 3; k++ {
			if alias[i*3+k] {
				n++
			}
		}
		if n > 1 {
			unique = false
		}
		// the same alias twice is not told apart from two aliases
		if fed.Values[i].Rule != nil {
			m := 0
			for j := 0; j < len(fed.Values[i].Rule.Aliases); j++ {
				if fed.Values[i].Rule.Aliases[j].EnumAlias == dep {
					m++
				}
			}
			zzvrt.Requires(m == n)
		}
	}
	c, err := zzCast(fed, dep, file).ToEnum()
	zzvrt.Ensures("accepted exactly when the destination is unique", (err == nil) == unique)
	if err != nil {
		return
	}
	for i := 0; i < 2; i++ {
		want := "0"
		for k := 0; k < 3; k++ {
			if alias[i*3+k] {
				want = zzText(dep, k)
			}
		}
		zzvrt.Ensures("every value", zzConvert(c, zzText(fed, i)) == want)
	}
}

//verif:property P19
//verif:title without aliases a value becomes the value with its name
func contract_enum_by_name() {
	fed, dep, other, file := zzEnums()
	switch zzvrt.Choice("rules", 3) {
	case 1:
		fed.Rule = &resolver.EnumRule{}
		dep.Rule = &resolver.EnumRule{}
	case 2:
		// aliases of another enum do not count
		fed.Rule = &resolver.EnumRule{Aliases: []*resolver.Enum{other}}
	}
	if zzvrt.Bool("attributes") {
		fed.Values[0].Rule = &resolver.EnumValueRule{}
		dep.Values[0].Rule = &resolver.EnumValueRule{}
	}
	c, err := zzCast(dep, fed, file).ToEnum()
	zzvrt.Ensures("accepted", err == nil)
	zzvrt.Ensures("by name", zzConvert(c, zzText(dep, 2)) == zzText(fed, 0))
	zzvrt.Ensures("0 for a name that is missing", zzConvert(c, zzText(dep, 0)) == "0" && zzConvert(c, zzText(dep, 1)) == "0")
	b, err := zzCast(fed, dep, file).ToEnum()
	zzvrt.Ensures("accepted in the other direction", err == nil)
	zzvrt.Ensures("by name in the other direction", zzConvert(b, zzText(fed, 0)) == zzText(dep, 2) && zzConvert(b, zzText(fed, 1)) == "0")
}

//verif:property P19
//verif:title the tables of the enum that declares the other as its alias are used
func contract_enum_chain() {
	fed, dep, other, file := zzEnums()
	// fed stands for dep and dep stands for other
	one := func(e *resolver.Enum, v *resolver.EnumValue) *resolver.EnumValueRule {
		return &resolver.EnumValueRule{Aliases: []*resolver.EnumValueAlias{{EnumAlias: e, Aliases: []*resolver.EnumValue{v}}}}
	}
	fed.Rule = &resolver.EnumRule{Aliases: []*resolver.Enum{dep}}
	fed.Values[0].Rule, fed.Values[1].Rule = one(dep, dep.Values[1]), one(dep, dep.Values[0])
	dep.Rule = &resolver.EnumRule{Aliases: []*resolver.Enum{other}}
	dep.Values[0].Rule, dep.Values[1].Rule, dep.Values[2].Rule = one(other, other.Values[0]), one(other, other.Values[2]), one(other, other.Values[1])
	back, err := zzCast(fed, dep, file).ToEnum()
	zzvrt.Ensures("accepted", err == nil)
	zzvrt.Ensures("to the dependency", zzConvert(back, zzText(fed, 0)) == zzText(dep, 1) && zzConvert(back, zzText(fed, 1)) == zzText(dep, 0))
	c, err := zzCast(dep, fed, file).ToEnum()
	zzvrt.Ensures("accepted from the dependency", err == nil)
	zzvrt.Ensures("from the dependency", zzConvert(c, zzText(dep, 1)) == zzText(fed, 0) && zzConvert(c, zzText(dep, 0)) == zzText(fed, 1) && zzConvert(c, zzText(dep, 2)) == "0")
}

//verif:property P19
//verif:bounded tables of at most six values, the text of the generated conversion interpreted as one switch
//verif:title the generated conversion is the table
//verif:native 2000
func contract_enum_template() {
	if !zzvrt.Native() {
		return
	}
	names := []string{"X_A", "X_B", "X_C", "X_D", "X_E", "X_F"}
	c := &CastEnum{ReturnType: "T", DefaultValue: []string{"0", "T_DEFAULT"}[zzvrt.Choice("default", 2)]}
	for i := 0; i < zzvrt.Choice("values", 7); i++ {
		c.FromValues = append(c.FromValues, &CastEnumValue{FromValue: names[i], ToValue: []string{"T_A", "T_B", "T_C"}[zzvrt.Choice("to", 3, i)]})
	}
	if zzvrt.Bool("oneof") {
		c.CastOneofWrapper = &CastOneofWrapper{Name: "M_Field", FieldName: "Field"}
	}
	tmpl, err := loadTemplate()
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	if err := tmpl.ExecuteTemplate(&b, "castEnum", c); err != nil {
		zzvrt.Ensures("the template accepts the table: "+err.Error(), false)
		return
	}
	src, err := format.Source([]byte("package p\nfunc f(from X) (T, error) {\n" + b.String() + "\n}\n"))
	zzvrt.Ensures("the conversion is Go", err == nil)
	if err != nil {
		return
	}
	f, err := parser.ParseFile(token.NewFileSet(), "f.go", src, 0)
	if err != nil {
		return
	}
	var switches []*ast.SwitchStmt
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SwitchStmt); ok {
			switches = append(switches, s)
		}
		return true
	})
	if len(switches) != 1 {
		return // written in another way: not interpreted
	}
	got := map[string]string{}
	text := func(e ast.Expr) string {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name
		case *ast.BasicLit:
			return x.Value
		}
		return "?"
	}
	def := "0"
	for _, st := range switches[0].Body.List {
		cc := st.(*ast.CaseClause)
		if len(cc.Body) != 1 {
			return
		}
		var val string
		switch a := cc.Body[0].(type) {
		case *ast.AssignStmt:
			val = text(a.Rhs[0])
		case *ast.ReturnStmt:
			val = text(a.Results[0])
		default:
			return
		}
		for _, e := range cc.List {
			got[text(e)] = val
		}
		if cc.List == nil {
			def = val
		}
	}
	ok := true
	for i := 0; i < len(names); i++ {
		v, exists := got[names[i]]
		if !exists {
			v = def
		}
		if v != zzConvert(c, names[i]) {
			ok = false
		}
	}
	zzvrt.Ensures("every value", ok)
}
