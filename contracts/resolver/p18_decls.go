package resolver

import (
	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
	"github.com/mercari/grpc-federation/types"
	"github.com/mercari/grpc-federation/zzvrt"
)

func zzMsgType(m *Message) *Type { return &Type{Kind: types.Message, Message: m} }

// zzSelector is the type of an enum selector between two values.
func zzSelector(a, b *Type) *Type {
	m := &Message{File: zzFile("grpc.federation.private"), Name: "EnumSelector",
		Fields: []*Field{{Name: "true", Type: a}, {Name: "false", Type: b}}}
	return zzMsgType(m)
}

//verif:property P18
//verif:title the conversions declared for two messages
func contract_decls_message() {
	f := zzFile("p")
	ft, tt := &Type{Kind: zzFewKinds("from kind")}, &Type{Kind: zzFewKinds("to kind")}
	at := &Type{Kind: zzFewKinds("alias kind")}
	from := &Message{File: f, Name: "From"}
	other := &Message{File: f, Name: "Other"}
	to := &Message{File: f, Name: "To"}
	alias := &Field{Name: "old", Type: at, Message: from}
	from.Fields = []*Field{{Name: "a", Type: ft}, alias, {Name: "only from", Type: Int64Type}}
	to.Fields = []*Field{{Name: "a", Type: tt}, {Name: "only to", Type: BoolType}}
	if zzvrt.Bool("recursive") {
		from.Fields = append(from.Fields, &Field{Name: "next", Type: zzMsgType(from)})
		to.Fields = append(to.Fields, &Field{Name: "next", Type: zzMsgType(to)})
	}
	src := ft
	switch zzvrt.Choice("alias", 3) {
	case 1:
		to.Fields[0].Rule = &FieldRule{Aliases: []*Field{{Name: "old", Type: StringType, Message: other}, alias}}
		src = at
	case 2:
		to.Fields[0].Rule = &FieldRule{Aliases: []*Field{{Name: "old", Type: at, Message: other}}}
	}
	ds := typeConversionDecls(zzMsgType(from), zzMsgType(to), map[string]struct{}{})
	zzvrt.Ensures("the messages are declared", zzDeclares(ds, zzMsgType(from), zzMsgType(to)))
	zzvrt.Ensures("the field is declared with the one it takes its value from exactly when they differ",
		zzDeclares(ds, src, tt) == (src.Kind != tt.Kind))
	none := true
	for i := 0; i < len(ds); i++ {
		d := ds[i]
		if d.From.Kind == d.To.Kind && d.From.Message == d.To.Message {
			none = false
		}
		if d.From.Message == nil && !(d.From.Kind == src.Kind && d.To.Kind == tt.Kind) {
			none = false
		}
	}
	zzvrt.Ensures("nothing else is declared", none)
	zzvrt.Ensures("none for a message to itself", len(typeConversionDecls(zzMsgType(from), zzMsgType(from), map[string]struct{}{})) == 0)
}

//verif:property P18
//verif:title every alternative of an enum selector is converted
func contract_decls_selector() {
	f := zzFile("p")
	to := &Type{Kind: types.Enum, Enum: &Enum{Name: "To", File: f}}
	es := []*Type{
		{Kind: types.Enum, Enum: &Enum{Name: "A", File: f}},
		{Kind: types.Enum, Enum: &Enum{Name: "B", File: f}},
		{Kind: types.Enum, Enum: &Enum{Name: "C", File: f}},
		to,
	}
	zzvrt.Ensures("the selector is the one of the library", zzSelector(to, to).Message.FQDN() == grpcfedcel.EnumSelectorFQDN)
	// the first selector selects from two fixed enums, the second from any
	x, y := es[0], es[1]
	pick := func(name string) *Type {
		switch zzvrt.Choice(name, 4) {
		case 0:
			return es[0]
		case 1:
			return es[1]
		case 2:
			return es[2]
		default:
			return es[3]
		}
	}
	z, w := pick("z"), pick("w")
	first := zzSelector(x, y)
	second := zzSelector(z, w)
	if zzvrt.Bool("nested") {
		second = zzSelector(z, zzSelector(w, z))
	}
	target := to
	if zzvrt.Bool("repeated") {
		first.Repeated, second.Repeated = true, true
		target = &Type{Kind: types.Enum, Enum: to.Enum, Repeated: true}
	}
	seen := map[string]struct{}{}
	ds := typeConversionDecls(first, target, seen)
	ds = append(ds, typeConversionDecls(second, target, seen)...)
	zzvrt.Ensures("first alternative", zzDeclares(ds, x, to) == (x != to))
	zzvrt.Ensures("second alternative", zzDeclares(ds, y, to) == (y != to))
	zzvrt.Ensures("first alternative of another selector", zzDeclares(ds, z, to) == (z != to))
	zzvrt.Ensures("second alternative of another selector", zzDeclares(ds, w, to) == (w != to))
	only := true
	for i := 0; i < len(ds); i++ {
		d := ds[i]
		if d.To.Enum != to.Enum || d.From.Enum == to.Enum || d.From.Message != nil {
			only = false
		}
	}
	zzvrt.Ensures("nothing else is declared", only)
}

//verif:property P18
//verif:title where a field takes its value from
func contract_source_types() {
	a, b := &Type{Kind: zzFewKinds("a")}, &Type{Kind: zzFewKinds("b")}
	to := &Type{Kind: zzFewKinds("to")}
	f := &Field{Name: "x", Type: to}
	var want []*Type
	shape := zzvrt.Choice("shape", 6)
	switch shape {
	case 1:
		f.Rule = &FieldRule{Value: &Value{CEL: &CELValue{Out: a}}}
		want = []*Type{a}
	case 2:
		f.Rule = &FieldRule{Aliases: []*Field{{Name: "p", Type: a}, {Name: "q", Type: b}}}
		want = []*Type{a, b}
	case 3:
		f.Rule = &FieldRule{AutoBindField: &AutoBindField{Field: &Field{Name: "x", Type: a}}}
		want = []*Type{a}
	case 4:
		f.Rule = &FieldRule{Oneof: &FieldOneofRule{By: &CELValue{Out: a}}}
		want = []*Type{a}
	case 5:
		f.Rule = &FieldRule{CustomResolver: true}
	}
	got := f.SourceTypes()
	ok := len(got) == len(want)
	for i := 0; i < len(want); i++ {
		if ok && got[i] != want[i] {
			ok = false
		}
	}
	zzvrt.Ensures("every source", ok)
	need := false
	for i := 0; i < len(want); i++ {
		if want[i].Kind != to.Kind {
			need = true
		}
	}
	zzvrt.Ensures("a conversion is required exactly when a source differs", f.RequiredTypeConversion() == need)
	ds := f.TypeConversionDecls()
	for i := 0; i < len(want); i++ {
		zzvrt.Ensures("each differing source is declared", zzDeclares(ds, want[i], to) == (want[i].Kind != to.Kind))
	}
	zzvrt.Ensures("none without a difference", need || len(ds) == 0)
	f.Rule = &FieldRule{CustomResolver: true, Value: &Value{CEL: &CELValue{Out: a}}}
	zzvrt.Ensures("a field with its own resolver is not converted", !f.RequiredTypeConversion() && len(f.TypeConversionDecls()) == 0)
}

// zzGraph draws messages of two packages whose equally named fields are compatible.
func zzGraph() (from, to []*Message) {
	fp, tp := zzFile("from"), zzFile("to")
	enums := [][2]*Enum{}
	for i := 0; i < 2; i++ {
		enums = append(enums, [2]*Enum{
			{Name: []string{"E", "F"}[i], File: fp}, {Name: []string{"E", "F"}[i], File: tp},
		})
	}
	shared := &Message{File: zzFile("shared"), Name: "S", Fields: []*Field{{Name: "a", Type: &Type{Kind: types.Int32}}}}
	n := 3
	for i := 0; i < n; i++ {
		name := []string{"L", "M", "N"}[i]
		from = append(from, &Message{File: fp, Name: name})
		to = append(to, &Message{File: tp, Name: name})
	}
	elem := func(i, j int) (*Type, *Type) {
		switch zzvrt.Choice("elem", 5, j) {
		case 0, 1:
			num := []types.Kind{types.Int32, types.Int64, types.Uint64, types.Float}
			return &Type{Kind: num[zzvrt.Choice("fk", 4, i, j)]}, &Type{Kind: num[zzvrt.Choice("tk", 4, i, j)]}
		case 2:
			return &Type{Kind: types.Enum, Enum: enums[zzvrt.Choice("fe", 2, i, j)][0]},
				&Type{Kind: types.Enum, Enum: enums[zzvrt.Choice("te", 2, i, j)][1]}
		case 3:
			return &Type{Kind: types.Message, Message: shared}, &Type{Kind: types.Message, Message: shared}
		default:
			return &Type{Kind: types.Message, Message: from[zzvrt.Choice("fm", n, i, j)]},
				&Type{Kind: types.Message, Message: to[zzvrt.Choice("tm", n, i, j)]}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < zzvrt.Choice("fields", 4, i); j++ {
			ft, tt := elem(i, j)
			switch zzvrt.Choice("shape", 4, j) {
			case 0:
				ft.Repeated, tt.Repeated = true, true
			case 1:
				kinds := []types.Kind{types.Int32, types.Int64, types.String}
				ft = NewMapType(&Type{Kind: kinds[zzvrt.Choice("key", 3, i, j)]}, ft)
				tt = NewMapType(&Type{Kind: kinds[zzvrt.Choice("key", 3, i, j)]}, tt)
			}
			name := []string{"a", "b", "c"}[j]
			ff := &Field{Name: name, Type: ft, Message: from[i]}
			tf := &Field{Name: name, Type: tt, Message: to[i]}
			if zzvrt.Bool("renamed", i, j) {
				tf.Name = "new_" + name
				if zzvrt.Bool("aliased", i, j) {
					tf.Rule = &FieldRule{Aliases: []*Field{ff}}
				}
			}
			from[i].Fields = append(from[i].Fields, ff)
			to[i].Fields = append(to[i].Fields, tf)
		}
	}
	return from, to
}

func zzSame(a, b *Type) bool {
	if a.Kind == types.Message && b.Kind == types.Message && a.Message.IsMapEntry && b.Message.IsMapEntry {
		return zzSame(a.Message.Fields[0].Type, b.Message.Fields[0].Type) && zzSame(a.Message.Fields[1].Type, b.Message.Fields[1].Type)
	}
	return a.Kind == b.Kind && a.Message == b.Message && a.Enum == b.Enum
}

func zzTypeText(t *Type) string {
	ret := ""
	if t.Repeated {
		ret = "repeated "
	}
	switch {
	case t.Message != nil && t.Message.IsMapEntry:
		return "map<" + zzTypeText(t.Message.Fields[0].Type) + "," + zzTypeText(t.Message.Fields[1].Type) + ">"
	case t.Message != nil:
		return ret + t.Message.File.Package.Name + "." + t.Message.Name
	case t.Enum != nil:
		return ret + t.Enum.File.Package.Name + "." + t.Enum.Name
	}
	return ret + t.Kind.ToString()
}

func zzPairText(a, b *Type) string { return zzTypeText(a) + " to " + zzTypeText(b) }

// zzClosure is the set of the pairs of different types reached from a pair.
func zzClosure(a, b *Type, seen map[string]bool) {
	if zzSame(a, b) || seen[zzPairText(a, b)] {
		return
	}
	seen[zzPairText(a, b)] = true
	switch {
	case a.Message != nil && a.Message.IsMapEntry:
		zzClosure(a.Message.Fields[0].Type, b.Message.Fields[0].Type, seen)
		zzClosure(a.Message.Fields[1].Type, b.Message.Fields[1].Type, seen)
	case a.Repeated:
		zzClosure(&Type{Kind: a.Kind, Message: a.Message, Enum: a.Enum}, &Type{Kind: b.Kind, Message: b.Message, Enum: b.Enum}, seen)
	case a.Message != nil:
		for _, tf := range b.Message.Fields {
			for _, ff := range a.Message.Fields {
				if ff.Name == tf.Name || tf.Rule != nil && tf.Rule.Aliases[0] == ff {
					zzClosure(ff.Type, tf.Type, seen)
				}
			}
		}
	}
}

//verif:property P18
//verif:bounded messages of at most three fields, three pairs of messages, drawn at random
//verif:title the declared conversions are exactly those reached from the bound types
//verif:native 4000
func contract_decls_closure() {
	if !zzvrt.Native() {
		return
	}
	from, to := zzGraph()
	a := &Type{Kind: types.Message, Message: from[0]}
	b := &Type{Kind: types.Message, Message: to[zzvrt.Choice("root", 3)]}
	if zzvrt.Bool("list") {
		a.Repeated, b.Repeated = true, true
	}
	m := &Message{Name: "R", File: zzFile("r"), Fields: []*Field{{Name: "x", Type: b, Rule: &FieldRule{Value: &Value{CEL: &CELValue{Out: a}}}}}}
	if zzvrt.Bool("second field") {
		m.Fields = append(m.Fields, &Field{Name: "y", Type: &Type{Kind: types.Message, Message: to[1]},
			Rule: &FieldRule{Value: &Value{CEL: &CELValue{Out: &Type{Kind: types.Message, Message: from[1]}}}}})
	}
	want := map[string]bool{}
	for _, f := range m.Fields {
		zzClosure(f.Rule.Value.CEL.Out, f.Type, want)
	}
	got := map[string]bool{}
	for _, d := range m.TypeConversionDecls() {
		zzvrt.Ensures("no pair is declared twice", !got[zzPairText(d.From, d.To)])
		got[zzPairText(d.From, d.To)] = true
		zzvrt.Ensures("no identical types", !zzSame(d.From, d.To))
	}
	all, only := true, true
	for k := range want {
		all = all && got[k]
	}
	for k := range got {
		only = only && want[k]
	}
	zzvrt.Ensures("every reached pair of different types is declared", all)
	zzvrt.Ensures("only reached pairs are declared", only)
}

//verif:property P18
//verif:bounded one definition of each kind, with three number kinds
//verif:title the conversions of a message come from every place that binds a value
//verif:native 4000
func contract_message_decls() {
	if !zzvrt.Native() {
		return
	}
	f := zzFile("p")
	kinds := []types.Kind{types.Int32, types.Int64, types.Uint64, types.Double}
	ai, bi := zzvrt.Choice("from", 4), zzvrt.Choice("to", 4)
	a, b := &Type{Kind: kinds[ai]}, &Type{Kind: kinds[bi]}
	e1 := &Enum{Name: "E1", File: f}
	e2 := &Enum{Name: "E2", File: f}
	val := func(t *Type) *Value { return &Value{CEL: &CELValue{Out: t}} }
	var def *VariableExpr
	fields := []*Field{}
	want := map[string]bool{}
	if ai != bi {
		want[zzPairText(a, b)] = true
	}
	callee := func() *Message {
		return &Message{Name: "C", File: f, Rule: &MessageRule{MessageArgument: &Message{Name: "CArg", File: f, Fields: []*Field{{Name: "k", Type: &Type{Kind: types.String}}, {Name: "x", Type: b}}}}}
	}
	arg := &Argument{Name: "x", Value: val(a)}
	if zzvrt.Bool("inline") {
		arg = &Argument{Value: &Value{Inline: true, CEL: &CELValue{Out: zzMsgType(&Message{Name: "I", File: f, Fields: []*Field{{Name: "x", Type: a}}})}}}
	}
	args := []*Argument{arg}
	if zzvrt.Bool("another argument first") {
		args = []*Argument{{Name: "k", Value: val(&Type{Kind: types.String})}, arg}
	}
	req := &Message{Name: "Req", File: f, Fields: []*Field{{Name: "k", Type: &Type{Kind: types.String}}, {Name: "x", Type: b}}}
	iter := &Iterator{Name: "i", Source: &VariableDefinition{Name: "src"}}
	switch zzvrt.Choice("where", 8) {
	case 0:
		def = &VariableExpr{Call: &CallExpr{Request: &Request{Type: req, Args: []*Argument{{Name: "unknown", Value: val(a)}, {Name: "k", Value: val(&Type{Kind: types.String})}, {Name: "x", Value: val(a)}}}}}
	case 1:
		of := &OneofField{Field: req.Fields[1]}
		req.Fields[1].Type = &Type{Kind: b.Kind, OneofField: of}
		def = &VariableExpr{Call: &CallExpr{Request: &Request{Type: req, Args: []*Argument{{Name: "x", Value: val(a)}}}}}
	case 2:
		def = &VariableExpr{Message: &MessageExpr{Message: callee(), Args: args}}
	case 3:
		def = &VariableExpr{Map: &MapExpr{Iterator: iter, Expr: &MapIteratorExpr{Message: &MessageExpr{Message: callee(), Args: args}}}}
	case 4:
		def = &VariableExpr{Type: &Type{Kind: types.Enum, Enum: e2}, Enum: &EnumExpr{Enum: e2, By: &CELValue{Out: &Type{Kind: types.Enum, Enum: e1}}}}
		want = map[string]bool{"p.E1 to p.E2": true}
	case 5:
		def = &VariableExpr{Type: &Type{Kind: types.Enum, Enum: e2, Repeated: true}, Map: &MapExpr{Iterator: iter, Expr: &MapIteratorExpr{Enum: &EnumExpr{Enum: e2, By: &CELValue{Out: &Type{Kind: types.Enum, Enum: e1}}}}}}
		want = map[string]bool{"p.E1 to p.E2": true, "repeated p.E1 to repeated p.E2": true}
	case 6:
		fields = append(fields, &Field{Name: "y", Type: b, Rule: &FieldRule{Value: val(a)}})
		fields = append(fields, &Field{Name: "z", Type: b, Rule: &FieldRule{Value: val(b)}})
	default:
		fields = append(fields, &Field{Name: "y", Type: b, Rule: &FieldRule{Value: val(a), CustomResolver: true}}, &Field{Name: "z", Type: a})
		want = map[string]bool{}
	}
	m := &Message{Name: "M", File: f, Fields: fields, Rule: &MessageRule{DefSet: &VariableDefinitionSet{}}}
	other := &VariableDefinition{Name: "o", Expr: &VariableExpr{By: &CELValue{Out: a}}}
	var d *VariableDefinition
	if def != nil {
		d = &VariableDefinition{Name: "d", Expr: def}
	} else {
		d = &VariableDefinition{Name: "nothing"}
	}
	m.Rule.DefSet.Defs = []*VariableDefinition{other, d}
	if zzvrt.Bool("concurrent") {
		m.Rule.DefSet.Groups = []VariableDefinitionGroup{&ConcurrentVariableDefinitionGroup{Starts: []VariableDefinitionGroup{
			&SequentialVariableDefinitionGroup{End: other}, &SequentialVariableDefinitionGroup{End: d}}, End: other}}
	} else {
		m.Rule.DefSet.Groups = []VariableDefinitionGroup{&SequentialVariableDefinitionGroup{Start: &SequentialVariableDefinitionGroup{End: d}, End: other}}
	}
	got := map[string]bool{}
	prev := ""
	for _, d := range m.TypeConversionDecls() {
		got[zzPairText(d.From, d.To)] = true
		zzvrt.Ensures("in the order of the names", prev <= d.FQDN())
		prev = d.FQDN()
	}
	all, only := true, true
	for k := range want {
		all = all && got[k]
	}
	for k := range got {
		only = only && want[k]
	}
	zzvrt.Ensures("every conversion", all)
	zzvrt.Ensures("no other conversion", only)
	zzvrt.Ensures("no message has none", len((*Message)(nil).TypeConversionDecls()) == 0)
}
