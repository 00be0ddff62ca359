package resolver

import (
	"github.com/mercari/grpc-federation/grpc/federation"
	"github.com/mercari/grpc-federation/zzvrt"
	exprv1 "google.golang.org/genproto/googleapis/api/expr/v1alpha1"
)

// zzRefs draws the expressions of a definition and remembers the name each of them refers to.
type zzRefs struct {
	only  int
	n     int
	names []string
	zero  bool
}

func zzCEL(name string) *CELValue {
	return &CELValue{Expr: name, CheckedExpr: &exprv1.CheckedExpr{ReferenceMap: map[int64]*exprv1.Reference{1: {Name: name}}}}
}

// cel is an expression that refers to the name, or none.
func (z *zzRefs) cel(name string) *CELValue {
	z.n++
	present := z.only == 0 || z.only == z.n
	if zzvrt.Native() {
		present = zzvrt.Bool(name)
	}
	if !present {
		return nil
	}
	z.names = append(z.names, name)
	return zzCEL(name)
}

func (z *zzRefs) val(name string) *Value {
	c := z.cel(name)
	if c == nil && z.zero {
		return nil
	}
	return &Value{CEL: c}
}

// zzCELNames is the contract of CELValue.ReferenceNames for the values made by zzCEL.
func zzCELNames(v *CELValue) []string {
	if v == nil {
		return nil
	}
	return []string{v.Expr}
}

// zzUnique is the contract of toUniqueReferenceNames as far as the set of names is concerned.
func zzUnique(names []string) []string { return names }

func zzHasName(names []string, name string) bool {
	for i := 0; i < len(names); i++ {
		if names[i] == name {
			return true
		}
	}
	return false
}

func (z *zzRefs) check(got []string, extra ...string) {
	for i := 0; i < len(z.names); i++ {
		zzvrt.Ensures("every name is found", zzHasName(got, z.names[i]))
	}
	for i := 0; i < len(got); i++ {
		zzvrt.Ensures("every name occurs", zzHasName(z.names, got[i]) || zzHasName(extra, got[i]))
	}
}

func (z *zzRefs) error() *GRPCError {
	return &GRPCError{
		If:                z.cel("if"),
		Message:           z.cel("message"),
		IgnoreAndResponse: z.cel("response"),
		DefSet:            &VariableDefinitionSet{Defs: VariableDefinitions{z.def("local"), z.def("local2")}},
		Details:           GRPCErrorDetails{z.detail("d1 "), z.detail("d2 ")},
	}
}

func (z *zzRefs) def(p string) *VariableDefinition {
	return &VariableDefinition{Name: p, If: z.cel(p + " if"), Expr: &VariableExpr{By: z.cel(p + " by")}}
}

func (z *zzRefs) detail(p string) *GRPCErrorDetail {
	return &GRPCErrorDetail{
		If:     z.cel(p + "if"),
		By:     []*CELValue{z.cel(p + "by1"), z.cel(p + "by2")},
		DefSet: &VariableDefinitionSet{Defs: VariableDefinitions{z.def(p + "def")}},
		Messages: &VariableDefinitionSet{Defs: VariableDefinitions{
			{Name: "_m", Expr: &VariableExpr{Message: &MessageExpr{Args: []*Argument{{Name: "a", Value: z.val(p + "arg")}}}}},
		}},
		PreconditionFailures: []*PreconditionFailure{{Violations: []*PreconditionFailureViolation{
			{Type: z.cel(p + "type"), Subject: z.cel(p + "subject"), Description: z.cel(p + "description")},
			{Type: z.cel(p + "type2")},
		}}},
		BadRequests: []*BadRequest{{FieldViolations: []*BadRequestFieldViolation{
			{Field: z.cel(p + "field"), Description: z.cel(p + "field description")},
		}}},
		LocalizedMessages: []*LocalizedMessage{{Message: z.cel(p + "localized")}, {Message: z.cel(p + "localized2")}},
	}
}

//verif:property P16
//verif:title the names an error refers to
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.CELValue).ReferenceNames zzCELNames
//verif:usemodel github.com/mercari/grpc-federation/resolver.toUniqueReferenceNames zzUnique
func contract_error_refs() {
	z := &zzRefs{only: zzvrt.Size("only"), zero: zzvrt.Bool("no value")}
	e := z.error()
	z.check(e.ReferenceNames())
	z.check((&VariableExpr{Validation: &ValidationExpr{Name: "v", Error: e}}).ReferenceNames())
	zzvrt.Ensures("an error without expressions", len((&GRPCError{}).ReferenceNames()) == 0)
}

//verif:property P16
//verif:title the names a call refers to
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.CELValue).ReferenceNames zzCELNames
//verif:usemodel github.com/mercari/grpc-federation/resolver.toUniqueReferenceNames zzUnique
func contract_call_refs() {
	z := &zzRefs{only: zzvrt.Size("only"), zero: zzvrt.Bool("no value")}
	c := &CallExpr{Request: &Request{Args: []*Argument{
		{Name: "a", Value: z.val("a"), If: z.cel("a if")},
		{Name: "b", Value: z.val("b"), If: z.cel("b if")},
		{Name: "c", Value: z.val("c"), If: z.cel("c if")},
	}}}
	if zzvrt.Bool("retry") {
		c.Retry = &RetryPolicy{If: z.cel("retry if")}
	}
	if zzvrt.Bool("errors") {
		c.Errors = []*GRPCError{{If: z.cel("if1"), Message: z.cel("message1")}, {If: z.cel("if2"), IgnoreAndResponse: z.cel("response2")}}
	}
	z.check((&VariableExpr{Call: c}).ReferenceNames())
	d := &VariableDefinition{Name: "x", If: z.cel("condition"), Expr: &VariableExpr{Call: c}}
	z.check(d.ReferenceNames())
}

//verif:property P16
//verif:title the names a definition of any other kind refers to
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.CELValue).ReferenceNames zzCELNames
//verif:usemodel github.com/mercari/grpc-federation/resolver.toUniqueReferenceNames zzUnique
func contract_def_refs() {
	z := &zzRefs{only: zzvrt.Size("only"), zero: zzvrt.Bool("no value")}
	d := &VariableDefinition{Name: "x", If: z.cel("condition"), Expr: &VariableExpr{}}
	msg := func() *MessageExpr {
		return &MessageExpr{Args: []*Argument{{Name: "a", Value: z.val("a")}, {Name: "b", Value: z.val("b")}, {Name: "c", Value: z.val("c")}}}
	}
	iter, src := "", ""
	it := &Iterator{Name: "it", Source: &VariableDefinition{Name: "src"}}
	kind := zzvrt.Choice("kind", 8)
	switch kind {
	case 0:
		d.Expr.By = z.cel("by")
	case 1:
		d.Expr.Message = msg()
	case 2:
		d.Expr.Enum = &EnumExpr{By: z.cel("enum by")}
	case 3:
		d.Expr.Map = &MapExpr{Iterator: it, Expr: &MapIteratorExpr{By: z.cel("map by")}}
	case 4:
		d.Expr.Map = &MapExpr{Iterator: it, Expr: &MapIteratorExpr{Message: msg()}}
	case 5:
		d.Expr.Map = &MapExpr{Iterator: it, Expr: &MapIteratorExpr{Enum: &EnumExpr{By: z.cel("map enum by")}}}
	case 6:
		d.Expr = nil
	case 7:
		d.Expr.Validation = &ValidationExpr{Error: &GRPCError{If: z.cel("v if"), Message: z.cel("v message")}}
	}
	if kind >= 3 && kind <= 5 {
		iter, src = "it", "src"
	}
	got := d.ReferenceNames()
	z.check(got, iter, src)
	zzvrt.Ensures("the source of an iterator", src == "" || zzHasName(got, src))
	set := &VariableDefinitionSet{Defs: VariableDefinitions{{Name: "y", Expr: &VariableExpr{By: z.cel("other by")}}, d}}
	got = set.ReferenceNames()
	z.check(got, iter, src)
	zzvrt.Ensures("the source of an iterator of a set", src == "" || zzHasName(got, src))
	var none *VariableDefinitionSet
	zzvrt.Ensures("no definitions", len(none.ReferenceNames()) == 0)
}

//verif:property P16
//verif:title the names a message refers to
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.CELValue).ReferenceNames zzCELNames
//verif:usemodel github.com/mercari/grpc-federation/resolver.toUniqueReferenceNames zzUnique
func contract_message_refs() {
	z := &zzRefs{only: zzvrt.Size("only"), zero: zzvrt.Bool("no value")}
	m := &Message{Name: "M"}
	zzvrt.Ensures("no option", len(m.ReferenceNames()) == 0)
	var none *Message
	zzvrt.Ensures("no message", len(none.ReferenceNames()) == 0)
	m.Rule = &MessageRule{}
	if zzvrt.Bool("definitions") {
		m.Rule.DefSet = &VariableDefinitionSet{Defs: VariableDefinitions{z.def("p"), z.def("q")}}
	}
	m.Fields = []*Field{
		{Name: "plain"},
		{Name: "a", Rule: &FieldRule{Value: z.val("a")}},
		{Name: "resolver", Rule: &FieldRule{CustomResolver: true}},
		{Name: "b", Rule: &FieldRule{Oneof: &FieldOneofRule{If: z.cel("oneof if")}}},
		{Name: "c", Rule: &FieldRule{Value: z.val("c")}},
	}
	z.check(m.ReferenceNames())
}

//verif:property P16
//verif:title the names an expression refers to
func contract_cel_refs() {
	var none *CELValue
	zzvrt.Ensures("no expression", len(none.ReferenceNames()) == 0)
	zzvrt.Ensures("not checked", len((&CELValue{Expr: "x"}).ReferenceNames()) == 0)
	pick := func(k int) string {
		switch zzvrt.Choice("reference", 5, k) {
		case 0:
			return ""
		case 1:
			return federation.MessageArgumentVariableName
		case 2:
			return "x"
		case 3:
			return "y.z"
		default:
			return "w"
		}
	}
	refs := map[int64]*exprv1.Reference{}
	var names []string
	for k := 0; k < 3; k++ {
		r := pick(k)
		names = append(names, r)
		refs[int64(k)+1] = &exprv1.Reference{Name: r}
	}
	got := (&CELValue{Expr: "e", CheckedExpr: &exprv1.CheckedExpr{ReferenceMap: refs}}).ReferenceNames()
	for i := 0; i < 3; i++ {
		variable := names[i] != "" && names[i] != federation.MessageArgumentVariableName
		zzvrt.Ensures("every variable, the message argument and functions excepted", zzHasName(got, names[i]) == variable)
	}
	for i := 0; i < len(got); i++ {
		zzvrt.Ensures("nothing else", zzHasName(names, got[i]))
	}
}

//verif:property P16
//verif:title the names are made distinct without losing one
//verif:prove 40000
func contract_unique_refs() {
	n := zzvrt.Size("n")
	names := make([]string, n)
	for i := 0; i < n; i++ {
		names[i] = zzvrt.String("name", i)
	}
	got := toUniqueReferenceNames(names)
	zzvrt.Ensures("none is lost", zzvrt.Forall(0, n, func(i int) bool {
		return zzvrt.Exists(0, len(got), func(j int) bool { return got[j] == names[i] })
	}))
	zzvrt.Ensures("none is added", zzvrt.Forall(0, len(got), func(j int) bool {
		return zzvrt.Exists(0, n, func(i int) bool { return got[j] == names[i] })
	}))
	zzvrt.Ensures("each once", zzvrt.Forall(1, len(got), func(j int) bool { return got[j-1] != got[j] }))
	zzvrt.Ensures("in order", zzvrt.Forall(1, len(got), func(j int) bool { return got[j-1] <= got[j] }))
}
