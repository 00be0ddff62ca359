package resolver

import (
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzFound counts what the search for the messages a message depends on looks into.
type zzFound struct {
	defs, details, errs, calls, msgs, maps, vals int
	from                                         int // the list that is looked into
	b                                            *AllMessageDependencyGraphNodeReferenceBuilder
	n                                            int
}

var zzFound1 *zzFound

func zzFindDef(b *AllMessageDependencyGraphNodeReferenceBuilder, _ *context, def *VariableDefinition, _ *source.VariableDefinitionOptionBuilder) {
	f := zzFound1
	if f.defs < f.n {
		zzvrt.Ensures("the definitions are looked into in order", b == f.b && def == zzvrt.Obj[VariableDefinition]("def", f.defs))
	} else {
		zzvrt.Ensures("then the messages", b == f.b && def == zzvrt.Obj[VariableDefinition]("message", f.defs-f.n))
	}
	f.defs++
}

func zzFindDetail(b *AllMessageDependencyGraphNodeReferenceBuilder, _ *context, d *GRPCErrorDetail, _ *source.GRPCErrorDetailOptionBuilder) {
	f := zzFound1
	zzvrt.Ensures("the details are looked into in order", b == f.b && d == zzvrt.Obj[GRPCErrorDetail]("detail", f.details))
	f.details++
}

func zzFindError(b *AllMessageDependencyGraphNodeReferenceBuilder, _ *context, e *GRPCError, _ *source.GRPCErrorOptionBuilder) {
	f := zzFound1
	zzvrt.Ensures("the errors are looked into in order", b == f.b && e == zzvrt.Obj[GRPCError]("error", f.errs))
	f.errs++
}

func zzFindCall(b *AllMessageDependencyGraphNodeReferenceBuilder, _ *context, e *CallExpr, _ *source.CallExprOptionBuilder) {
	zzvrt.Ensures("the call is looked into", b == zzFound1.b && e == zzvrt.Obj[CallExpr]("call"))
	zzFound1.calls++
}

func zzFindMessage(b *AllMessageDependencyGraphNodeReferenceBuilder, _ *context, e *MessageExpr, _ *source.MessageExprOptionBuilder) {
	zzvrt.Ensures("the message is looked into", b == zzFound1.b && e == zzvrt.Obj[MessageExpr]("message"))
	zzFound1.msgs++
}

func zzFindMap(b *AllMessageDependencyGraphNodeReferenceBuilder, _ *context, e *MapExpr, _ *source.MapExprOptionBuilder) {
	zzvrt.Ensures("the map is looked into", b == zzFound1.b && e == zzvrt.Obj[MapExpr]("map"))
	zzFound1.maps++
}

func zzFindValidation(b *AllMessageDependencyGraphNodeReferenceBuilder, _ *context, e *ValidationExpr, _ *source.ValidationExprOptionBuilder) {
	zzvrt.Ensures("the validation is looked into", b == zzFound1.b && e == zzvrt.Obj[ValidationExpr]("validation"))
	zzFound1.vals++
}

func zzDefs(name string, n int) *VariableDefinitionSet {
	if name == "def" {
		l := make([]*VariableDefinition, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, zzvrt.Obj[VariableDefinition]("def", i))
		}
		return &VariableDefinitionSet{Defs: l}
	}
	l := make([]*VariableDefinition, 0, n)
	for i := 0; i < n; i++ {
		l = append(l, zzvrt.Obj[VariableDefinition]("message", i))
	}
	return &VariableDefinitionSet{Defs: l}
}

//verif:property P17
//verif:title every kind of definition is looked into for the messages it depends on
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildCall zzFindCall
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildMessage zzFindMessage
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildMap zzFindMap
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildValidation zzFindValidation
//verif:abstract (*github.com/mercari/grpc-federation/source.VariableDefinitionOptionBuilder).WithCall
//verif:abstract (*github.com/mercari/grpc-federation/source.VariableDefinitionOptionBuilder).WithMessage
//verif:abstract (*github.com/mercari/grpc-federation/source.VariableDefinitionOptionBuilder).WithMap
//verif:abstract (*github.com/mercari/grpc-federation/source.VariableDefinitionOptionBuilder).WithValidation
func contract_find_in_definition() {
	if zzvrt.Native() {
		return
	}
	b := &AllMessageDependencyGraphNodeReferenceBuilder{}
	f := &zzFound{b: b}
	zzFound1 = f
	def := &VariableDefinition{Name: zzvrt.String("name"), Idx: zzvrt.Int("idx"), Used: zzvrt.Bool("used")}
	if zzvrt.Bool("conditional") {
		def.If = &CELValue{Expr: zzvrt.String("if")}
	}
	kind := zzvrt.Choice("kind", 7)
	e := &VariableExpr{}
	switch kind {
	case 0:
		e = nil
	case 1:
		e.By = &CELValue{}
	case 2:
		e.Call = zzvrt.Obj[CallExpr]("call")
	case 3:
		e.Message = zzvrt.Obj[MessageExpr]("message")
	case 4:
		e.Map = zzvrt.Obj[MapExpr]("map")
	case 5:
		e.Validation = zzvrt.Obj[ValidationExpr]("validation")
	case 6:
		e.Enum = &EnumExpr{}
	}
	def.Expr = e
	b.buildVariableDefinition(&context{}, def, nil)
	one := func(k int) int {
		if kind == k {
			return 1
		}
		return 0
	}
	zzvrt.Ensures("exactly its own expression is looked into, once",
		f.calls == one(2) && f.msgs == one(3) && f.maps == one(4) && f.vals == one(5))
}

//verif:property P17
//verif:title the errors of a call and of a validation are all looked into
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildGRPCError zzFindError
//verif:abstract (*github.com/mercari/grpc-federation/source.CallExprOptionBuilder).WithError
//verif:abstract (*github.com/mercari/grpc-federation/source.ValidationExprOptionBuilder).WithError
func contract_find_in_errors() {
	if zzvrt.Native() {
		return
	}
	b := &AllMessageDependencyGraphNodeReferenceBuilder{}
	f := &zzFound{b: b}
	zzFound1 = f
	n := zzvrt.Size("n")
	errs := make([]*GRPCError, 0, n)
	for i := 0; i < n; i++ {
		errs = append(errs, zzvrt.Obj[GRPCError]("error", i))
	}
	b.buildCall(&context{}, &CallExpr{Errors: errs}, nil)
	zzvrt.Ensures("every error of the call", f.errs == n)
	f.errs = 0
	b.buildValidation(&context{}, &ValidationExpr{Name: zzvrt.String("name"), Error: zzvrt.Obj[GRPCError]("error", 0)}, nil)
	zzvrt.Ensures("the error of the validation", f.errs == 1)
}

//verif:property P17
//verif:title the definitions, messages and details of an error are all looked into
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildVariableDefinition zzFindDef
//verif:abstract (*github.com/mercari/grpc-federation/source.GRPCErrorOptionBuilder).WithDef
//verif:abstract (*github.com/mercari/grpc-federation/source.GRPCErrorOptionBuilder).WithDetail
//verif:abstract (*github.com/mercari/grpc-federation/source.GRPCErrorDetailOptionBuilder).WithDef
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildGRPCErrorDetail zzFindDetail
func contract_find_in_error() {
	if zzvrt.Native() {
		return
	}
	b := &AllMessageDependencyGraphNodeReferenceBuilder{}
	n, m := zzvrt.Size("n"), zzvrt.Size("m")
	f := &zzFound{b: b, n: n}
	zzFound1 = f
	b.buildGRPCError(&context{}, nil, nil)
	zzvrt.Ensures("nothing without an error", f.defs == 0 && f.details == 0)
	details := make([]*GRPCErrorDetail, 0, m)
	for i := 0; i < m; i++ {
		details = append(details, zzvrt.Obj[GRPCErrorDetail]("detail", i))
	}
	b.buildGRPCError(&context{}, &GRPCError{DefSet: zzDefs("def", n), Details: details, Ignore: zzvrt.Bool("ignore")}, nil)
	zzvrt.Ensures("every definition and every detail", f.defs == n && f.details == m)
}

//verif:property P17
//verif:title the definitions and messages of an error's detail are all looked into
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildVariableDefinition zzFindDef
//verif:abstract (*github.com/mercari/grpc-federation/source.GRPCErrorDetailOptionBuilder).WithDef
func contract_find_in_detail() {
	if zzvrt.Native() {
		return
	}
	b := &AllMessageDependencyGraphNodeReferenceBuilder{}
	n, m := zzvrt.Size("n"), zzvrt.Size("m")
	f := &zzFound{b: b, n: n}
	zzFound1 = f
	b.buildGRPCErrorDetail(&context{}, nil, nil)
	zzvrt.Ensures("nothing without a detail", f.defs == 0)
	b.buildGRPCErrorDetail(&context{}, &GRPCErrorDetail{DefSet: zzDefs("def", n), Messages: zzDefs("message", m)}, nil)
	zzvrt.Ensures("every definition and every message", f.defs == n+m)
}

// zzDep is a message that may already be a child, be known or be unknown.
type zzDep struct {
	msg     *Message
	node    *AllMessageDependencyGraphNode
	known   bool
	already bool
}

func zzDependency(b *AllMessageDependencyGraphNodeReferenceBuilder) *zzDep {
	d := &zzDep{msg: &Message{File: zzFile("p"), Name: "D"}, known: zzvrt.Bool("known")}
	if zzvrt.Bool("rules") {
		d.msg.Fields = []*Field{{Name: "f", Rule: &FieldRule{}}}
	} else {
		d.msg.Fields = []*Field{{Name: "f"}}
	}
	d.node = &AllMessageDependencyGraphNode{Message: d.msg}
	other := &AllMessageDependencyGraphNode{}
	b.node = &AllMessageDependencyGraphNode{Message: &Message{File: zzFile("p"), Name: "M"}, Children: []*AllMessageDependencyGraphNode{other}}
	b.msgToNode = map[*Message]*AllMessageDependencyGraphNode{b.node.Message: b.node}
	b.childMap = map[*AllMessageDependencyGraphNode]struct{}{other: {}}
	if d.known {
		b.msgToNode[d.msg] = d.node
		d.already = zzvrt.Bool("already")
		if d.already {
			b.childMap[d.node] = struct{}{}
			b.node.Children = append(b.node.Children, d.node)
			d.node.Parent = append(d.node.Parent, b.node)
		}
	}
	return d
}

func (d *zzDep) check(ctx *context, b *AllMessageDependencyGraphNodeReferenceBuilder) {
	ch := b.node.Children
	zzvrt.Ensures("the message is a child exactly once", len(ch) == 2 && ch[1].Message == d.msg)
	zzvrt.Ensures("a known message is the node all its users share", !d.known || ch[1] == d.node)
	zzvrt.Ensures("the node is its parent exactly once", len(ch[1].Parent) == 1 && ch[1].Parent[0] == b.node)
	_, child := b.childMap[ch[1]]
	zzvrt.Ensures("it is known to be a child", child && len(b.childMap) == 2)
	want := 0
	if !d.known && !zzvrt.Bool("rules") {
		want = 1
	}
	zzvrt.Ensures("a message that cannot be built is reported", zzReported(ctx) == want)
}

func zzDefBuilder() *source.VariableDefinitionOptionBuilder {
	return source.NewMessageBuilder("f", "M").WithOption().WithDef(0)
}

//verif:property P17
//verif:title a message expression makes its message a child exactly once
//verif:abstract (*github.com/mercari/grpc-federation/source.MessageExprOptionBuilder).WithName
//verif:abstract (*github.com/mercari/grpc-federation/source.MessageExprOptionBuilder).Location
func contract_find_message() {
	ctx := newContext()
	b := &AllMessageDependencyGraphNodeReferenceBuilder{}
	d := zzDependency(b)
	builder := &source.MessageExprOptionBuilder{}
	if zzvrt.Native() {
		builder = zzDefBuilder().WithMessage()
	}
	b.buildMessage(ctx, &MessageExpr{Message: d.msg}, builder)
	d.check(ctx, b)
	b.buildMessage(ctx, &MessageExpr{Message: nil}, builder)
	zzvrt.Ensures("a missing message is reported and no child", len(b.node.Children) == 2 && zzReported(ctx) > 0)
}

//verif:property P17
//verif:title a map over a message makes the message a child exactly once
//verif:abstract (*github.com/mercari/grpc-federation/source.MapExprOptionBuilder).WithMessage
//verif:abstract (*github.com/mercari/grpc-federation/source.MessageExprOptionBuilder).WithName
//verif:abstract (*github.com/mercari/grpc-federation/source.MessageExprOptionBuilder).Location
func contract_find_map() {
	ctx := newContext()
	b := &AllMessageDependencyGraphNodeReferenceBuilder{}
	d := zzDependency(b)
	builder := &source.MapExprOptionBuilder{}
	if zzvrt.Native() {
		builder = zzDefBuilder().WithMap()
	}
	b.buildMap(ctx, &MapExpr{Expr: &MapIteratorExpr{Message: &MessageExpr{Message: d.msg}}}, builder)
	d.check(ctx, b)
	before := zzReported(ctx)
	b.buildMap(ctx, &MapExpr{Expr: &MapIteratorExpr{By: &CELValue{}}}, builder)
	b.buildMap(ctx, &MapExpr{}, builder)
	zzvrt.Ensures("another map makes no child", len(b.node.Children) == 2 && zzReported(ctx) == before)
	b.buildMap(ctx, &MapExpr{Expr: &MapIteratorExpr{Message: &MessageExpr{}}}, builder)
	zzvrt.Ensures("a missing message is reported and no child", len(b.node.Children) == 2 && zzReported(ctx) > 0)
}

//verif:property P17
//verif:title the definitions of a message and of its oneof fields are all looked into
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.AllMessageDependencyGraphNodeReferenceBuilder).buildVariableDefinition zzFindDef
//verif:abstract (*github.com/mercari/grpc-federation/source.LocationBuilder).WithMessage
//verif:abstract (*github.com/mercari/grpc-federation/source.MessageBuilder).WithField
//verif:abstract (*github.com/mercari/grpc-federation/source.FieldBuilder).WithOption
//verif:abstract (*github.com/mercari/grpc-federation/source.FieldBuilder).WithOneOf
//verif:abstract (*github.com/mercari/grpc-federation/source.FieldOptionBuilder).WithOneOf
//verif:abstract (*github.com/mercari/grpc-federation/source.FieldOneofBuilder).WithDef
func contract_find_in_message() {
	if zzvrt.Native() {
		return
	}
	n, m := zzvrt.Size("n"), zzvrt.Size("m")
	msg := &Message{File: zzFile("p"), Name: "M", Rule: &MessageRule{DefSet: zzDefs("def", n)}}
	set := zzDefs("message", m)
	at := zzvrt.Choice("oneof field", 4)
	for i := 0; i < 3; i++ {
		f := &Field{Name: zzvrt.String("field", i)}
		switch {
		case i == at:
			f.Rule = &FieldRule{Oneof: &FieldOneofRule{DefSet: set, Default: zzvrt.Bool("default")}}
		case zzvrt.Bool("rule", i):
			f.Rule = &FieldRule{}
		}
		msg.Fields = append(msg.Fields, f)
	}
	b := newAllMessageDependencyGraphNodeReferenceBuilder(map[*Message]*AllMessageDependencyGraphNode{msg: {Message: msg}}, msg)
	zzvrt.Ensures("the children are added to the message's own node", b.node != nil && b.node.Message == msg)
	f := &zzFound{b: b, n: n}
	zzFound1 = f
	b.Build(&context{})
	if at == 3 {
		m = 0
	}
	zzvrt.Ensures("every definition", f.defs == n+m)
}
