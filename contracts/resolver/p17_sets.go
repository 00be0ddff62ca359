package resolver

import (
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzSetup records the sets of definitions that are put in order.
var zzSetup []*VariableDefinitionSet

func zzSetUp(_ *context, _ *Message, set *VariableDefinitionSet) {
	if set != nil {
		zzSetup = append(zzSetup, set)
	}
}

func zzOneMessage(_ *Resolver, files []*File) []*Message { return files[0].Messages }

func zzNoCheck(*Resolver, *context, []*Message) {}

// zzSets are the sets of definitions of a message and the schedules of each.
type zzSets struct {
	sets   []*VariableDefinitionSet
	groups []VariableDefinitionGroup
}

func (z *zzSets) set(defs ...*VariableDefinition) *VariableDefinitionSet {
	g := &SequentialVariableDefinitionGroup{}
	s := &VariableDefinitionSet{Defs: defs, Groups: []VariableDefinitionGroup{g}}
	z.sets = append(z.sets, s)
	z.groups = append(z.groups, g)
	return s
}

func (z *zzSets) err() *GRPCError {
	e := &GRPCError{DefSet: z.set()}
	e.Details = GRPCErrorDetails{{DefSet: z.set(), Messages: z.set()}, {DefSet: z.set(), Messages: z.set()}}
	return e
}

func (z *zzSets) def(name string) *VariableDefinition {
	d := &VariableDefinition{Name: name, Expr: &VariableExpr{}}
	switch zzvrt.Choice(name, 5) {
	case 0:
		d.Expr = nil
	case 1:
		d.Expr.By = &CELValue{}
	case 2:
		d.Expr.Call = &CallExpr{Errors: []*GRPCError{z.err(), z.err()}}
	case 3:
		d.Expr.Validation = &ValidationExpr{Error: z.err()}
	case 4:
		d.Expr.Call = &CallExpr{}
	}
	return d
}

// message is a message with definitions at every place that may have some.
func (z *zzSets) message() *Message {
	m := &Message{Name: "M", File: &File{Package: &Package{Name: "p"}}, Rule: &MessageRule{}}
	m.Rule.DefSet = z.set(z.def("first"), z.def("second"))
	m.Fields = []*Field{
		{Name: "a"},
		{Name: "b", Rule: &FieldRule{}},
		{Name: "c", Rule: &FieldRule{Oneof: &FieldOneofRule{DefSet: z.set(z.def("third"))}}},
	}
	return m
}

//verif:property P17
//verif:title the definitions at every place of a message are put in order
//verif:usemodel github.com/mercari/grpc-federation/resolver.setupVariableDefinitionSet zzSetUp
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.Resolver).allMessages zzOneMessage
//verif:usemodel (*github.com/mercari/grpc-federation/resolver.Resolver).validateMessages zzNoCheck
func contract_sets_in_order() {
	if zzvrt.Native() {
		return
	}
	z := &zzSets{}
	m := z.message()
	zzSetup = nil
	(&Resolver{}).resolveMessageDependencies(&context{}, []*File{{Messages: []*Message{{Name: "none"}, m}}})
	for i := 0; i < len(z.sets); i++ {
		n := 0
		for j := 0; j < len(zzSetup); j++ {
			if zzSetup[j] == z.sets[i] {
				n++
			}
		}
		zzvrt.Ensures("every set of definitions is put in order", n == 1)
	}
}

//verif:property P17
//verif:title the schedules of a message are those of its definitions at every place
func contract_message_schedules() {
	z := &zzSets{}
	m := z.message()
	got := m.VariableDefinitionGroups()
	zzvrt.Ensures("one for each set of definitions", len(got) == len(z.groups))
	for i := 0; i < len(z.groups); i++ {
		n := 0
		for j := 0; j < len(got); j++ {
			if got[j] == z.groups[i] {
				n++
			}
		}
		zzvrt.Ensures("the schedules of every set of definitions", n == 1)
	}
	zzvrt.Ensures("none for a message without definitions", len((&Message{}).VariableDefinitionGroups()) == 0)
}
