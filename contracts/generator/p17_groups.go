package generator

import (
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzSchedule is the i-th schedule of a list.
func zzSchedule(i int) resolver.VariableDefinitionGroup {
	if zzvrt.Bool("concurrent", i) {
		return zzvrt.Obj[resolver.ConcurrentVariableDefinitionGroup]("concurrent", i)
	}
	return zzvrt.Obj[resolver.SequentialVariableDefinitionGroup]("sequential", i)
}

func zzSchedules(n int) []resolver.VariableDefinitionGroup {
	l := make([]resolver.VariableDefinitionGroup, 0, n)
	for i := 0; i < n; i++ {
		l = append(l, zzSchedule(i))
	}
	return l
}

//verif:property P17
//verif:title the generated code is given every schedule of a set of definitions, in order
func contract_generated_groups() {
	n := zzvrt.Size("n")
	svc := &Service{file: &File{}}
	set := &VariableDefinitionSet{svc: svc, VariableDefinitionSet: &resolver.VariableDefinitionSet{Groups: zzSchedules(n)}}
	got := set.VariableDefinitionGroups()
	zzvrt.Ensures("as many as there are", len(got) == n)
	zzvrt.Ensures("each in its place", zzvrt.Forall(0, n, func(i int) bool {
		return got[i].VariableDefinitionGroup == zzSchedule(i) && got[i].Service == svc
	}))
	zzvrt.Ensures("none without a set", len((*VariableDefinitionSet)(nil).VariableDefinitionGroups()) == 0)
}

//verif:property P17
//verif:title the generated code is given what comes before a definition and the definition
func contract_generated_group() {
	n := zzvrt.Size("n")
	svc := &Service{file: &File{}}
	var end *resolver.VariableDefinition
	if zzvrt.Bool("end") {
		end = &resolver.VariableDefinition{Name: "x"}
	}
	var g *VariableDefinitionGroup
	start := resolver.VariableDefinitionGroup(nil)
	concurrent := zzvrt.Bool("is concurrent")
	if concurrent {
		g = &VariableDefinitionGroup{Service: svc, VariableDefinitionGroup: &resolver.ConcurrentVariableDefinitionGroup{Starts: zzSchedules(n), End: end}}
	} else {
		if zzvrt.Bool("start") {
			start = zzSchedule(0)
		}
		g = &VariableDefinitionGroup{Service: svc, VariableDefinitionGroup: &resolver.SequentialVariableDefinitionGroup{Start: start, End: end}}
	}
	zzvrt.Ensures("its kind", g.IsConcurrent() == concurrent)
	zzvrt.Ensures("whether it ends with a definition", g.ExistsEnd() == (end != nil))
	zzvrt.Ensures("its definition", g.End() != nil && g.End().VariableDefinition == end && g.End().Service == svc)
	zzvrt.Ensures("whether there is one schedule before it", g.ExistsStart() == (start != nil))
	l := g.Starts()
	if concurrent {
		zzvrt.Ensures("every schedule before it", len(l) == n && zzvrt.Forall(0, n, func(i int) bool {
			return l[i].VariableDefinitionGroup == zzSchedule(i) && l[i].Service == svc
		}))
		return
	}
	zzvrt.Ensures("no other schedules", len(l) == 0)
	if start != nil {
		zzvrt.Ensures("the schedule before it", g.Start().VariableDefinitionGroup == start && g.Start().Service == svc)
	}
}
