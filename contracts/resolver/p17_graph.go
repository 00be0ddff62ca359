package resolver

import (
	"strconv"

	exprv1 "google.golang.org/genproto/googleapis/api/expr/v1alpha1"

	"github.com/mercari/grpc-federation/zzvrt"

	"github.com/mercari/grpc-federation/source"
)

// zzNodes is a list of n different nodes.
func zzNodes(n int) []*MessageDependencyGraphNode {
	l := make([]*MessageDependencyGraphNode, 0, n)
	for i := 0; i < n; i++ {
		l = append(l, zzvrt.Obj[MessageDependencyGraphNode]("node", i))
	}
	if zzvrt.Native() {
		msg := &Message{File: zzFile("p"), Name: "M"}
		for i := range l {
			l[i].BaseMessage, l[i].VariableDefinition = msg, &VariableDefinition{Name: "v" + strconv.Itoa(zzvrt.Choice("v", 9, i))}
		}
	}
	return l
}

// zzGroup stands for the schedule of a node.
type zzGroup struct {
	VariableDefinitionGroup
	node *MessageDependencyGraphNode
}

// zzGroupOf is the contract of createVariableDefinitionGroup for the nodes a node depends on.
func zzGroupOf(_ *MessageDependencyGraph, node *MessageDependencyGraphNode) VariableDefinitionGroup {
	if node == nil {
		return nil
	}
	return &zzGroup{node: node}
}

// zzEnds is the node that a schedule ends with.
func zzEnds(g VariableDefinitionGroup, node *MessageDependencyGraphNode) bool {
	switch g := g.(type) {
	case *zzGroup:
		return g.node == node
	case *SequentialVariableDefinitionGroup:
		return g.End == node.VariableDefinition
	case *ConcurrentVariableDefinitionGroup:
		return g.End == node.VariableDefinition
	}
	return false
}

//verif:property P17
//verif:title a definition is scheduled after the schedule of each definition it depends on
//verif:inductive (*github.com/mercari/grpc-federation/resolver.MessageDependencyGraph).createVariableDefinitionGroup zzGroupOf
//verif:abstract (*github.com/mercari/grpc-federation/resolver.MessageDependencyGraphNode).FQDN
func contract_create_group() {
	n := zzvrt.Size("n")
	parents := zzNodes(n)
	node := newMessageDependencyGraphNode(&Message{File: zzFile("p"), Name: "M"}, &VariableDefinition{Name: "x"})
	node.Parent = append([]*MessageDependencyGraphNode{}, parents...)
	g := &MessageDependencyGraph{}
	got := g.createVariableDefinitionGroup(node)
	zzvrt.Ensures("the schedule ends with the definition", got != nil && zzEnds(got, node))
	switch got := got.(type) {
	case *SequentialVariableDefinitionGroup:
		switch n {
		case 0:
			zzvrt.Ensures("nothing comes before an independent definition", got.Start == nil)
		default:
			zzvrt.Ensures("one dependency comes before it", n == 1 && zzEnds(got.Start, parents[0]))
		}
	case *ConcurrentVariableDefinitionGroup:
		zzvrt.Ensures("one schedule per dependency comes before it", n > 1 && len(got.Starts) == n && len(node.Parent) == n)
		zzvrt.Ensures("each is the schedule of a dependency", zzvrt.Forall(0, n, func(j int) bool { return zzEnds(got.Starts[j], node.Parent[j]) }))
		zzvrt.Ensures("each dependency is scheduled", zzvrt.Forall(0, n, func(i int) bool {
			return zzvrt.Exists(0, n, func(j int) bool { return node.Parent[j] == parents[i] })
		}))
	default:
		zzvrt.Ensures("a schedule", false)
	}
	zzvrt.Ensures("nothing is scheduled for no definition", g.createVariableDefinitionGroup(nil) == nil)
}

// zzBuilder names some place in a file.
func zzBuilder(*Message) *source.MessageBuilder { return source.NewMessageBuilder("f", "M") }

// zzWalk records the walk below one node.
type zzWalk struct {
	i       int
	above   *AllMessageDependencyGraphNode
	target  *AllMessageDependencyGraphNode
	above2  *MessageDependencyGraphNode
	target2 *MessageDependencyGraphNode
}

var zzWalk1 *zzWalk

// zzFault is the outcome of walking the i-th node below.
func zzFault(i int) *LocationError {
	if zzvrt.Choice("cyclic", 4, i) == 0 {
		return zzvrt.Obj[LocationError]("fault", i)
	}
	return nil
}

// zzWalkChild is the contract of the walk for the nodes below: it reports a
// cycle or leaves the visited nodes as they were.
func zzWalkChild(node *AllMessageDependencyGraphNode, visited map[*AllMessageDependencyGraphNode]struct{}, _ []*AllMessageDependencyGraphNode) *LocationError {
	w := zzWalk1
	zzvrt.Ensures("the nodes below are walked in order", node == zzvrt.Obj[AllMessageDependencyGraphNode]("child", w.i))
	_, above := visited[w.above]
	_, own := visited[w.target]
	zzvrt.Ensures("the nodes above and the node itself are known below it", above && own && len(visited) == 2)
	k := w.i
	w.i++
	return zzFault(k)
}

//verif:property P17
//verif:title walking the messages: a node met again below itself is reported, every node below is walked
//verif:inductive github.com/mercari/grpc-federation/resolver.validateAllMessageGraphNodeCyclicDependency zzWalkChild
//verif:usemodel github.com/mercari/grpc-federation/resolver.newMessageBuilderFromMessage zzBuilder
func contract_walk_messages() {
	msg := &Message{File: zzFile("p"), Name: "M"}
	above, target := &AllMessageDependencyGraphNode{Message: msg}, &AllMessageDependencyGraphNode{Message: msg}
	if zzvrt.Native() {
		return
	}
	n := zzvrt.Size("n")
	children := make([]*AllMessageDependencyGraphNode, 0, n)
	for i := 0; i < n; i++ {
		children = append(children, zzvrt.Obj[AllMessageDependencyGraphNode]("child", i))
	}
	target.Children = children
	w := &zzWalk{above: above, target: target}
	zzWalk1 = w
	visited := map[*AllMessageDependencyGraphNode]struct{}{above: {}}
	again := zzvrt.Bool("again")
	if again {
		visited[target] = struct{}{}
	}
	err := validateAllMessageGraphNodeCyclicDependency(target, visited, []*AllMessageDependencyGraphNode{above})
	_, isAbove := visited[above]
	_, isOwn := visited[target]
	switch {
	case again:
		zzvrt.Ensures("a node below itself is reported", err != nil && w.i == 0)
	case err == nil:
		zzvrt.Ensures("every node below was walked", w.i == n)
		zzvrt.Ensures("none of them reports a cycle", zzvrt.Forall(0, n, func(j int) bool { return zzFault(j) == nil }))
		zzvrt.Ensures("the visited nodes are those from above again", isAbove && !isOwn && len(visited) == 1)
	default:
		zzvrt.Ensures("the report of a node below is passed on", 0 < w.i && w.i <= n && err == zzFault(w.i-1))
	}
}

// zzWalkDef is the contract of the walk for the nodes below: it reports a
// cycle or leaves the visited nodes as they were.
func zzWalkDef(node *MessageDependencyGraphNode, visited map[*MessageDependencyGraphNode]struct{}, _ []*MessageDependencyGraphNode) *LocationError {
	w := zzWalk1
	zzvrt.Ensures("the nodes below are walked in order", node == zzvrt.Obj[MessageDependencyGraphNode]("child", w.i))
	_, above := visited[w.above2]
	_, own := visited[w.target2]
	zzvrt.Ensures("the nodes above and the node itself are known below it", above && own && len(visited) == 2)
	k := w.i
	w.i++
	return zzFault(k)
}

//verif:property P17
//verif:title walking the definitions: a node met again below itself is reported, every node below is walked
//verif:inductive github.com/mercari/grpc-federation/resolver.validateMessageNodeCyclicDependency zzWalkDef
//verif:usemodel github.com/mercari/grpc-federation/resolver.newMessageBuilderFromMessage zzBuilder
func contract_walk_definitions() {
	msg := &Message{File: zzFile("p"), Name: "M", Rule: &MessageRule{DefSet: &VariableDefinitionSet{}}}
	above, target := &MessageDependencyGraphNode{BaseMessage: msg}, &MessageDependencyGraphNode{BaseMessage: msg}
	if zzvrt.Native() {
		return
	}
	n := zzvrt.Size("n")
	children := make([]*MessageDependencyGraphNode, 0, n)
	for i := 0; i < n; i++ {
		children = append(children, zzvrt.Obj[MessageDependencyGraphNode]("child", i))
	}
	target.Children = children
	w := &zzWalk{above2: above, target2: target}
	zzWalk1 = w
	visited := map[*MessageDependencyGraphNode]struct{}{above: {}}
	again := zzvrt.Bool("again")
	if again {
		visited[target] = struct{}{}
	}
	err := validateMessageNodeCyclicDependency(target, visited, []*MessageDependencyGraphNode{above})
	_, isAbove := visited[above]
	_, isOwn := visited[target]
	switch {
	case again:
		zzvrt.Ensures("a node below itself is reported", err != nil && w.i == 0)
	case err == nil:
		zzvrt.Ensures("every node below was walked", w.i == n)
		zzvrt.Ensures("none of them reports a cycle", zzvrt.Forall(0, n, func(j int) bool { return zzFault(j) == nil }))
		zzvrt.Ensures("the visited nodes are those from above again", isAbove && !isOwn && len(visited) == 1)
	default:
		zzvrt.Ensures("the report of a node below is passed on", 0 < w.i && w.i <= n && err == zzFault(w.i-1))
	}
}

// zzPlan is a list of definitions: which earlier definitions each one refers
// to, and which of them are validations.
type zzPlan struct {
	n     int
	ref   [6][6]bool
	valid [6]bool
	defs  []*VariableDefinition
}

func (p *zzPlan) build() {
	name := func(i int) string { return "v" + strconv.Itoa(p.n-i) } // not in the order of the definitions
	for i := 0; i < p.n; i++ {
		refs := map[int64]*exprv1.Reference{}
		for j := 0; j < p.n; j++ {
			if p.ref[i][j] {
				refs[int64(j+1)] = &exprv1.Reference{Name: name(j)}
			}
		}
		d := &VariableDefinition{Name: name(i), Expr: &VariableExpr{}}
		val := &CELValue{Expr: "e", CheckedExpr: &exprv1.CheckedExpr{ReferenceMap: refs}}
		if p.valid[i] {
			d.Expr.Validation = &ValidationExpr{Error: &GRPCError{If: val}}
		} else {
			d.Expr.By = val
		}
		p.defs = append(p.defs, d)
	}
}

// before is the set of definitions scheduled before g ends, checking the order inside g.
func (p *zzPlan) before(g VariableDefinitionGroup) map[*VariableDefinition]bool {
	seen := map[*VariableDefinition]bool{}
	var end *VariableDefinition
	add := func(g VariableDefinitionGroup) {
		for d := range p.before(g) {
			seen[d] = true
		}
	}
	switch g := g.(type) {
	case *SequentialVariableDefinitionGroup:
		end = g.End
		if g.Start != nil {
			add(g.Start)
		}
	case *ConcurrentVariableDefinitionGroup:
		end = g.End
		for _, s := range g.Starts {
			add(s)
		}
	}
	for i, d := range p.defs {
		if d != end {
			continue
		}
		for j := 0; j < i; j++ {
			if p.ref[i][j] || p.valid[j] {
				zzvrt.Ensures("after every earlier definition it refers to and every earlier validation", seen[p.defs[j]])
			}
		}
	}
	zzvrt.Ensures("only definitions of the message", end != nil)
	seen[end] = true
	return seen
}

func (p *zzPlan) check() {
	p.build()
	ctx := newContext()
	msg := &Message{File: zzFile("p"), Name: "M", Rule: &MessageRule{DefSet: &VariableDefinitionSet{Defs: p.defs}}}
	setupVariableDefinitionSet(ctx, msg, msg.Rule.DefSet)
	zzvrt.Ensures("earlier definitions are no cyclic dependency", zzReported(ctx) == 0)
	all := map[*VariableDefinition]bool{}
	for _, g := range msg.Rule.DefSet.Groups {
		for d := range p.before(g) {
			all[d] = true
		}
	}
	zzvrt.Ensures("every definition is scheduled", len(all) == p.n)
	zzvrt.Ensures("a schedule lists each of its definitions", len(msg.Rule.DefSet.Groups) > 0 || p.n == 0)
	for _, g := range msg.Rule.DefSet.Groups {
		in := p.before(g)
		listed := map[*VariableDefinition]bool{}
		for _, d := range g.VariableDefinitions() {
			zzvrt.Ensures("a schedule lists its definitions only", in[d])
			listed[d] = true
		}
		zzvrt.Ensures("a schedule lists all of its definitions", len(in) == len(listed))
	}
}

//verif:property P17
//verif:title up to four definitions: every one is scheduled, after those it refers to and after earlier validations
//verif:bounded every reference relation and every choice of validations among up to 4 definitions
//verif:native 1
func contract_schedule_all() {
	if !zzvrt.Native() {
		return
	}
	for n := 0; n <= 4; n++ {
		for m := 0; m < 1<<(n*(n-1)/2); m++ {
			for v := 0; v < 1<<n; v++ {
				p := &zzPlan{n: n}
				k := 0
				for i := 0; i < n; i++ {
					p.valid[i] = v>>i&1 == 1
					for j := 0; j < i; j++ {
						p.ref[i][j] = m>>k&1 == 1
						k++
					}
				}
				p.check()
			}
		}
	}
}

//verif:property P17
//verif:title up to six definitions with references in any direction
//verif:bounded sampled reference relations, own and later names included, among up to 6 definitions
//verif:native 2000
func contract_schedule_some() {
	if !zzvrt.Native() {
		return
	}
	p := &zzPlan{n: zzvrt.Choice("n", 7)}
	for i := 0; i < p.n; i++ {
		p.valid[i] = zzvrt.Choice("valid", 4, i) == 0
		for j := 0; j < p.n; j++ {
			p.ref[i][j] = zzvrt.Bool("ref", i, j)
		}
	}
	p.check()
}

// zzUses makes msg depend on dep by one of the ways a message can be used.
func zzUses(msg, dep *Message, how int) {
	use := &VariableDefinition{Name: "u" + dep.Name, Expr: &VariableExpr{Message: &MessageExpr{Message: dep}}, builder: zzDefBuilder()}
	nested := &VariableDefinitionSet{Defs: VariableDefinitions{use}}
	d := &VariableDefinition{Name: "d" + dep.Name, Expr: &VariableExpr{}, builder: zzDefBuilder()}
	switch how {
	case 0:
		d = use
	case 1:
		d.Expr.Map = &MapExpr{Expr: &MapIteratorExpr{Message: use.Expr.Message}}
	case 2:
		d.Expr.Call = &CallExpr{Errors: []*GRPCError{{}, {DefSet: nested}}}
	case 3:
		d.Expr.Call = &CallExpr{Errors: []*GRPCError{{Details: GRPCErrorDetails{{}, {DefSet: nested}}}}}
	case 4:
		d.Expr.Validation = &ValidationExpr{Error: &GRPCError{DefSet: nested}}
	case 5:
		d.Expr.Validation = &ValidationExpr{Error: &GRPCError{Details: GRPCErrorDetails{{Messages: nested}}}}
	case 6:
		msg.Fields = append(msg.Fields, &Field{Name: "f" + dep.Name, Rule: &FieldRule{Oneof: &FieldOneofRule{DefSet: nested}}})
		return
	}
	msg.Rule.DefSet.Defs = append(msg.Rule.DefSet.Defs, d)
}

type zzDigraph struct {
	n   int
	dep [6][6]bool
}

// cyclic tells whether some message depends on itself, directly or not.
func (g *zzDigraph) cyclic() bool {
	r := g.dep
	for k := 0; k < g.n; k++ {
		for i := 0; i < g.n; i++ {
			for j := 0; j < g.n; j++ {
				r[i][j] = r[i][j] || r[i][k] && r[k][j]
			}
		}
	}
	for i := 0; i < g.n; i++ {
		if r[i][i] {
			return true
		}
	}
	return false
}

func (g *zzDigraph) check(how func(i, j int) int) {
	var msgs []*Message
	for i := 0; i < g.n; i++ {
		msgs = append(msgs, &Message{File: zzFile("p"), Name: "M" + strconv.Itoa(g.n-i), Rule: &MessageRule{DefSet: &VariableDefinitionSet{}}})
	}
	for i, m := range msgs {
		m.File.Name = "f.proto"
		for j := range msgs {
			if g.dep[i][j] {
				zzUses(m, msgs[j], how(i, j))
			}
		}
	}
	ctx := newContext()
	got := CreateAllMessageDependencyGraph(ctx, msgs)
	if g.cyclic() {
		zzvrt.Ensures("messages that depend on one another in a cycle are rejected", got == nil && zzReported(ctx) == 1)
		return
	}
	zzvrt.Ensures("messages without a cycle are accepted", zzReported(ctx) == 0 && (got != nil || g.n == 0))
	if got == nil {
		return
	}
	seen := map[*Message]*AllMessageDependencyGraphNode{}
	var walk func(n *AllMessageDependencyGraphNode)
	walk = func(n *AllMessageDependencyGraphNode) {
		zzvrt.Ensures("one node per message", seen[n.Message] == nil || seen[n.Message] == n)
		seen[n.Message] = n
		for _, c := range n.Children {
			walk(c)
		}
	}
	for _, r := range got.Roots {
		walk(r)
	}
	for i, m := range msgs {
		zzvrt.Ensures("every message is reached from a root", seen[m] != nil)
		root := true
		for j := range msgs {
			uses := 0
			for _, c := range seen[m].Children {
				if c.Message == msgs[j] {
					uses++
				}
			}
			zzvrt.Ensures("a message is a child once exactly where it is used", uses == 1 && g.dep[i][j] || uses == 0 && !g.dep[i][j])
			root = root && !g.dep[j][i]
		}
		found := 0
		for _, r := range got.Roots {
			if r.Message == m {
				found++
			}
		}
		zzvrt.Ensures("the roots are the messages that none depends on", found == 1 && root || found == 0 && !root)
	}
}

//verif:property P17
//verif:title up to three messages: rejected exactly when they depend on one another in a cycle
//verif:bounded every dependency relation among up to 3 messages, each way of using a message
//verif:native 1
func contract_messages_all() {
	if !zzvrt.Native() {
		return
	}
	for n := 0; n <= 3; n++ {
		for m := 0; m < 1<<(n*n); m++ {
			for h := 0; h < 7; h++ {
				g := &zzDigraph{n: n}
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						g.dep[i][j] = m>>(i*n+j)&1 == 1
					}
				}
				g.check(func(int, int) int { return h })
			}
		}
	}
}

//verif:property P17
//verif:title up to six messages used in different ways
//verif:bounded sampled dependency relations among up to 6 messages
//verif:native 3000
func contract_messages_some() {
	if !zzvrt.Native() {
		return
	}
	g := &zzDigraph{n: zzvrt.Choice("n", 7)}
	back := zzvrt.Bool("back")
	for i := 0; i < g.n; i++ {
		for j := 0; j < g.n; j++ {
			g.dep[i][j] = zzvrt.Choice("dep", 3, i, j) == 0 && (j < i || back && zzvrt.Choice("backwards", 4, i, j) == 0)
		}
	}
	g.check(func(i, j int) int { return zzvrt.Choice("how", 7, i, j) })
}
