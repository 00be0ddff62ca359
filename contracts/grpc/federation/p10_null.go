package federation

import (
	"github.com/google/cel-go/common/operators"
	exprpb "google.golang.org/genproto/googleapis/api/expr/v1alpha1"
	"google.golang.org/protobuf/proto"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzVisits records which expressions are visited, see zzVisitChild.
type zzVisits struct {
	v       *exprVisitor
	kind    int
	i       int
	n       int
	own     int
	p0, p1  int
	p2, p3  int
	p4      int
	half    bool
	halfKey bool
}

var zzVisits1 *zzVisits

// zzVisitChild is the contract of visit for the parts of an expression.
func zzVisitChild(v *exprVisitor, e *exprpb.Expr) {
	z := zzVisits1
	zzvrt.Ensures("the parts are visited by the same visitor", v == z.v)
	if e == nil {
		return // nothing to visit
	}
	switch z.kind {
	case 1, 2, 3:
		if z.kind == 2 && e == zzvrt.Obj[exprpb.Expr]("target") {
			z.p0++
			return
		}
		zzvrt.Ensures("the operands are visited one after the other", e == zzvrt.Obj[exprpb.Expr]("part", z.i))
	case 4:
		zzvrt.Ensures("the values are visited one after the other", e == zzvrt.Obj[exprpb.Expr]("value", z.i))
	case 5:
		isKey := e == zzvrt.Obj[exprpb.Expr]("key", z.i)
		zzvrt.Ensures("the keys and values are visited one entry after the other", isKey || e == zzvrt.Obj[exprpb.Expr]("value", z.i))
		zzvrt.Ensures("a key or a value is visited once", !z.half || z.halfKey != isKey)
		if !z.half {
			z.half, z.halfKey = true, isKey
			return
		}
		z.half, z.halfKey = false, false
	case 6:
		switch e {
		case zzvrt.Obj[exprpb.Expr]("comp", 0):
			z.p0++
		case zzvrt.Obj[exprpb.Expr]("comp", 1):
			z.p1++
		case zzvrt.Obj[exprpb.Expr]("comp", 2):
			z.p2++
		case zzvrt.Obj[exprpb.Expr]("comp", 3):
			z.p3++
		case zzvrt.Obj[exprpb.Expr]("comp", 4):
			z.p4++
		}
	default:
		zzvrt.Ensures("an expression without parts has none visited", false)
	}
	z.i++
}

//verif:property P10
//verif:title an expression of any kind and every part of it are visited exactly once
//verif:inductive (*github.com/mercari/grpc-federation/grpc/federation.exprVisitor).visit zzVisitChild
func contract_visit() {
	if zzvrt.Native() {
		return
	}
	n := zzvrt.Size("n")
	z := &zzVisits{kind: zzvrt.Choice("kind", 8)}
	zzVisits1 = z
	e := &exprpb.Expr{Id: zzvrt.Int64("id")}
	target := 0
	switch z.kind {
	case 0:
		e.ExprKind = &exprpb.Expr_ConstExpr{ConstExpr: &exprpb.Constant{}}
	case 1:
		z.n = 1
		n = 1
		e.ExprKind = &exprpb.Expr_SelectExpr{SelectExpr: &exprpb.Expr_Select{Operand: zzvrt.Obj[exprpb.Expr]("part", 0), Field: zzvrt.String("field"), TestOnly: zzvrt.Bool("test")}}
	case 2, 3:
		z.n = n
		parts := make([]*exprpb.Expr, 0, n)
		for i := 0; i < n; i++ {
			parts = append(parts, zzvrt.Obj[exprpb.Expr]("part", i))
		}
		if z.kind == 3 {
			e.ExprKind = &exprpb.Expr_ListExpr{ListExpr: &exprpb.Expr_CreateList{Elements: parts}}
			break
		}
		call := &exprpb.Expr_Call{Function: zzvrt.String("function"), Args: parts}
		if z.kind == 2 && zzvrt.Bool("member") {
			call.Target = zzvrt.Obj[exprpb.Expr]("target")
			target = 1
		}
		e.ExprKind = &exprpb.Expr_CallExpr{CallExpr: call}
	case 4, 5:
		entries := make([]*exprpb.Expr_CreateStruct_Entry, 0, n)
		for i := 0; i < n; i++ {
			if z.kind == 4 {
				entries = append(entries, &exprpb.Expr_CreateStruct_Entry{KeyKind: &exprpb.Expr_CreateStruct_Entry_FieldKey{FieldKey: zzvrt.String("field")}, Value: zzvrt.Obj[exprpb.Expr]("value", i)})
			} else {
				entries = append(entries, &exprpb.Expr_CreateStruct_Entry{KeyKind: &exprpb.Expr_CreateStruct_Entry_MapKey{MapKey: zzvrt.Obj[exprpb.Expr]("key", i)}, Value: zzvrt.Obj[exprpb.Expr]("value", i)})
			}
		}
		e.ExprKind = &exprpb.Expr_StructExpr{StructExpr: &exprpb.Expr_CreateStruct{MessageName: zzvrt.String("name"), Entries: entries}}
	case 6:
		n = 5
		e.ExprKind = &exprpb.Expr_ComprehensionExpr{ComprehensionExpr: &exprpb.Expr_Comprehension{
			IterRange: zzvrt.Obj[exprpb.Expr]("comp", 0), AccuInit: zzvrt.Obj[exprpb.Expr]("comp", 1), LoopCondition: zzvrt.Obj[exprpb.Expr]("comp", 2),
			LoopStep: zzvrt.Obj[exprpb.Expr]("comp", 3), Result: zzvrt.Obj[exprpb.Expr]("comp", 4),
		}}
	case 7:
		e.ExprKind = &exprpb.Expr_IdentExpr{IdentExpr: &exprpb.Expr_Ident{Name: zzvrt.String("name")}}
	}
	if z.kind == 0 || z.kind == 7 {
		n = 0
	}
	v := &exprVisitor{callback: func(x *exprpb.Expr) {
		zzvrt.Ensures("the callback is given the expression", x == e)
		z.own++
	}}
	z.v = v
	v.visit(e)
	zzvrt.Ensures("the expression itself once", z.own == 1)
	zzvrt.Ensures("every part once", z.i == n && (z.kind != 2 || z.p0 == target))
	if z.kind == 6 {
		zzvrt.Ensures("every part of a comprehension once", z.p0 == 1 && z.p1 == 1 && z.p2 == 1 && z.p3 == 1 && z.p4 == 1)
	}
	v.visit(nil)
	zzvrt.Ensures("nothing for a missing expression", z.own == 1 && z.i == n && (z.kind != 2 || z.p0 == target))
}

// zzOperand is an operand of a comparison.
func zzOperand(name string) (*exprpb.Expr, int) {
	e := &exprpb.Expr{Id: zzvrt.Int64("id " + name)}
	kind := zzvrt.Choice(name, 6)
	switch kind {
	case 0:
		e.ExprKind = &exprpb.Expr_ConstExpr{ConstExpr: &exprpb.Constant{ConstantKind: &exprpb.Constant_NullValue{}}}
	case 1:
		e.ExprKind = &exprpb.Expr_CallExpr{CallExpr: &exprpb.Expr_Call{Function: grpcfedcel.CastNullValueFunc, Args: []*exprpb.Expr{{Id: 9}}}}
	case 2:
		e.ExprKind = &exprpb.Expr_ConstExpr{ConstExpr: &exprpb.Constant{ConstantKind: &exprpb.Constant_Int64Value{Int64Value: zzvrt.Int64("value " + name)}}}
	case 3:
		e.ExprKind = &exprpb.Expr_CallExpr{CallExpr: &exprpb.Expr_Call{Function: zzvrt.String("function " + name)}}
		zzvrt.Requires(zzvrt.String("function "+name) != grpcfedcel.CastNullValueFunc)
	case 4:
		e.ExprKind = &exprpb.Expr_SelectExpr{SelectExpr: &exprpb.Expr_Select{Field: zzvrt.String("field " + name)}}
	case 5:
		e.ExprKind = &exprpb.Expr_IdentExpr{IdentExpr: &exprpb.Expr_Ident{Name: zzvrt.String("ident " + name)}}
	}
	return e, kind
}

//verif:property P10
//verif:title the operand of a comparison with null is found, and none of any other call
func contract_find_operand() {
	l, lk := zzOperand("left")
	r, rk := zzOperand("right")
	fn := operators.Equals
	cmp := true
	switch zzvrt.Choice("function", 3) {
	case 1:
		fn = operators.NotEquals
	case 2:
		fn = zzvrt.String("fn")
		cmp = fn == operators.Equals || fn == operators.NotEquals
	}
	e := &exprpb.Expr{Id: zzvrt.Int64("id"), ExprKind: &exprpb.Expr_CallExpr{CallExpr: &exprpb.Expr_Call{Function: fn, Args: []*exprpb.Expr{l, r}}}}
	s := newComparingNullResolver()
	got := s.lookupComparingNullCallExpr(e)
	switch {
	case cmp && lk == 0 && rk != 0 && rk != 1:
		zzvrt.Ensures("the right operand is found", got == r)
	case cmp && rk == 0 && lk != 0 && lk != 1:
		zzvrt.Ensures("the left operand is found", got == l)
	default:
		zzvrt.Ensures("no operand is found", got == nil)
	}
	zzvrt.Ensures("a call of any other number of operands is left alone", s.lookupComparingNullCallExpr(&exprpb.Expr{ExprKind: &exprpb.Expr_CallExpr{CallExpr: &exprpb.Expr_Call{Function: "size"}}}) == nil)
}

var zzFound *exprpb.Expr

func zzLookup(s *comparingNullResolver, e *exprpb.Expr) *exprpb.Expr {
	zzvrt.Ensures("the operand of the expression is looked for", e == zzvrt.Obj[exprpb.Expr]("call"))
	return zzFound
}

//verif:property P10
//verif:title the operand found is wrapped once, under an identifier of its own, and nothing else is touched
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation.comparingNullResolver).lookupComparingNullCallExpr zzLookup
func contract_wrap() {
	if zzvrt.Native() {
		return
	}
	e := zzvrt.Obj[exprpb.Expr]("call")
	var o *exprpb.Expr
	kind := zzvrt.Choice("kind", 5)
	if kind > 0 {
		o, _ = zzOperand("operand")
	}
	zzFound = o
	refs, typs := map[int64]*exprpb.Reference{}, map[int64]*exprpb.Type{}
	last := zzvrt.Int64("last")
	zzvrt.Requires(last >= 0 && last < 1<<62)
	s := &comparingNullResolver{checkedExpr: &exprpb.CheckedExpr{Expr: e, ReferenceMap: refs, TypeMap: typs}, lastID: last}
	was := zzvrt.Bool("already")
	s.resolved = was
	if o == nil {
		s.resolveCallExpr(e)
		zzvrt.Ensures("nothing is rewritten", s.resolved == was && len(refs) == 0 && len(typs) == 0 && s.lastID == last)
		return
	}
	id, ex := o.Id, o.ExprKind
	s.resolveCallExpr(e)
	w, ok := o.ExprKind.(*exprpb.Expr_CallExpr)
	zzvrt.Ensures("the operand becomes a call", ok)
	c := w.CallExpr
	zzvrt.Ensures("of the cast of null with the operand alone", c.Function == grpcfedcel.CastNullValueFunc && len(c.Args) == 1 && c.Target == nil)
	zzvrt.Ensures("which is what it was", c.Args[0] != o && c.Args[0].Id == id && any(c.Args[0].ExprKind) == any(ex))
	zzvrt.Ensures("under an identifier greater than any before", o.Id > last && s.lastID >= o.Id)
	ref, typ := refs[o.Id], typs[o.Id]
	zzvrt.Ensures("which has a reference to the overload", len(refs) == 1 && ref != nil && len(ref.OverloadId) == 1 && ref.OverloadId[0] == grpcfedcel.CastNullValueFunc)
	zzvrt.Ensures("and a type", len(typs) == 1 && typ != nil)
	_, dyn := typ.TypeKind.(*exprpb.Type_Dyn)
	zzvrt.Ensures("which is dynamic", dyn)
	zzvrt.Ensures("the rewriting is reported", s.resolved)
}

//verif:property P10
//verif:title identifiers are given out above all those of the expression
func contract_identifiers() {
	if zzvrt.Native() {
		return
	}
	refs, typs := zzvrt.Any[map[int64]*exprpb.Reference]("refs"), zzvrt.Any[map[int64]*exprpb.Type]("types")
	a := zzvrt.Int64("a")
	_, isRef := refs[a]
	_, isTyp := typs[a]
	zzvrt.Requires((isRef || isTyp) && a < 1<<62)
	s := newComparingNullResolver()
	s.resolved = zzvrt.Bool("resolved before")
	x := &exprpb.CheckedExpr{ReferenceMap: refs, TypeMap: typs}
	s.init(x)
	zzvrt.Ensures("nothing is rewritten yet", !s.resolved && s.checkedExpr == x)
	last := s.lastID
	zzvrt.Ensures("no identifier of the references or of the types is above the last", a <= last)
	n := s.nextID()
	zzvrt.Requires(last < 1<<62)
	zzvrt.Ensures("the next is above the last", n > last && s.lastID == n)
	zzvrt.Ensures("and every other above the one before", s.nextID() > n)
}

type zzResolving struct {
	s      *comparingNullResolver
	init   int
	visits int
	calls  int
	report bool
}

var zzResolving1 *zzResolving

func zzInit(s *comparingNullResolver, x *exprpb.CheckedExpr) {
	z := zzResolving1
	zzvrt.Ensures("the state is set up for the expression given, first", s == z.s && x == zzvrt.Obj[exprpb.CheckedExpr]("checked") && z.visits == 0 && z.init == 0)
	z.init++
	s.checkedExpr = x
	s.resolved = false
}

func zzVisitRoot(v *exprVisitor, e *exprpb.Expr) {
	z := zzResolving1
	zzvrt.Ensures("the whole expression is visited once, after the set up", e == zzvrt.Obj[exprpb.Expr]("root") && z.visits == 0 && z.init == 1)
	z.visits++
	call := zzvrt.Obj[exprpb.Expr]("some part")
	switch zzvrt.Choice("kind", 6) {
	case 0:
		call.ExprKind = &exprpb.Expr_CallExpr{CallExpr: &exprpb.Expr_Call{Function: "f"}}
		v.callback(call)
		zzvrt.Ensures("a call is looked at", z.calls == 1)
		v.callback(call)
		zzvrt.Ensures("and so is the next", z.calls == 2)
	case 1:
		call.ExprKind = &exprpb.Expr_ConstExpr{ConstExpr: &exprpb.Constant{}}
		v.callback(call)
	case 2:
		call.ExprKind = &exprpb.Expr_SelectExpr{SelectExpr: &exprpb.Expr_Select{}}
		v.callback(call)
	case 3:
		call.ExprKind = &exprpb.Expr_ListExpr{ListExpr: &exprpb.Expr_CreateList{}}
		v.callback(call)
	case 4:
		call.ExprKind = &exprpb.Expr_ComprehensionExpr{ComprehensionExpr: &exprpb.Expr_Comprehension{}}
		v.callback(call)
	}
}

func zzResolveCall(s *comparingNullResolver, e *exprpb.Expr) {
	z := zzResolving1
	zzvrt.Ensures("the part is looked at by the same resolver", s == z.s && e == zzvrt.Obj[exprpb.Expr]("some part") && e.GetCallExpr() != nil)
	z.calls++
	if z.report {
		s.resolved = true
	}
}

//verif:property P10
//verif:title every call of the expression is looked at, and it is reported whether anything was rewritten
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation.comparingNullResolver).init zzInit
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation.comparingNullResolver).resolveCallExpr zzResolveCall
//verif:usemodel (*github.com/mercari/grpc-federation/grpc/federation.exprVisitor).visit zzVisitRoot
func contract_resolve_null() {
	if zzvrt.Native() {
		return
	}
	s := newComparingNullResolver()
	z := &zzResolving{s: s, report: zzvrt.Bool("rewritten")}
	zzResolving1 = z
	x := zzvrt.Obj[exprpb.CheckedExpr]("checked")
	x.Expr = zzvrt.Obj[exprpb.Expr]("root")
	got := s.Resolve(x)
	zzvrt.Ensures("the expression is visited", z.visits == 1)
	zzvrt.Ensures("it is reported whether something was rewritten", got == (z.report && z.calls > 0))
}

type zzTree struct {
	n      int
	budget int
	typs   map[int64]*exprpb.Type
	refs   map[int64]*exprpb.Reference
}

func (t *zzTree) id() int64 {
	t.n++
	t.typs[int64(t.n)] = &exprpb.Type{}
	return int64(t.n)
}

func zzCallOf(id int64, fn string, target *exprpb.Expr, args ...*exprpb.Expr) *exprpb.Expr {
	return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_CallExpr{CallExpr: &exprpb.Expr_Call{Function: fn, Target: target, Args: args}}}
}

// expr is an expression made of what its list of choices says.
func (t *zzTree) expr(depth int) *exprpb.Expr {
	id := t.id()
	kind := 0
	if depth > 0 && t.budget > 0 {
		kind = zzvrt.Choice("node", 9, t.n)
	}
	t.budget--
	switch kind {
	case 1:
		return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_SelectExpr{SelectExpr: &exprpb.Expr_Select{Operand: t.expr(depth - 1), Field: "f"}}}
	case 2, 3:
		fn := operators.Equals
		if zzvrt.Bool("different", t.n) {
			fn = operators.NotEquals
		}
		l, r := t.expr(depth-1), t.expr(depth-1)
		return zzCallOf(id, fn, nil, l, r)
	case 4:
		var args []*exprpb.Expr
		for i := 0; i < zzvrt.Choice("args", 3, t.n); i++ {
			args = append(args, t.expr(depth-1))
		}
		fn := "f"
		if len(args) == 1 && zzvrt.Choice("cast", 4, t.n) == 0 {
			fn = grpcfedcel.CastNullValueFunc
		}
		var target *exprpb.Expr
		if zzvrt.Bool("member", t.n) {
			target = t.expr(depth - 1)
		}
		return zzCallOf(id, fn, target, args...)
	case 5:
		var l []*exprpb.Expr
		for i := 0; i < zzvrt.Choice("elements", 3, t.n); i++ {
			l = append(l, t.expr(depth-1))
		}
		return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_ListExpr{ListExpr: &exprpb.Expr_CreateList{Elements: l}}}
	case 6, 7:
		var l []*exprpb.Expr_CreateStruct_Entry
		for i := 0; i < zzvrt.Choice("entries", 3, t.n); i++ {
			ent := &exprpb.Expr_CreateStruct_Entry{Id: t.id()}
			if kind == 6 {
				ent.KeyKind = &exprpb.Expr_CreateStruct_Entry_FieldKey{FieldKey: "f"}
			} else {
				ent.KeyKind = &exprpb.Expr_CreateStruct_Entry_MapKey{MapKey: t.expr(depth - 1)}
			}
			ent.Value = t.expr(depth - 1)
			l = append(l, ent)
		}
		return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_StructExpr{StructExpr: &exprpb.Expr_CreateStruct{Entries: l}}}
	case 8:
		return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_ComprehensionExpr{ComprehensionExpr: &exprpb.Expr_Comprehension{
			IterVar: "v", IterRange: t.expr(depth - 1), AccuVar: "a", AccuInit: t.expr(depth - 1), LoopCondition: t.expr(depth - 1),
			LoopStep: t.expr(depth - 1), Result: t.expr(depth - 1),
		}}}
	}
	switch zzvrt.Choice("leaf", 4, t.n) {
	case 0:
		return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_IdentExpr{IdentExpr: &exprpb.Expr_Ident{Name: "x"}}}
	case 1:
		return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_ConstExpr{ConstExpr: &exprpb.Constant{ConstantKind: &exprpb.Constant_Int64Value{Int64Value: 1}}}}
	}
	return &exprpb.Expr{Id: id, ExprKind: &exprpb.Expr_ConstExpr{ConstExpr: &exprpb.Constant{ConstantKind: &exprpb.Constant_NullValue{}}}}
}

func zzIsNull(e *exprpb.Expr) bool {
	_, ok := e.GetConstExpr().GetConstantKind().(*exprpb.Constant_NullValue)
	return ok
}

// zzSameRewritten compares what was with what became of it.
func (t *zzTree) same(a, b *exprpb.Expr, seen map[int64]bool, wrap bool, wraps *int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if seen[b.Id] {
		return false
	}
	seen[b.Id] = true
	if wrap {
		*wraps++
		c := b.GetCallExpr()
		ref := t.refs[b.Id]
		if b.Id <= int64(t.n) || t.typs[b.Id] == nil || ref == nil || len(ref.OverloadId) != 1 || ref.OverloadId[0] != grpcfedcel.CastNullValueFunc ||
			c.GetFunction() != grpcfedcel.CastNullValueFunc || c.GetTarget() != nil || len(c.GetArgs()) != 1 {
			return false
		}
		return t.same(a, c.Args[0], seen, false, wraps)
	}
	if a.Id != b.Id {
		return false
	}
	all := func(as, bs []*exprpb.Expr) bool {
		if len(as) != len(bs) {
			return false
		}
		for i := range as {
			if !t.same(as[i], bs[i], seen, false, wraps) {
				return false
			}
		}
		return true
	}
	switch x := a.ExprKind.(type) {
	case *exprpb.Expr_CallExpr:
		y := b.GetCallExpr()
		c := x.CallExpr
		if c.Function != y.GetFunction() || !t.same(c.Target, y.GetTarget(), seen, false, wraps) {
			return false
		}
		if (c.Function == operators.Equals || c.Function == operators.NotEquals) && zzIsNull(c.Args[0]) != zzIsNull(c.Args[1]) {
			w := 0
			if zzIsNull(c.Args[0]) {
				w = 1
			}
			if c.Args[w].GetCallExpr().GetFunction() != grpcfedcel.CastNullValueFunc {
				return len(y.Args) == 2 && t.same(c.Args[0], y.Args[0], seen, w == 0, wraps) && t.same(c.Args[1], y.Args[1], seen, w == 1, wraps)
			}
		}
		return all(c.Args, y.Args)
	case *exprpb.Expr_SelectExpr:
		y := b.GetSelectExpr()
		return y != nil && x.SelectExpr.Field == y.Field && t.same(x.SelectExpr.Operand, y.Operand, seen, false, wraps)
	case *exprpb.Expr_ListExpr:
		y := b.GetListExpr()
		return y != nil && all(x.ListExpr.Elements, y.Elements)
	case *exprpb.Expr_StructExpr:
		y := b.GetStructExpr()
		if y == nil || len(x.StructExpr.Entries) != len(y.Entries) {
			return false
		}
		for i, ent := range x.StructExpr.Entries {
			o := y.Entries[i]
			if ent.Id != o.Id || ent.GetFieldKey() != o.GetFieldKey() || !t.same(ent.GetMapKey(), o.GetMapKey(), seen, false, wraps) || !t.same(ent.Value, o.Value, seen, false, wraps) {
				return false
			}
		}
		return true
	case *exprpb.Expr_ComprehensionExpr:
		y := b.GetComprehensionExpr()
		c := x.ComprehensionExpr
		return y != nil && c.IterVar == y.IterVar && c.AccuVar == y.AccuVar && all([]*exprpb.Expr{c.IterRange, c.AccuInit, c.LoopCondition, c.LoopStep, c.Result},
			[]*exprpb.Expr{y.IterRange, y.AccuInit, y.LoopCondition, y.LoopStep, y.Result})
	}
	return proto.Equal(a, b)
}

//verif:property P10
//verif:title every comparison with null of a whole expression is rewritten and nothing else
//verif:bounded 2000 expressions of depth up to 5 and about 40 parts
//verif:native 2000
func contract_rewrite_whole() {
	if !zzvrt.Native() {
		return
	}
	t := &zzTree{budget: 40, typs: map[int64]*exprpb.Type{}, refs: map[int64]*exprpb.Reference{}}
	root := t.expr(5)
	was := proto.Clone(root).(*exprpb.Expr)
	s := newComparingNullResolver()
	got := s.Resolve(&exprpb.CheckedExpr{Expr: root, ReferenceMap: t.refs, TypeMap: t.typs})
	wraps := 0
	zzvrt.Ensures("every comparison with null is rewritten, and nothing else", t.same(was, root, map[int64]bool{}, false, &wraps))
	zzvrt.Ensures("it is reported whether something was rewritten", got == (wraps > 0))
	again := proto.Clone(root).(*exprpb.Expr)
	zzvrt.Ensures("nothing is left to rewrite", !s.Resolve(&exprpb.CheckedExpr{Expr: root, ReferenceMap: t.refs, TypeMap: t.typs}) && proto.Equal(root, again))
}
