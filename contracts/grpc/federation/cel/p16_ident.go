package cel

import (
	"github.com/google/cel-go/common/ast"
	"github.com/google/cel-go/common/types"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzExpr draws an expression and the names that occur in it.
type zzExprGen struct {
	fac   ast.ExprFactory
	id    int64
	names []string
}

func (g *zzExprGen) next() int64 { g.id++; return g.id }

func (g *zzExprGen) ident() ast.Expr {
	name := []string{"a", "b", "c", "d"}[zzvrt.Choice("ident", 4, int(g.id))]
	g.names = append(g.names, name)
	return g.fac.NewIdent(g.next(), name)
}

func (g *zzExprGen) expr(depth int) ast.Expr {
	k := int(g.id)
	if depth == 0 {
		if zzvrt.Bool("literal", k) {
			return g.fac.NewLiteral(g.next(), types.Int(1))
		}
		return g.ident()
	}
	switch zzvrt.Choice("kind", 10, k) {
	case 0:
		return g.ident()
	case 1:
		return g.fac.NewCall(g.next(), "f", g.expr(depth-1), g.expr(depth-1))
	case 2:
		return g.fac.NewMemberCall(g.next(), "f", g.expr(depth-1), g.expr(depth-1))
	case 3:
		return g.fac.NewList(g.next(), []ast.Expr{g.expr(depth - 1), g.expr(depth - 1)}, nil)
	case 4:
		return g.fac.NewMap(g.next(), []ast.EntryExpr{g.fac.NewMapEntry(g.next(), g.expr(depth-1), g.expr(depth-1), false)})
	case 5:
		g.names = append(g.names, "T")
		return g.fac.NewStruct(g.next(), "T", []ast.EntryExpr{g.fac.NewStructField(g.next(), "x", g.expr(depth-1), false)})
	case 6:
		// a chain of selections
		names := []string{"a", "pkg", "b"}
		name := names[zzvrt.Choice("root", 3, k)]
		e := g.fac.NewIdent(g.next(), name)
		for i := 0; i <= zzvrt.Choice("selections", 3, k); i++ {
			e = g.fac.NewSelect(g.next(), e, "x")
			name += ".x"
		}
		g.names = append(g.names, name)
		return e
	case 7:
		var operand ast.Expr
		switch zzvrt.Choice("operand", 3, k) {
		case 0:
			operand = g.fac.NewMemberCall(g.next(), "f", g.expr(depth-1), g.expr(depth-1))
		case 1:
			operand = g.fac.NewList(g.next(), []ast.Expr{g.expr(depth - 1)}, nil)
		default:
			operand = g.fac.NewCall(g.next(), "f", g.expr(depth-1))
		}
		return g.fac.NewSelect(g.next(), g.fac.NewSelect(g.next(), operand, "p"), "q")
	case 8:
		g.names = append(g.names, "acc")
		return g.fac.NewComprehension(g.next(), g.expr(depth-1), "it", "acc", g.expr(depth-1), g.expr(depth-1), g.expr(depth-1), g.fac.NewIdent(g.next(), "acc"))
	}
	return g.fac.NewLiteral(g.next(), types.String("s"))
}

//verif:property P16
//verif:bounded expressions of depth at most 3, drawn at random
//verif:title the identifiers of an expression
func contract_identifiers() {
	if !zzvrt.Native() {
		return
	}
	g := &zzExprGen{fac: ast.NewExprFactory()}
	e := g.expr(zzvrt.Choice("depth", 4))
	got := map[string]bool{}
	for _, n := range ToIdentifiers(e) {
		got[n] = true
	}
	want := map[string]bool{}
	for _, n := range g.names {
		want[n] = true
		zzvrt.Ensures("every identifier is found", got[n])
	}
	for n := range got {
		zzvrt.Ensures("every identifier occurs", want[n])
	}
}
