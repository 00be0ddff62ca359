package federation

import (
	"context"
	"fmt"
	"reflect"
	"strconv"

	"google.golang.org/genproto/googleapis/rpc/errdetails"

	"github.com/mercari/grpc-federation/zzvrt"
)

// zzTextExpr is the expression stored under cache index idx.
func zzTextExpr(idx int) string {
	if !zzvrt.Native() {
		return zzvrt.String("expr", idx)
	}
	if zzTextErr(idx) != nil {
		return "string(1/0)"
	}
	return strconv.Quote(zzText(idx))
}

// zzText is the value of the expression, zzTextErr its evaluation error.
func zzText(idx int) string {
	if !zzvrt.Native() {
		return zzvrt.String("text", idx)
	}
	return fmt.Sprintf("t%d", zzvrt.Choice("text", 40, idx))
}
func zzTextErr(idx int) error {
	if zzvrt.Native() && zzvrt.Choice("fails", 4, idx) != 0 {
		return nil
	}
	return zzvrt.ErrOrNil("text", idx)
}

// zzEvalText stands for EvalCEL (contracts P09): the outcome of the
// expression stored under the cache index.
//
//verif:model github.com/mercari/grpc-federation/grpc/federation.EvalCEL
func zzEvalText(_ context.Context, req *EvalCELRequest) (any, error) {
	zzvrt.Ensures("every expression is evaluated under its own cache index", req.Expr == zzTextExpr(req.CacheIndex))
	zzvrt.Ensures("as a string", req.OutType == reflect.TypeOf(""))
	req.Value.lock()
	req.Value.unlock()
	if err := zzTextErr(req.CacheIndex); err != nil {
		return nil, err
	}
	return zzText(req.CacheIndex), nil
}

func zzDetailCtx() context.Context { return &zzCtx{cache: NewCELCacheMap()} }

//verif:property P08
//verif:title precondition failure: one entry per violation that evaluates, in order, correctly labelled
//verif:native 400
func contract_precondition_failure() {
	n := zzvrt.Size("n")
	vs := make([]*PreconditionFailureViolation, 0, n)
	for i := 0; i < n; i++ {
		vs = append(vs, &PreconditionFailureViolation{
			Type: zzTextExpr(3*i + 1), TypeCacheIndex: 3*i + 1,
			Subject: zzTextExpr(3*i + 2), SubjectCacheIndex: 3*i + 2,
			Desc: zzTextExpr(3*i + 3), DescCacheIndex: 3*i + 3,
		})
	}
	s := zzNewScope()
	got := PreconditionFailure(zzDetailCtx(), s, vs)
	zzvrt.Ensures("the scope is left unlocked", s.free())
	var list []*errdetails.PreconditionFailure_Violation
	if got != nil {
		list = got.Violations
	}
	k := 0
	for i := 0; i < n; i++ {
		if zzTextErr(3*i+1) != nil {
			continue
		}
		if zzTextErr(3*i+2) != nil {
			continue
		}
		if zzTextErr(3*i+3) != nil {
			continue
		}
		zzvrt.Ensures("the entry is there", k < len(list))
		if k < len(list) {
			zzvrt.Ensures("type", list[k].Type == zzText(3*i+1))
			zzvrt.Ensures("subject", list[k].Subject == zzText(3*i+2))
			zzvrt.Ensures("description", list[k].Description == zzText(3*i+3))
		}
		k++
	}
	zzvrt.Ensures("no other entry", len(list) == k)
	zzvrt.Ensures("absent exactly when empty", (got == nil) == (k == 0))
}

//verif:property P08
//verif:title bad request: one entry per violation that evaluates, in order, correctly labelled
//verif:native 400
func contract_bad_request() {
	n := zzvrt.Size("n")
	vs := make([]*BadRequestFieldViolation, 0, n)
	for i := 0; i < n; i++ {
		vs = append(vs, &BadRequestFieldViolation{
			Field: zzTextExpr(2*i + 1), FieldCacheIndex: 2*i + 1,
			Desc: zzTextExpr(2*i + 2), DescCacheIndex: 2*i + 2,
		})
	}
	s := zzNewScope()
	got := BadRequest(zzDetailCtx(), s, vs)
	zzvrt.Ensures("the scope is left unlocked", s.free())
	var list []*errdetails.BadRequest_FieldViolation
	if got != nil {
		list = got.FieldViolations
	}
	k := 0
	for i := 0; i < n; i++ {
		if zzTextErr(2*i+1) != nil {
			continue
		}
		if zzTextErr(2*i+2) != nil {
			continue
		}
		zzvrt.Ensures("the entry is there", k < len(list))
		if k < len(list) {
			zzvrt.Ensures("field", list[k].Field == zzText(2*i+1))
			zzvrt.Ensures("description", list[k].Description == zzText(2*i+2))
		}
		k++
	}
	zzvrt.Ensures("no other entry", len(list) == k)
	zzvrt.Ensures("absent exactly when empty", (got == nil) == (k == 0))
}

//verif:property P08
//verif:title localized message: the given locale and the evaluated text, or nothing
//verif:native 400
func contract_localized_message() {
	s := zzNewScope()
	locale := zzvrt.String("locale")
	idx := zzvrt.Choice("idx", 1000) + 1
	got := LocalizedMessage(zzDetailCtx(), &LocalizedMessageParam{Value: s, Locale: locale, Message: zzTextExpr(idx), CacheIndex: idx})
	zzvrt.Ensures("the scope is left unlocked", s.free())
	zzvrt.Ensures("absent exactly when the text fails", (got == nil) == (zzTextErr(idx) != nil))
	if got != nil {
		zzvrt.Ensures("locale", got.Locale == locale)
		zzvrt.Ensures("message", got.Message == zzText(idx))
	}
}
