package federation

import (
	"errors"
	"fmt"
	"log/slog"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzStatusErr is an error that carries a gRPC status.
type zzStatusErr struct{ st *grpcstatus.Status }

func (e *zzStatusErr) Error() string                  { return "zz" }
func (e *zzStatusErr) GRPCStatus() *grpcstatus.Status { return e.st }

// zzDetail is the i-th detail of a status.
func zzDetail(i int) *anypb.Any {
	if !zzvrt.Native() {
		return &anypb.Any{TypeUrl: zzvrt.String("type", i)}
	}
	var m proto.Message
	s := fmt.Sprint(i)
	switch zzvrt.Choice("kind", 13, i) {
	case 0:
		m = &errdetails.ErrorInfo{Reason: s}
	case 1:
		m = &errdetails.RetryInfo{RetryDelay: &durationpb.Duration{Seconds: int64(i)}}
	case 2:
		m = &errdetails.DebugInfo{Detail: s}
	case 3:
		m = &errdetails.QuotaFailure{Violations: []*errdetails.QuotaFailure_Violation{{Subject: s}}}
	case 4:
		m = &errdetails.PreconditionFailure{Violations: []*errdetails.PreconditionFailure_Violation{{Subject: s}}}
	case 5:
		m = &errdetails.BadRequest{FieldViolations: []*errdetails.BadRequest_FieldViolation{{Field: s}}}
	case 6:
		m = &errdetails.RequestInfo{RequestId: s}
	case 7:
		m = &errdetails.ResourceInfo{ResourceName: s}
	case 8:
		m = &errdetails.Help{Links: []*errdetails.Help_Link{{Description: s}}}
	case 9:
		m = &errdetails.LocalizedMessage{Message: s}
	case 10:
		m = &durationpb.Duration{Seconds: int64(i)}
	case 11:
		m = &spb.Status{Message: s}
	default:
		return &anypb.Any{TypeUrl: "example.com/unknown.Type", Value: []byte(s)}
	}
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	return a
}

func zzSameMsg(a, b proto.Message) bool {
	if zzvrt.Native() {
		return proto.Equal(a, b)
	}
	return a == b
}

// zzExposed runs SetGRPCError on a status with n details.
func zzExposed() (*grpcfedcel.Error, *grpcstatus.Status, *zzScope, int32, string) {
	n := zzvrt.Size("n")
	code := zzvrt.Int32("code")
	msg := zzvrt.String("msg")
	anys := make([]*anypb.Any, 0, n)
	for i := 0; i < n; i++ {
		anys = append(anys, zzDetail(i))
	}
	st := grpcstatus.FromProto(&spb.Status{Code: code, Message: msg, Details: anys})
	s := zzNewScope()
	SetGRPCError(&zzCtx{}, s, &zzStatusErr{st: st})
	if len(s.vals) != 1 {
		zzvrt.Ensures("the error variable is set once", false)
		return nil, nil, s, 0, ""
	}
	e, ok := s.vals[0].(*grpcfedcel.Error)
	zzvrt.Ensures("the error variable is an error value", ok)
	return e, st, s, code, msg
}

//verif:property P07
//verif:title the error variable has the status's code and message, and is published under the lock
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_status() {
	e, _, s, code, msg := zzExposed()
	if e == nil {
		return
	}
	zzvrt.Ensures("it is named error", s.vnames[0] == "error")
	zzvrt.Ensures("it is published under the write lock, which is released", s.locked && s.free())
	zzvrt.Ensures("code", e.Code == code)
	zzvrt.Ensures("message", e.Message == msg)
}

//verif:property P07
//verif:title every detail of a known type is exposed in order
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_details() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		a, err := anypb.New(m)
		if err != nil {
			continue
		}
		zzvrt.Ensures("every detail in order", k < len(e.Details) && zzSameMsg(e.Details[k], a))
		k++
	}
	zzvrt.Ensures("nothing else", len(e.Details) == k)
}

//verif:property P07
//verif:title the ErrorInfo details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_error_info() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.ErrorInfo); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.ErrorInfo) && zzSameMsg(e.ErrorInfo[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.ErrorInfo) == k)
}

//verif:property P07
//verif:title the RetryInfo details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_retry_info() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.RetryInfo); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.RetryInfo) && zzSameMsg(e.RetryInfo[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.RetryInfo) == k)
}

//verif:property P07
//verif:title the DebugInfo details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_debug_info() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.DebugInfo); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.DebugInfo) && zzSameMsg(e.DebugInfo[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.DebugInfo) == k)
}

//verif:property P07
//verif:title the QuotaFailure details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_quota_failure() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.QuotaFailure); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.QuotaFailures) && zzSameMsg(e.QuotaFailures[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.QuotaFailures) == k)
}

//verif:property P07
//verif:title the PreconditionFailure details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_precondition_failure() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.PreconditionFailure); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.PreconditionFailures) && zzSameMsg(e.PreconditionFailures[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.PreconditionFailures) == k)
}

//verif:property P07
//verif:title the BadRequest details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_bad_request() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.BadRequest); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.BadRequests) && zzSameMsg(e.BadRequests[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.BadRequests) == k)
}

//verif:property P07
//verif:title the RequestInfo details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_request_info() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.RequestInfo); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.RequestInfo) && zzSameMsg(e.RequestInfo[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.RequestInfo) == k)
}

//verif:property P07
//verif:title the ResourceInfo details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_resource_info() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.ResourceInfo); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.ResourceInfo) && zzSameMsg(e.ResourceInfo[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.ResourceInfo) == k)
}

//verif:property P07
//verif:title the Help details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_help() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.Help); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.Helps) && zzSameMsg(e.Helps[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.Helps) == k)
}

//verif:property P07
//verif:title the LocalizedMessage details are exposed, in order, in the list of their type
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_localized_message() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		if _, err := anypb.New(m); err != nil {
			continue
		}
		if t, ok := m.(*errdetails.LocalizedMessage); ok {
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.LocalizedMessages) && zzSameMsg(e.LocalizedMessages[k], t))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.LocalizedMessages) == k)
}

//verif:property P07
//verif:title every other detail is exposed, in order, as a custom message
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_custom() {
	e, st, _, _, _ := zzExposed()
	if e == nil {
		return
	}
	k := 0
	for _, d := range st.Details() {
		m, ok := d.(proto.Message)
		if !ok {
			continue
		}
		a, err := anypb.New(m)
		if err != nil {
			continue
		}
		switch m.(type) {
		case *errdetails.ErrorInfo, *errdetails.RetryInfo, *errdetails.DebugInfo, *errdetails.QuotaFailure, *errdetails.PreconditionFailure, *errdetails.BadRequest, *errdetails.RequestInfo, *errdetails.ResourceInfo, *errdetails.Help, *errdetails.LocalizedMessage:
		default:
			zzvrt.Ensures("each in order", 0 <= k && k < len(e.CustomMessages) && zzSameMsg(e.CustomMessages[k], a))
			k++
		}
	}
	zzvrt.Ensures("nothing else", len(e.CustomMessages) == k)
}

//verif:property P07
//verif:title an error that is not a gRPC status publishes nothing
//verif:timeout 200
//verif:prove 60000
func contract_grpc_error_other() {
	s := zzNewScope()
	SetGRPCError(&zzCtx{}, s, zzvrt.Err("plain"))
	zzvrt.Ensures("nothing is published", len(s.vals) == 0 && s.free())
}

//verif:property P07
//verif:title an error wrapped with a log level keeps its message, status and identity
func contract_error_with_log_attrs() {
	var err error
	plain := zzvrt.Err("plain")
	kind := zzvrt.Choice("kind", 3)
	switch kind {
	case 0:
		err = plain
	case 1:
		err = grpcstatus.Error(grpccodes.Code(zzvrt.Choice("code", 15)+1), zzvrt.String("msg"))
	}
	w := NewErrorWithLogAttrs(err, slog.Level(zzvrt.Int("level")), nil)
	if kind == 2 {
		zzvrt.Ensures("no error stays no error", w == nil)
		return
	}
	zzvrt.Ensures("the message is kept", w.Error() == err.Error())
	zzvrt.Ensures("the identity is kept", errors.Is(w, err) && errors.Unwrap(w) == err)
	var zz *zzvrt.E
	zzvrt.Ensures("the type is kept", errors.As(w, &zz) == (kind == 0))
	want, got := grpcstatus.Convert(err), grpcstatus.Convert(w)
	zzvrt.Ensures("the status is kept", got.Code() == want.Code() && got.Message() == want.Message())
}
