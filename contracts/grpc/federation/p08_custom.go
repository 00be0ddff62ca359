package federation

import (
	"google.golang.org/genproto/googleapis/rpc/errdetails"

	"github.com/mercari/grpc-federation/zzvrt"
)

//verif:property P08
//verif:title custom message: the evaluated message, or nothing
func contract_custom_message() {
	s := zzNewScope()
	m := &errdetails.ErrorInfo{Reason: "r"}
	p := zzExpr(s.t, 7, m, "msg")
	idx := 7
	if zzvrt.Bool("missing") {
		idx = 0
	}
	got := CustomMessage(zzCtxWith(p), &CustomMessageParam{Value: s, MessageValueName: "m", CacheIndex: idx, MessageIndex: zzvrt.Int("i")})
	zzvrt.Ensures("the scope is left unlocked", s.free())
	if idx == 0 || p.err != nil {
		zzvrt.Ensures("absent when it fails", got == nil)
		return
	}
	zzvrt.Ensures("the evaluated message", got == any(m))
}
