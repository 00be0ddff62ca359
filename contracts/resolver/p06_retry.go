package resolver

import (
	"time"

	"github.com/mercari/grpc-federation/grpc/federation"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzDur is an optional duration setting: unset, well-formed or arbitrary text.
func zzDur(name string) *string {
	var s string
	switch zzvrt.Choice(name+".set", 3) {
	case 0:
		return nil
	case 1:
		s = zzvrt.String(name)
	default:
		s = zzvrt.String(name)
		if zzvrt.Native() {
			s = time.Duration(zzvrt.Int64(name + ".d")).String()
		}
	}
	return &s
}

func zzU64(name string) *uint64 {
	if zzvrt.Bool(name + ".set") {
		v := zzvrt.Uint64(name)
		return &v
	}
	return nil
}

func zzF64(name string) *float64 {
	if zzvrt.Bool(name + ".set") {
		v := zzvrt.Float64(name)
		return &v
	}
	return nil
}

// zzWant is the interval in force for a setting, and whether it is malformed.
func zzWant(s *string, def time.Duration) (time.Duration, int) {
	if s == nil {
		return def, 0
	}
	d, err := time.ParseDuration(*s)
	if err != nil {
		return def, 1
	}
	return d, 0
}

func zzRetryBuilder() *source.RetryOptionBuilder {
	return source.NewMessageBuilder("f.proto", "M").WithOption().WithDef(0).WithCall().WithRetry()
}

//verif:property P06
//verif:title a constant policy has the configured interval and retries, defaults otherwise
func contract_retry_constant() {
	def := &federation.RetryPolicyConstant{Interval: zzDur("interval"), MaxRetries: zzU64("max")}
	ctx := newContext()
	p := (&Resolver{}).resolveRetryConstant(ctx, def, zzRetryBuilder())
	want, bad := zzWant(def.Interval, time.Second)
	zzvrt.Ensures("a malformed interval is reported", len(ctx.errorBuilder.errs) == bad)
	zzvrt.Ensures("the interval", p != nil && p.Interval == want)
	zzvrt.Ensures("the number of retries", p.MaxRetries == zzOr(def.MaxRetries, 5))
	zzvrt.Ensures("the policy's number of retries", (&RetryPolicy{Constant: p}).MaxRetries() == p.MaxRetries)
	zzvrt.Ensures("no policy without a definition", (&Resolver{}).resolveRetryConstant(ctx, nil, zzRetryBuilder()) == nil)
}

func zzOr(v *uint64, def uint64) uint64 {
	if v != nil {
		return *v
	}
	return def
}

//verif:property P06
//verif:title an exponential policy has every configured parameter, defaults otherwise
func contract_retry_exponential() {
	def := &federation.RetryPolicyExponential{
		InitialInterval:     zzDur("initial"),
		RandomizationFactor: zzF64("factor"),
		Multiplier:          zzF64("multiplier"),
		MaxInterval:         zzDur("max"),
		MaxRetries:          zzU64("retries"),
	}
	ctx := newContext()
	var timeout *time.Duration
	elapsed := time.Duration(0)
	if zzvrt.Bool("timeout.set") {
		elapsed = time.Duration(zzvrt.Int64("timeout"))
		t := elapsed
		timeout = &t
	}
	p := (&Resolver{}).resolveRetryExponential(ctx, def, timeout, zzRetryBuilder())
	initial, bad1 := zzWant(def.InitialInterval, 500*time.Millisecond)
	max, bad2 := zzWant(def.MaxInterval, 60*time.Second)
	zzvrt.Ensures("malformed intervals are reported", len(ctx.errorBuilder.errs) == bad1+bad2)
	zzvrt.Ensures("the initial interval", p != nil && p.InitialInterval == initial)
	zzvrt.Ensures("the maximum interval", p.MaxInterval == max)
	zzvrt.Ensures("the number of retries", p.MaxRetries == zzOr(def.MaxRetries, 5))
	zzvrt.Ensures("the time limit is the call's timeout", p.MaxElapsedTime == elapsed)
	if def.RandomizationFactor != nil {
		zzvrt.Ensures("the randomization factor", zzvrt.SameF(p.RandomizationFactor, *def.RandomizationFactor))
	} else {
		zzvrt.Ensures("the default randomization factor", zzvrt.SameF(p.RandomizationFactor, 0.5))
	}
	if def.Multiplier != nil {
		zzvrt.Ensures("the multiplier", zzvrt.SameF(p.Multiplier, *def.Multiplier))
	} else {
		zzvrt.Ensures("the default multiplier", zzvrt.SameF(p.Multiplier, 1.5))
	}
	zzvrt.Ensures("the policy's number of retries", (&RetryPolicy{Exponential: p}).MaxRetries() == p.MaxRetries)
	zzvrt.Ensures("no policy without a definition", (&Resolver{}).resolveRetryExponential(ctx, nil, timeout, zzRetryBuilder()) == nil)
}

//verif:property P06
//verif:title the retry condition is the configured one, true by default, and the configured policy is used
func contract_retry_policy() {
	cond := zzvrt.String("if")
	def := &federation.RetryPolicy{If: cond}
	kind := zzvrt.Choice("policy", 3)
	iv := zzDur("interval")
	switch kind {
	case 1:
		def.Policy = &federation.RetryPolicy_Constant{Constant: &federation.RetryPolicyConstant{Interval: iv}}
	case 2:
		def.Policy = &federation.RetryPolicy_Exponential{Exponential: &federation.RetryPolicyExponential{MaxInterval: iv}}
	}
	ctx := newContext()
	p := (&Resolver{}).resolveRetry(ctx, def, nil, zzRetryBuilder())
	want := cond
	if cond == "" {
		want = "true"
	}
	zzvrt.Ensures("the condition", p != nil && p.If != nil && p.If.Expr == want)
	zzvrt.Ensures("the constant policy is used when configured", (p.Constant != nil) == (kind == 1))
	zzvrt.Ensures("the exponential policy is used when configured", (p.Exponential != nil) == (kind == 2))
	if kind == 1 {
		d, bad := zzWant(iv, time.Second)
		zzvrt.Ensures("its interval", p.Constant.Interval == d && len(ctx.errorBuilder.errs) == bad)
	}
	if kind == 2 {
		d, bad := zzWant(iv, 60*time.Second)
		zzvrt.Ensures("its interval", p.Exponential.MaxInterval == d && len(ctx.errorBuilder.errs) == bad)
	}
	zzvrt.Ensures("no policy without a definition", (&Resolver{}).resolveRetry(ctx, nil, nil, zzRetryBuilder()) == nil)
}
