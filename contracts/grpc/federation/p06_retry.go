package federation

import (
	"context"
	"errors"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
	"github.com/mercari/grpc-federation/zzvrt"
)

// zzRetry is the contract of backoff.Retry.
//
//verif:model github.com/cenkalti/backoff/v4.Retry
func zzRetry(op backoff.Operation, b backoff.BackOff) error {
	b.Reset()
	for {
		err := op()
		if err == nil {
			return nil
		}
		var p *backoff.PermanentError
		if errors.As(err, &p) {
			return p.Err
		}
		if b.NextBackOff() == backoff.Stop {
			return err
		}
	}
}

// zzPublish is the part of SetGRPCError's contract needed here (see P07):
// the error variable describes the given error.
//
//verif:model github.com/mercari/grpc-federation/grpc/federation.SetGRPCError
func zzPublish(_ context.Context, value localValue, err error) {
	value.setEvalValue("error", err)
}

// zzCall is a remote call that is attempted any number of times.
type zzCall struct {
	limit    int // attempts the policy allows
	okAt     int // the attempt that succeeds
	attempts int
	asked    int // attempts after which the policy was asked
	conds    int // evaluations of the condition
	matches  bool
	last     error
	shown    any
	evalBad  bool // the last evaluation failed
	no       bool // the last condition was false
	result   *int
}

type zzCallScope struct {
	zzScope
	c *zzCall
}

func (s *zzCallScope) setEvalValue(_ string, v any) { s.c.shown = v }
func (s *zzCallScope) lock()                        {}
func (s *zzCallScope) unlock()                      {}
func (s *zzCallScope) rlock()                       {}
func (s *zzCallScope) runlock()                     {}

type zzPolicy struct{ c *zzCall }

func (p *zzPolicy) Reset() {}
func (p *zzPolicy) NextBackOff() time.Duration {
	p.c.asked++
	if p.c.asked >= p.c.limit {
		return backoff.Stop
	}
	return 0
}

// zzCond is the retry condition: its outcome may differ at each evaluation.
type zzCond struct{ c *zzCall }

var zzCondErr = errors.New("condition")

func (p *zzCond) Eval(any) (ref.Val, *cel.EvalDetails, error) { return nil, nil, zzCondErr }
func (p *zzCond) ContextEval(context.Context, any) (ref.Val, *cel.EvalDetails, error) {
	i := p.c.conds
	p.c.conds++
	p.c.matches = p.c.matches && zzSameError(p.c.shown, p.c.last, p.c.attempts)
	switch zzvrt.Choice("cond", 4, i) {
	case 0:
		p.c.no = true
		return &zzVal{v: false}, nil, nil
	case 1:
		p.c.evalBad = true
		return nil, nil, zzCondErr
	}
	return &zzVal{v: true}, nil, nil
}
func (p *zzCond) Type() ref.Type { return celtypes.BoolType }

func zzSameError(shown any, last error, n int) bool {
	if !zzvrt.Native() {
		return shown == any(last)
	}
	e, ok := shown.(*grpcfedcel.Error)
	return ok && e.Code == int32(grpccodes.Aborted) && e.Message == grpcstatus.Convert(last).Message()
}

func zzAttemptErr(i int) error {
	if zzvrt.Native() {
		return grpcstatus.Error(grpccodes.Aborted, "attempt "+string(rune('a'+i%26)))
	}
	return zzvrt.Err("attempt", i)
}

//verif:property P06
//verif:title a call is repeated exactly while it fails, the condition holds and the policy allows it
func contract_with_retry() {
	c := &zzCall{limit: zzvrt.Size("limit"), okAt: zzvrt.Size("okAt"), matches: true}
	c.result = new(int)
	m := &CELCacheMap{cacheMap: map[int]*CELCache{7: {program: &zzCond{c: c}}}}
	res, err := WithRetry(&zzCtx{cache: m}, &RetryParam[int]{
		Value:      &zzCallScope{c: c},
		If:         "cond",
		CacheIndex: 7,
		BackOff:    &BackOff{BackOff: &zzPolicy{c: c}},
		Body: func() (*int, error) {
			i := c.attempts
			c.attempts++
			if i == c.okAt {
				c.last = nil
				return c.result, nil
			}
			c.last = zzAttemptErr(i)
			return nil, c.last
		},
	})
	zzvrt.Ensures("the condition is evaluated against the error of the attempt that just failed", c.matches)
	zzvrt.Ensures("it is called at least once", c.attempts >= 1)
	zzvrt.Ensures("the condition is evaluated once for every failure", c.conds == c.attempts-1 || c.last != nil && c.conds == c.attempts)
	switch {
	case c.last == nil:
		zzvrt.Ensures("success ends the retry and returns the result", res == c.result && err == nil && c.attempts == c.okAt+1 && c.asked == c.attempts-1)
	case c.evalBad:
		zzvrt.Ensures("a condition that cannot be evaluated ends the retry with that error", res == nil && err == zzCondErr && c.asked == c.attempts-1)
	case c.no:
		zzvrt.Ensures("a false condition ends the retry with the last error", res == nil && err == c.last && c.asked == c.attempts-1)
	default:
		zzvrt.Ensures("the policy ends the retry with the last error", res == nil && err == c.last && c.asked == c.attempts && c.asked >= c.limit)
	}
	zzvrt.Ensures("no attempt beyond the policy", c.attempts <= c.limit || c.attempts == 1)
}

//verif:property P06
//verif:title the constant back-off waits the configured interval
func contract_constant_backoff() {
	d := time.Duration(zzvrt.Int64("d"))
	b := NewConstantBackOff(d)
	cb, ok := b.BackOff.(*backoff.ConstantBackOff)
	zzvrt.Ensures("the interval is the configured one", ok && cb.Interval == d)
}

//verif:property P06
//verif:title the exponential back-off has every configured parameter
func contract_exponential_backoff() {
	cfg := &ExponentialBackOffConfig{
		InitialInterval:     time.Duration(zzvrt.Int64("initial")),
		RandomizationFactor: zzvrt.Float64("factor"),
		Multiplier:          zzvrt.Float64("multiplier"),
		MaxInterval:         time.Duration(zzvrt.Int64("max")),
		MaxElapsedTime:      time.Duration(zzvrt.Int64("elapsed")),
	}
	b := NewExponentialBackOff(cfg)
	eb, ok := b.BackOff.(*backoff.ExponentialBackOff)
	zzvrt.Ensures("an exponential policy", ok)
	zzvrt.Ensures("initial interval", eb.InitialInterval == cfg.InitialInterval)
	zzvrt.Ensures("randomization factor", zzvrt.SameF(eb.RandomizationFactor, cfg.RandomizationFactor))
	zzvrt.Ensures("multiplier", zzvrt.SameF(eb.Multiplier, cfg.Multiplier))
	zzvrt.Ensures("max interval", eb.MaxInterval == cfg.MaxInterval)
	zzvrt.Ensures("max elapsed time", eb.MaxElapsedTime == cfg.MaxElapsedTime)
}

//verif:property P06
//verif:title the limit of retries is the configured one
//verif:bounded
func contract_max_retries() {
	d := time.Duration(zzvrt.Int64("d"))
	n := zzvrt.Size("n")
	zzvrt.Requires(d >= 0)
	b := BackOffWithMaxRetries(NewConstantBackOff(d), uint64(n))
	b.Reset()
	ok := true
	for i := 0; i < n; i++ {
		ok = ok && b.NextBackOff() == d
	}
	zzvrt.Ensures("every allowed retry waits the interval", ok)
	zzvrt.Ensures("no retry beyond the limit", b.NextBackOff() == backoff.Stop)
}
