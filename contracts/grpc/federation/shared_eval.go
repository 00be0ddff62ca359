package federation

import (
	"context"
	"reflect"
	"time"

	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"

	"github.com/mercari/grpc-federation/zzvrt"
)

// zzTrace is the history of one contract run: one number per event.
type zzTrace struct{ ev []int }

func (t *zzTrace) add(n int) { t.ev = append(t.ev, n) }

// zzCtx is a context that holds an expression cache and nothing else.
type zzCtx struct{ cache *CELCacheMap }

func (c *zzCtx) Deadline() (d time.Time, ok bool) { return }
func (c *zzCtx) Done() <-chan struct{}            { return nil }
func (c *zzCtx) Err() error                       { return nil }
func (c *zzCtx) Value(key any) any {
	if _, ok := key.(celCacheMapKey); ok && c.cache != nil {
		return c.cache
	}
	return nil
}

// zzScope is a variable scope that records what is done to it.
type zzScope struct {
	t       *zzTrace
	r, w    int // readers and writers at the moment
	doNames []string
	names   []string
	types   []*cel.Type
	vnames  []string
	vals    []any
	locked  bool // every publication happened under the write lock
	eval    map[string]any
	env     []cel.EnvOption
}

func zzNewScope() *zzScope {
	return &zzScope{t: &zzTrace{}, locked: true, eval: map[string]any{}}
}

func (s *zzScope) do(name string, cb func() (any, error)) (any, error) {
	s.doNames = append(s.doNames, name)
	return cb()
}
func (s *zzScope) rlock() {
	zzvrt.Ensures("no read lock is taken while the scope is write-locked", s.w == 0)
	s.r++
}
func (s *zzScope) runlock() {
	zzvrt.Ensures("a read unlock matches a read lock", s.r > 0)
	s.r--
}
func (s *zzScope) lock() {
	zzvrt.Ensures("no write lock is taken while the scope is locked", s.w == 0 && s.r == 0)
	s.w++
}
func (s *zzScope) unlock() {
	zzvrt.Ensures("a write unlock matches a write lock", s.w == 1)
	s.w--
}
func (s *zzScope) getEnvOpts() []cel.EnvOption                  { return s.env }
func (s *zzScope) getEvalValues(context.Context) map[string]any { return s.eval }
func (s *zzScope) setEnvOptValue(name string, typ *cel.Type) {
	s.locked = s.locked && s.w == 1
	s.names = append(s.names, name)
	s.types = append(s.types, typ)
}
func (s *zzScope) setEvalValue(name string, v any) {
	s.locked = s.locked && s.w == 1
	s.vnames = append(s.vnames, name)
	s.vals = append(s.vals, v)
}
func (s *zzScope) free() bool { return s.w == 0 && s.r == 0 }

// zzVal is the result of evaluating an expression; it converts to v.
type zzVal struct {
	v    any
	cerr error
}

func (v *zzVal) ConvertToNative(reflect.Type) (any, error) {
	if v.cerr != nil {
		return nil, v.cerr
	}
	return v.v, nil
}
func (v *zzVal) ConvertToType(ref.Type) ref.Val { return v }
func (v *zzVal) Equal(ref.Val) ref.Val          { return celtypes.False }
func (v *zzVal) Type() ref.Type                 { return celtypes.AnyType }
func (v *zzVal) Value() any                     { return v.v }

// zzProg is a compiled expression with a fixed outcome.
type zzProg struct {
	t   *zzTrace
	id  int
	out ref.Val
	err error
	on  func()
}

func (p *zzProg) Eval(any) (ref.Val, *cel.EvalDetails, error) { return p.out, nil, p.err }
func (p *zzProg) ContextEval(_ context.Context, vars any) (ref.Val, *cel.EvalDetails, error) {
	p.t.add(p.id)
	if p.on != nil {
		p.on()
	}
	if p.err != nil {
		return nil, nil, p.err
	}
	return p.out, nil, nil
}

// zzCtxWith is a context whose expression cache holds the given programs.
func zzCtxWith(ps ...*zzProg) context.Context {
	m := &CELCacheMap{cacheMap: map[int]*CELCache{}}
	for _, p := range ps {
		m.cacheMap[p.id] = &CELCache{program: p}
	}
	return &zzCtx{cache: m}
}

// zzExpr is an expression that evaluates to v, fails, or fails to convert.
func zzExpr(t *zzTrace, id int, v any, name string) *zzProg {
	return &zzProg{t: t, id: id, out: &zzVal{v: v, cerr: zzvrt.ErrOrNil("conv_" + name)}, err: zzvrt.ErrOrNil("eval_" + name)}
}

// failure is the error of evaluating the expression, nil if it has a value.
func (p *zzProg) failure() error {
	if p.err != nil {
		return p.err
	}
	if v, ok := p.out.(*zzVal); ok {
		return v.cerr
	}
	return nil
}
