package federation

import (
	"context"
	"sync"

	"github.com/google/cel-go/cel"
	"golang.org/x/sync/singleflight"

	"github.com/mercari/grpc-federation/zzvrt"
)

// What the other requests for the scope under test do, see zzSgDo.
var zzOther func()

// zzSgDo stands for singleflight.Group.Do: it runs fn unless a run for the
// same key is under way. Before it starts the run, another request may have
// gone through completely.
//
//verif:model (*golang.org/x/sync/singleflight.Group).Do
func zzSgDo(_ *singleflight.Group, _ string, fn func() (any, error)) (any, error, bool) {
	if o := zzOther; o != nil {
		zzOther = nil
		o()
	}
	v, err := fn()
	return v, err, false
}

type zzComp struct {
	runs int
	val  int64
	err  error
}

func (c *zzComp) run() (any, error) {
	c.runs++
	if c.err != nil {
		return nil, c.err
	}
	return c.val, nil
}

func zzNewComp(i int) *zzComp {
	return &zzComp{val: zzvrt.Int64("val", i), err: zzvrt.ErrOrNil("comp", i)}
}

func (c *zzComp) seen(v any, err error) bool {
	if c.err != nil {
		return v == nil && err == c.err
	}
	return err == nil && v == any(c.val)
}

//verif:property P04
//verif:title whatever other request goes through in between, one computation serves all
func contract_do_race() {
	v := NewServiceVariableLocalValue(nil)
	name := zzvrt.String("name")
	c := zzNewComp(0)
	zzOther = nil
	if zzvrt.Native() {
		zzDoConcurrently(v, name)
		return
	}
	other := zzvrt.Bool("race")
	if other {
		zzOther = func() {
			r, err := v.do(name, c.run)
			zzvrt.Ensures("the other request sees the result", c.seen(r, err))
		}
	}
	r, err := v.do(name, c.run)
	zzvrt.Ensures("the request sees the result", c.seen(r, err))
	zzvrt.Ensures("one computation", c.runs == 1)
	r, err = v.do(name, c.run)
	zzvrt.Ensures("a later request sees the result", c.seen(r, err))
	zzvrt.Ensures("still one computation", c.runs == 1)
}

// zzDoConcurrently is the executable counterpart: requests that really run
// concurrently.
func zzDoConcurrently(v *LocalValue, name string) {
	var mu sync.Mutex
	runs := 0
	var wg sync.WaitGroup
	n := zzvrt.Size("requests") + 2
	bad := 0
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := v.do(name, func() (any, error) {
				mu.Lock()
				defer mu.Unlock()
				runs++
				return runs, nil
			})
			mu.Lock()
			defer mu.Unlock()
			if err != nil || r != any(1) {
				bad++
			}
		}()
	}
	wg.Wait()
	zzvrt.Ensures("one computation", runs == 1)
	zzvrt.Ensures("the request sees the result", bad == 0)
}

//verif:property P04
//verif:title requests in any order: at most one computation per name, names never share a result
//verif:bounded
func contract_do_sequence() {
	v := NewLocalValue(nil, nil, "T", nil)
	zzOther = nil
	a, b := zzvrt.String("a"), zzvrt.String("b")
	zzvrt.Requires(a != b)
	ca, cb := zzNewComp(0), zzNewComp(1)
	for i := 0; i < zzvrt.Size("n"); i++ {
		if zzvrt.Bool("first", i) {
			r, err := v.do(a, ca.run)
			zzvrt.Ensures("a's result", ca.seen(r, err))
		} else {
			r, err := v.do(b, cb.run)
			zzvrt.Ensures("b's result", cb.seen(r, err))
		}
		zzvrt.Ensures("at most one computation each", ca.runs <= 1 && cb.runs <= 1)
	}
}

//verif:property P04
//verif:title after any history, another request is served from the one computation
func contract_do_step() {
	// an arbitrary reachable state: any set of names has been computed
	v := NewServiceVariableLocalValue(nil)
	zzOther = nil
	a, b := zzvrt.String("a"), zzvrt.String("b")
	zzvrt.Requires(a != b)
	ca, cb := zzNewComp(0), zzNewComp(1)
	doneA, doneB := zzvrt.Bool("done_a"), zzvrt.Bool("done_b")
	if doneA {
		v.do(a, ca.run)
	}
	if doneB {
		v.do(b, cb.run)
	}
	r, err := v.do(a, ca.run)
	zzvrt.Ensures("a's result", ca.seen(r, err))
	zzvrt.Ensures("a was computed once", ca.runs == 1)
	zzvrt.Ensures("b was not touched", (cb.runs == 1) == doneB && cb.runs <= 1)
	r, err = v.do(b, cb.run)
	zzvrt.Ensures("b's result", cb.seen(r, err))
	zzvrt.Ensures("b was computed once", cb.runs == 1 && ca.runs == 1)
	w := NewServiceVariableLocalValue(nil)
	cw := zzNewComp(2)
	r, err = w.do(a, cw.run)
	zzvrt.Ensures("another message computes for itself", cw.seen(r, err) && cw.runs == 1 && ca.runs == 1)
}

// zzFreshScopes checks two scopes created from the same declarations.
func zzFreshScopes(x, y *LocalValue, opts []cel.EnvOption, m, spare, own int) {
	n := m + own
	zzvrt.Ensures("declarations of the message", len(x.envOpts) == n && len(y.envOpts) == n)
	x.setEnvOptValue("a", cel.IntType)
	y.setEnvOptValue("b", cel.StringType)
	x.setEvalValue("a", int64(1))
	zzvrt.Ensures("one declaration added to each", len(x.envOpts) == n+1 && len(y.envOpts) == n+1)
	_, shared := y.evalValues["a"]
	zzvrt.Ensures("variables are not shared", !shared)
	full := opts[:m+spare]
	zzvrt.Ensures("the given declarations are not changed", zzvrt.Forall(0, m+spare, func(j int) bool { return full[j] == nil }))
}

//verif:property P04
//verif:title scopes created from the same declarations share nothing
//verif:precise
func contract_new_local_value() {
	m, spare := zzvrt.Size("m"), zzvrt.Size("spare")
	opts := make([]cel.EnvOption, m, m+spare)
	arg := zzvrt.Int64("arg")
	x := NewLocalValue(context.Background(), opts, "T", arg)
	y := NewLocalValue(context.Background(), opts, "T", arg)
	zzvrt.Ensures("the argument is visible", x.evalValues[MessageArgumentVariableName] == any(arg) && len(x.evalValues) == 1)
	zzFreshScopes(x, y, opts, m, spare, 1)
}

//verif:property P04
//verif:title service variable scopes created from the same declarations share nothing
//verif:precise
func contract_new_service_value() {
	m, spare := zzvrt.Size("m"), zzvrt.Size("spare")
	opts := make([]cel.EnvOption, m, m+spare)
	x := NewServiceVariableLocalValue(opts)
	y := NewServiceVariableLocalValue(opts)
	zzvrt.Ensures("no variable yet", len(x.evalValues) == 0)
	zzFreshScopes(x, y, opts, m, spare, 0)
}
