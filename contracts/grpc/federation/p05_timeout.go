package federation

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"golang.org/x/sync/errgroup"
	"google.golang.org/genproto/googleapis/rpc/errdetails"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/zzvrt"
)

// zzTimer is the contract of context.WithTimeout: Done closes when the timer
// fires, at any moment or never, or when the context is cancelled.
type zzTimer struct {
	context.Context
	done     chan struct{}
	fired    bool
	canceled bool
	asked    time.Duration
}

var zzLastTimer *zzTimer

func (t *zzTimer) Done() <-chan struct{} { return t.done }
func (t *zzTimer) Err() error {
	if t.fired {
		return context.DeadlineExceeded
	}
	if t.canceled {
		return context.Canceled
	}
	return nil
}

//verif:model context.WithTimeout
func zzWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	t := &zzTimer{Context: parent, done: make(chan struct{}), asked: d}
	zzLastTimer = t
	go func() {
		if !t.canceled {
			t.fired = true
			close(t.done)
		}
	}()
	return t, func() {
		if !t.fired && !t.canceled {
			t.canceled = true
			close(t.done)
		}
	}
}

//verif:property P05
//verif:title a call with a timeout returns its own outcome or DeadlineExceeded naming method and timeout
//verif:native 60
//verif:timeout 200
func contract_with_timeout() {
	mode := zzvrt.Choice("mode", 4)
	method := zzvrt.String("method")
	val := zzvrt.Int("val")
	ferr := zzvrt.ErrOrNil("call")
	timeout := time.Duration(1)
	before := 0
	if zzvrt.Native() {
		if mode == 2 {
			timeout = 5 * time.Millisecond
		} else {
			timeout = time.Hour
		}
		before = runtime.NumGoroutine()
	}
	res := &val
	calls := 0
	var got context.Context
	ret, err := WithTimeout(&zzCtx{}, method, timeout, func(ctx context.Context) (*int, error) {
		calls++
		got = ctx
		switch mode {
		case 1:
			panic("boom")
		case 2:
			<-ctx.Done()
			if zzvrt.Native() {
				time.Sleep(15 * time.Millisecond)
			}
		case 3:
			return nil, ferr
		}
		return res, ferr
	})
	timedOut := mode == 2
	if !zzvrt.Native() {
		zzvrt.Ensures("the timer is set to the timeout", zzLastTimer.asked == timeout)
		timedOut = zzLastTimer.fired && grpcstatus.Code(err) == grpccodes.DeadlineExceeded
		zzvrt.Ensures("the context is released", zzLastTimer.fired || zzLastTimer.canceled)
	}
	if timedOut {
		zzvrt.Ensures("a timeout is DeadlineExceeded without a result", ret == nil && err != nil && grpcstatus.Code(err) == grpccodes.DeadlineExceeded)
		if zzvrt.Native() {
			ds := grpcstatus.Convert(err).Details()
			zzvrt.Ensures("a timeout has one detail", len(ds) == 1)
			if len(ds) == 1 {
				info, ok := ds[0].(*errdetails.ErrorInfo)
				zzvrt.Ensures("a timeout names the method and the timeout", ok && info.GetMetadata()["method"] == strings.ToValidUTF8(method, "") && info.GetMetadata()["timeout"] == timeout.String())
			}
		}
	} else {
		zzvrt.Ensures("the call runs once", calls == 1)
		switch mode {
		case 1:
			re, ok := err.(*RecoveredError)
			zzvrt.Ensures("a panic is reported as an error", ret == nil && ok && re.Message == "boom")
		case 3:
			zzvrt.Ensures("the call's own outcome", ret == nil && err == ferr)
		default:
			zzvrt.Ensures("the call's own outcome", ret == res && err == ferr)
		}
	}
	if zzvrt.Native() {
		zzvrt.Ensures("the call's context is released", got == nil || got.Err() != nil)
		ok := false
		for i := 0; i < 200 && !ok; i++ {
			ok = runtime.NumGoroutine() <= before
			if !ok {
				time.Sleep(10 * time.Millisecond)
			}
		}
		zzvrt.Ensures("the worker is not left blocked", ok)
	}
}

// zzEg is the contract of errgroup.Group: Go runs the function concurrently.
type zzEgT struct {
	fns []func() error
}

var zzEg zzEgT

//verif:model (*golang.org/x/sync/errgroup.Group).Go
func zzEgGo(_ *errgroup.Group, f func() error) { zzEg.fns = append(zzEg.fns, f) }

//verif:property P05
//verif:title a concurrently evaluated definition reports its own error, a panic becomes an error
func contract_go_with_recover() {
	eg := new(errgroup.Group)
	ferr := zzvrt.ErrOrNil("body")
	panics := zzvrt.Bool("panics")
	calls := 0
	var mu sync.Mutex
	GoWithRecover(eg, func() (any, error) {
		mu.Lock()
		calls++
		mu.Unlock()
		if panics {
			panic("boom")
		}
		return nil, ferr
	})
	var err error
	if zzvrt.Native() {
		err = eg.Wait()
	} else {
		zzvrt.Ensures("started once in the group", len(zzEg.fns) == 1)
		err = zzEg.fns[0]()
	}
	zzvrt.Ensures("the definition runs once", calls == 1)
	if panics {
		re, ok := err.(*RecoveredError)
		zzvrt.Ensures("a panic is reported as an error with its message", ok && re.Message == "boom")
	} else {
		zzvrt.Ensures("its own error is reported", err == ferr)
	}
}

//verif:property P05
//verif:title a recovered panic carries the message and the non-empty lines of the stack
//verif:native 2000
func contract_recover_error() {
	msg := zzvrt.String("message")
	raw := zzvrt.String("stack")
	re := RecoverError(msg, []byte(raw))
	lines := strings.Split(msg, "\n")
	src := strings.Split(raw, "\n")
	if len(lines) > 1 {
		src = lines[1:]
	}
	zzvrt.Ensures("the message is the first line of the panic value", re.Message == lines[0])
	k := 0
	for i := 0; i < len(src); i++ {
		if src[i] != "" {
			zzvrt.Ensures("the stack has the non-empty lines in order", k < len(re.Stack) && re.Stack[k] == strings.TrimPrefix(src[i], "\t"))
			k++
		}
	}
	zzvrt.Ensures("the stack has nothing else", len(re.Stack) == k)
}

//verif:property P05
//verif:title the panic value's text is the message, whatever its type
//verif:bounded
func contract_recover_value() {
	var v any
	switch zzvrt.Choice("kind", 4) {
	case 0:
		v = zzvrt.Err("e")
	case 1:
		v = zzvrt.Int("n")
	case 2:
		v = fmt.Errorf("x: %w", zzvrt.Err("e"))
	default:
		v = zzvrt.String("s") + "\n\ngoroutine 1 [running]:\n\tmain.go"
	}
	re := RecoverError(v, []byte("g\n\n\tf\n"))
	ls := strings.Split(fmt.Sprint(v), "\n")
	zzvrt.Ensures("message", re.Message == ls[0])
	var want []string
	if len(ls) == 1 {
		want = []string{"g", "f"}
	} else {
		for _, l := range ls[1:] {
			if l != "" {
				want = append(want, strings.TrimPrefix(l, "\t"))
			}
		}
	}
	zzvrt.Ensures("stack", zzvrt.EqSlice(want, re.Stack))
}
