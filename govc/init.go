package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoDir = "/repo"

func newEng(prog *ssa.Program, roots map[string]bool) *Eng {
	resetTerms()
	e := &Eng{
		prog: prog, rootPkg: roots, fset: prog.Fset,
		lay: map[string][]leaf{}, alias: map[string]PtrV{}, aliasByKey: map[string]*T{},
		funcs: map[string]FuncV{}, funcByKey: map[string]*T{}, tags: map[string]int64{}, tagTypes: map[int64]types.Type{},
		boxed: map[string]bool{}, boxTypes: map[string]types.Type{}, implFacts: map[string]types.Type{}, implDone: map[string]bool{},
		factDone: map[int]bool{}, obls: map[string]*Obl{}, models: map[string]*ssa.Function{}, seqs: map[string][]*T{}, joinDone: map[*T]bool{}, induct: map[string]*ssa.Function{}, abstract: map[string]bool{},
		inputs: map[string]*inputRec{}, notes: map[string]int{}, funcsSeen: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}, loopInfo: map[*ssa.Function]*loops{},
		globals: map[*ssa.Global]*T{}, globInit: map[string]bool{}, covers: map[string]bool{}, initDone: map[*ssa.Package]bool{},
		initHeap: map[string]*T{}, lemmas: map[string]bool{}, loopStat: map[string]string{}, staticIface: map[int]types.Type{},
		iterCell: map[int]PtrV{}, keyInfo: map[string]leaf{}, errIDs: map[string]int64{},
		recLimit: 6, proveTO: 4000, quantTO: 3000,
	}
	e.sol = NewSolver()
	e.deadline = time.Now().Add(60 * time.Second)
	return e
}

// ensureInit: package initialisation is run before a contract starts.
func (e *Eng) ensureInit(p *ssa.Package) {}

// runInit executes the package initialisers of the verified packages; what
// cannot be executed leaves the variable unknown.
func (e *Eng) runInit(pkgs []*ssa.Package) *State {
	s := &State{heap: map[string]*T{}, next: bigI(0), chans: map[string]*Chan{}}
	for _, p := range pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := deref(g.Type())
				pt := PtrV{ref: e.globalRef(g), owner: t, typ: t}
				if arr, ok := types.Unalias(t).Underlying().(*types.Array); ok && !e.opaqueStruct(t) {
					e.zeroElems(s, pt.ref, arr.Elem())
					continue
				}
				for _, l := range e.leaves(t) {
					e.storeLeaf(s, pt, l, e.zeroLeaf(l))
				}
			}
		}
	}
	e.initMode = true
	e.suppress++
	defer func() { e.initMode = false; e.suppress-- }()
	for _, p := range pkgs {
		if strings.HasSuffix(p.Pkg.Path(), "/zzvrt") {
			continue
		}
		init := p.Func("init")
		if init == nil {
			continue
		}
		s = e.initFn(s, init)
	}
	return s
}

// initFn runs a package initialiser statement by statement.
func (e *Eng) initFn(s *State, fn *ssa.Function) *State {
	e.push(s, fn, nil, nil, nil, false)
	f := s.top()
	f.barrier = true
	depth := len(s.frames)
	for n := 0; n < 20000; n++ {
		f := s.top()
		if f.ip >= len(f.blk.Instrs) {
			break
		}
		ins := f.blk.Instrs[f.ip]
		switch i := ins.(type) {
		case *ssa.Return:
			s.frames = s.frames[:len(s.frames)-1]
			return s
		case *ssa.If: // init guard
			if len(f.blk.Succs) == 2 && strings.Contains(f.blk.Comment, "entry") {
				f.prev, f.blk, f.ip = f.blk, f.blk.Succs[1], 0
				// Succs[0] is the "done" branch of the guard
				if len(f.blk.Instrs) == 1 {
					f.blk = f.prev.Succs[0]
				}
				continue
			}
		case *ssa.Call:
			if c := i.Call.StaticCallee(); c != nil {
				if c.Synthetic == "package initializer" || strings.HasPrefix(c.Name(), "init#") && strings.HasSuffix(e.fset.Position(c.Pos()).Filename, ".pb.go") {
					f.ip++
					continue
				}
			}
		}
		bk := s
		if _, isCall := ins.(*ssa.Call); isCall {
			bk = s.clone()
		}
		ok := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					dbg("init %s: %s: %v", fn, ins, p)
				}
			}()
			dl, st := e.deadline, e.steps
			e.deadline = time.Now().Add(2 * time.Second)
			e.steps = 0
			defer func() { e.deadline = dl; e.steps = st }()
			first := true
			ends := e.explore(s, func(x *State) bool {
				if first {
					first = false
					return false
				}
				if e.steps > 20000 {
					panic(unsupported("long initialiser"))
				}
				return len(x.frames) == depth && x.top().pan == nil
			})
			if len(ends) == 1 && !ends[0].done && len(ends[0].path) == len(bk.path) && len(ends[0].others) == 0 {
				s = ends[0]
				ok = true
			}
		}()
		if !ok {
			s = bk
			g := s.top()
			if v, isV := ins.(ssa.Value); isV {
				switch v.Type().(type) {
				case *types.Tuple:
					var tv TupleV
					tv = e.havocTuple(s, v.Type().(*types.Tuple), "init")
					g.env[v] = tv
				default:
					func() {
						defer func() {
							if recover() != nil {
								g.env[v] = nil
							}
						}()
						g.env[v] = e.havoc(s, v.Type(), "init")
					}()
				}
			}
			if _, isRet := ins.(*ssa.If); isRet {
				dbg("init %s: branch not executed", fn)
				break
			}
			if _, isJ := ins.(*ssa.Jump); isJ {
				break
			}
			g.ip++
		}
	}
	s.frames = s.frames[:depth-1]
	return s
}

// ---- running one contract
type Result1 struct {
	Contract  string
	Pkg       string
	Status    string // proved, refuted, undecided
	Reason    string
	Obls      []*Obl
	Funcs     []string
	Notes     []string
	Loops     map[string]string
	Paths     int
	Steps     int
	Queries   int
	SolverS   float64
	WallS     float64
	Cvc5      int
	SolverErr []string
	Hashes    map[string]string // body of every executed function
}

func (e *Eng) runContract(fn *ssa.Function, pkgs []*ssa.Package, limit time.Duration) (r *Result1) {
	t0 := time.Now()
	solverErrors = nil
	r = &Result1{Contract: fn.Name(), Pkg: fn.Pkg.Pkg.Path()}
	e.contract = fn
	defer func() {
		e.sol.Close()
		if p := recover(); p != nil {
			switch x := p.(type) {
			case unsupportedErr:
				r.Status, r.Reason = "undecided", "unsupported: "+x.msg
			case abortErr:
				r.Status, r.Reason = "undecided", x.msg
			default:
				r.Status, r.Reason = "undecided", fmt.Sprintf("internal error: %v", p)
				if debugOn {
					panic(p)
				}
			}
		}
		for _, k := range e.oblOrder {
			r.Obls = append(r.Obls, e.obls[k])
		}
		for _, o := range r.Obls {
			if o.Refuted > 0 {
				r.Status = "refuted"
			}
		}
		if r.Status == "" {
			r.Status = "proved"
			if len(r.Obls) == 0 {
				r.Status, r.Reason = "undecided", "no obligations"
			}
			for _, o := range r.Obls {
				if o.Undecided > 0 {
					r.Status, r.Reason = "undecided", "solver: "+o.Kind+": "+o.Name
				}
			}
		}
		r.Funcs = sortedStrs(e.funcsSeen)
		r.Hashes = e.bodyHashes()
		for _, k := range sortedKeys(e.notes) {
			r.Notes = append(r.Notes, k)
		}
		r.Loops = e.loopStat
		r.Paths, r.Steps = e.paths+1, e.steps
		r.Queries, r.SolverS = e.sol.queries, e.sol.wall.Seconds()
		r.Cvc5 = e.cvc5Runs
		r.WallS = time.Since(t0).Seconds()
		r.SolverErr = append(r.SolverErr, solverErrors...)
	}()
	s := e.runInit(pkgs)
	dbg("init done in %.2fs, %d facts, %d heap keys", time.Since(t0).Seconds(), len(e.factLog), len(s.heap))
	e.deadline = time.Now().Add(limit)
	e.steps = 0
	e.paths = 0
	s.path = nil
	e.push(s, fn, nil, nil, nil, false)
	ends := e.explore(s, nil)
	for _, x := range ends {
		e.endOfPath(x)
	}
	if len(ends) == 0 {
		r.Status, r.Reason = "undecided", "no path reaches the end of the contract"
	}
	return r
}

func (e *Eng) endOfPath(x *State) {
	pos := e.fset.Position(e.contract.Pos())
	p := fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
	if x.uncaught != nil && !x.mayPan {
		nm := "no panic: " + x.uncaught.kind
		if x.uncaught.kind == "" {
			nm = "no panic"
		}
		e.prove(x, "safety", Bool(false), nm+" at "+x.uncaught.pos, x.uncaught.pos)
	} else if !x.mayPan {
		o := e.obl("safety", "no panic", p)
		o.Discharged++
		o.Backends["path"]++
	}
	if x.deadlock || x.blockedMain {
		e.prove(x, "liveness", Bool(false), "no deadlock", p)
	}
	if x.leaked > 0 {
		e.prove(x, "liveness", Bool(false), "no goroutine stays blocked", p)
	}
}
