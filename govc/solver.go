package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	pr     *printer
	stack  []*T
	levels []int // number of base facts asserted when level opened
	// global facts
	facts     []string
	factLevel []int // level at which the fact is asserted, -1 if not
	log       strings.Builder
	logOn     bool
	queries   int
	wall      time.Duration
	trace     []string // complete declaration/fact text for stand-alone scripts
	curTO     int
	dead      bool
	restarts  int
}

const prelude = `(set-option :global-declarations true)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :model.completion true)
(declare-sort Str 0)
(declare-sort F64 0)
(declare-sort Iface 0)
(declare-sort SeqT 0)
(declare-fun strid (Str) Int)
(declare-fun slen (Str) Int)
(declare-fun scat (Str Str) Str)
(declare-fun tagof (Iface) Int)
(declare-const nil_iface Iface)
(assert (= (tagof nil_iface) 0))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str)) (! (>= (slen a) 0) :pattern ((slen a)))))
`

var z3bin = "z3"

func NewSolver() *Solver {
	s := &Solver{}
	s.pr = newPrinter(s.emitDecl)
	s.pr.decls["s:nil_iface"] = true
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2", "-memory:3000")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.dead = false
	s.send(prelude)
}

func (s *Solver) restart() {
	s.restarts++
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
	for _, d := range s.trace {
		s.send(d + "\n")
	}
	s.stack = nil
	s.curTO = 0
	for i := range s.factLevel {
		s.factLevel[i] = -1
	}
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	if s.logOn {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) emitDecl(d string) {
	if strings.HasPrefix(d, "(assert ") {
		s.facts = append(s.facts, d)
		s.factLevel = append(s.factLevel, -1)
		return
	}
	s.trace = append(s.trace, d)
	s.send(d + "\n")
}

// Fact adds a globally valid formula.
func (s *Solver) Fact(t *T) {
	if isTrue(t) {
		return
	}
	str := s.pr.str(t)
	s.facts = append(s.facts, "(assert "+str+")")
	s.factLevel = append(s.factLevel, -1)
}

func (s *Solver) sync(path []*T) {
	n := 0
	for n < len(path) && n < len(s.stack) && path[n] == s.stack[n] {
		n++
	}
	if pops := len(s.stack) - n; pops > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", pops))
		s.stack = s.stack[:n]
		for i, l := range s.factLevel {
			if l > n {
				s.factLevel[i] = -1
			}
		}
	}
	for _, t := range path[n:] {
		str := s.pr.str(t)
		s.send("(push 1)\n(assert " + str + ")\n")
		s.stack = append(s.stack, t)
	}
	s.flushFacts()
}

func (s *Solver) flushFacts() {
	for i := 0; i < len(s.facts); i++ {
		if s.factLevel[i] < 0 {
			s.factLevel[i] = len(s.stack)
			s.send(s.facts[i] + "\n")
		}
	}
}

// Check decides path /\ extra.
func (s *Solver) Check(path []*T, extra *T, timeoutMS int) Result {
	if extra != nil && isFalse(extra) {
		return Unsat
	}
	s.sync(path)
	if s.curTO != timeoutMS {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMS))
		s.curTO = timeoutMS
	}
	es := ""
	if extra != nil {
		es = s.pr.str(extra)
	}
	s.flushFacts()
	// facts flushed at len(stack) are inside the current level, fine
	t0 := time.Now()
	if extra != nil {
		s.send("(push 1)\n(assert " + es + ")\n(check-sat)\n")
	} else {
		s.send("(push 1)\n(check-sat)\n")
	}
	r := s.read(timeoutMS)
	if !s.dead {
		s.send("(pop 1)\n")
	} else {
		s.restart()
	}
	s.queries++
	s.wall += time.Since(t0)
	if os.Getenv("GOVC_Q") != "" {
		dbg("Q %d to=%d %v %v %s", s.queries, timeoutMS, r, time.Since(t0).Round(time.Millisecond), truncate(es, 150))
	}
	if d := os.Getenv("GOVC_DUMP"); d != "" && time.Since(t0) > time.Second {
		os.WriteFile(fmt.Sprintf("%s_%d.smt2", d, s.queries), []byte(s.Script(path, extra)), 0o644)
	}
	return r
}

func (s *Solver) read(timeoutMS int) Result {
	type rl struct {
		l   string
		err error
	}
	ch := make(chan rl, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err == nil && l == "" {
				continue
			}
			ch <- rl{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.dead = true
			return Unknown
		}
		switch r.l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		}
		if strings.HasPrefix(r.l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "z3:", r.l)
			}
			solverErrors = append(solverErrors, r.l)
			// keep reading: the check-sat answer follows
			s.readAfterError(timeoutMS)
			return Unknown
		}
		return Unknown
	case <-time.After(time.Duration(timeoutMS)*time.Millisecond + 3*time.Second):
		s.dead = true
		s.cmd.Process.Kill()
		<-ch
		return Unknown
	}
}

var solverErrors []string

func (s *Solver) readAfterError(timeoutMS int) {
	// resynchronise with an echo marker
	s.send("(echo \"@@sync\")\n")
	done := make(chan bool, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			if err != nil || strings.Contains(l, "@@sync") {
				done <- err == nil
				return
			}
		}
	}()
	select {
	case ok := <-done:
		if !ok {
			s.dead = true
		}
	case <-time.After(time.Duration(timeoutMS)*time.Millisecond + 3*time.Second):
		s.dead = true
		s.cmd.Process.Kill()
	}
}

// Model re-runs the query and evaluates the terms.
func (s *Solver) Model(path []*T, extra *T, terms []*T, timeoutMS int) (map[*T]string, bool) {
	s.sync(path)
	es := s.pr.str(extra)
	var ts []string
	for _, t := range terms {
		ts = append(ts, s.pr.str(t))
	}
	s.flushFacts()
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMS))
	s.curTO = timeoutMS
	s.send("(push 1)\n(assert " + es + ")\n(check-sat)\n")
	if s.read(timeoutMS) != Sat {
		if s.dead {
			s.restart()
		} else {
			s.send("(pop 1)\n")
		}
		return nil, false
	}
	res := map[*T]string{}
	for i, t := range terms {
		s.send("(eval " + ts[i] + ")\n(echo \"@@\")\n")
		var sb strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				s.dead = true
				s.restart()
				return res, false
			}
			if strings.Contains(l, "@@") {
				break
			}
			sb.WriteString(l)
		}
		res[t] = strings.TrimSpace(sb.String())
	}
	s.send("(pop 1)\n")
	return res, true
}

// Script renders a stand-alone SMT-LIB script of the query.
func (s *Solver) Script(path []*T, extra *T) string {
	var sb strings.Builder
	var body []string
	for _, t := range path {
		body = append(body, "(assert "+s.pr.str(t)+")")
	}
	if extra != nil {
		body = append(body, "(assert "+s.pr.str(extra)+")")
	}
	sb.WriteString(prelude)
	for _, d := range s.trace {
		sb.WriteString(d + "\n")
	}
	for _, f := range s.facts {
		sb.WriteString(f + "\n")
	}
	for _, b := range body {
		sb.WriteString(b + "\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// z3Script runs a stand-alone script with model-based instantiation; when the
// result is sat the terms (already printed) are evaluated.
func z3Script(script string, evals []string, timeoutMS int) (Result, []string) {
	script = strings.Replace(script, "(set-option :smt.mbqi false)\n", "(set-option :smt.mbqi true)\n", 1)
	var sb strings.Builder
	sb.WriteString(script)
	for _, x := range evals {
		sb.WriteString("(eval " + x + ")\n(echo \"@@\")\n")
	}
	cmd := exec.Command(z3bin, "-in", "-smt2", "-memory:3000", fmt.Sprintf("-t:%d", timeoutMS), fmt.Sprintf("-T:%d", timeoutMS/1000+3))
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	first, rest, _ := strings.Cut(string(out), "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		return Unsat, nil
	case "sat":
		var vs []string
		for _, x := range strings.Split(rest, "@@") {
			vs = append(vs, strings.Join(strings.Fields(x), " "))
		}
		return Sat, vs
	}
	return Unknown, nil
}

// second back end: cvc5 on the stand-alone script.
func cvc5Check(script string, timeoutMS int) Result {
	script = strings.Replace(script, "(set-option :auto_config false)\n", "", 1)
	script = strings.Replace(script, "(set-option :smt.mbqi false)\n", "", 1)
	script = strings.Replace(script, "(set-option :model.completion true)\n", "", 1)
	script = strings.Replace(script, "(declare-sort Str 0)", "(set-logic ALL)\n(declare-sort Str 0)", 1)
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMS))
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Unsat
		case "sat":
			return Sat
		}
	}
	return Unknown
}
