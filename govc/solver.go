package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one z3 process. The assertion stack follows the path condition.
type Solver struct {
	b       *TermBank
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	defined map[int]bool
	decl    map[string]bool
	buf     strings.Builder
	Queries int
	Other   int
	Lin     int
	LinTime time.Duration
	Time    time.Duration
	timeout int
	Log     io.Writer
	cache   map[string]Result
}

func NewSolver(b *TermBank, timeoutMs int) *Solver {
	s := &Solver{b: b, timeout: timeoutMs, cache: map[string]Result{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin(), "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.defined = map[int]bool{}
	s.decl = map[string]bool{}
	s.stack = nil
	s.buf.Reset()
	s.p("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
}
func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}
func (s *Solver) restart() { s.Close(); s.start() }

func (s *Solver) p(f string, a ...interface{}) { fmt.Fprintf(&s.buf, f, a...) }
func (s *Solver) flush() {
	if s.Log != nil {
		io.WriteString(s.Log, s.buf.String())
	}
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
}
func (s *Solver) declSort(so Sort) {
	if so.Name == "Bool" || so.Name == "BV" {
		return
	}
	if !s.decl["sort:"+so.Name] {
		s.decl["sort:"+so.Name] = true
		s.p("(declare-sort %s 0)\n", so.Name)
	}
}
func (s *Solver) ref(t *Term) string {
	s.define(t)
	if len(t.Args) == 0 {
		return smtBody(t, nil)
	}
	return fmt.Sprintf("t%d", t.ID)
}
func (s *Solver) define(t *Term) {
	if s.defined[t.ID] {
		return
	}
	s.defined[t.ID] = true
	for _, a := range t.Args {
		s.define(a)
	}
	s.declSort(t.S)
	switch t.Op {
	case OConst:
		return
	case OVar:
		if !s.decl["v:"+t.Name] {
			s.decl["v:"+t.Name] = true
			s.p("(declare-fun |%s| () %s)\n", t.Name, t.S.smt())
		}
		return
	case OApp:
		if !s.decl["f:"+t.Name] {
			s.decl["f:"+t.Name] = true
			sg := s.b.ufs[t.Name]
			var as []string
			for _, x := range sg[:len(sg)-1] {
				s.declSort(x)
				as = append(as, x.smt())
			}
			s.p("(declare-fun |%s| (%s) %s)\n", t.Name, strings.Join(as, " "), sg[len(sg)-1].smt())
		}
	}
	s.p("(define-fun t%d () %s %s)\n", t.ID, t.S.smt(), smtBody(t, s.ref))
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		s.p("(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		r := s.ref(pc[n])
		s.p("(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc /\ extra.
func (s *Solver) Check(pc []*Term, extra *Term) Result {
	if extra != nil && extra.isFalse() {
		return Unsat
	}
	for _, p := range pc {
		if p.isFalse() {
			return Unsat
		}
	}
	var kb strings.Builder
	for _, p := range pc {
		fmt.Fprintf(&kb, "%d,", p.ID)
	}
	if extra != nil {
		fmt.Fprintf(&kb, "+%d", extra.ID)
	}
	if r, ok := s.cache[kb.String()]; ok {
		return r
	}
	t0 := time.Now()
	s.Queries++
	if s.b.linUnsat(pc, extra) {
		s.Lin++
		s.LinTime += time.Since(t0)
		s.cache[kb.String()] = Unsat
		return Unsat
	}
	s.LinTime += time.Since(t0)
	t0 = time.Now()
	s.sync(pc)
	if extra != nil && !extra.isTrue() {
		r := s.ref(extra)
		s.p("(push 1)\n(assert %s)\n(check-sat)\n(pop 1)\n", r)
	} else {
		s.p("(check-sat)\n")
	}
	s.p("(echo \"done\")\n")
	s.flush()
	res := s.read()
	s.Time += time.Since(t0)
	s.cache[kb.String()] = res
	if d := os.Getenv("GOVC_SLOW"); d != "" && time.Since(t0) > 40*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/q%d_%s_%d.smt2", d, s.Queries, res, time.Since(t0).Milliseconds()), []byte(s.standalone(pc, extra)), 0644)
	}
	return res
}
func (s *Solver) standalone(pc []*Term, extra *Term) string {
	var sb strings.Builder
	tmp := &Solver{b: s.b, defined: map[int]bool{}, decl: map[string]bool{}}
	var refs []string
	for _, p := range pc {
		refs = append(refs, tmp.ref(p))
	}
	if extra != nil {
		refs = append(refs, tmp.ref(extra))
	}
	sb.WriteString(tmp.buf.String())
	for _, r := range refs {
		sb.WriteString("(assert " + r + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}
func (s *Solver) read() Result {
	res := Unknown
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			return Unknown
		}
		line = strings.TrimSpace(line)
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case line == "unknown" || line == "timeout":
			res = Unknown
		case line == "done":
			return res
		case strings.HasPrefix(line, "(error"):
			panic("z3: " + line)
		}
	}
}

// Model returns values for the given terms under pc /\ extra (must be sat).
func (s *Solver) Model(pc []*Term, extra *Term, ts []*Term) []string {
	s.sync(pc)
	s.p("(push 1)\n")
	if extra != nil {
		r := s.ref(extra)
		s.p("(assert %s)\n", r)
	}
	var rs []string
	for _, t := range ts {
		rs = append(rs, s.ref(t))
	}
	s.p("(check-sat)\n(echo \"done\")\n")
	s.flush()
	if s.read() != Sat {
		s.p("(pop 1)\n")
		return nil
	}
	var out []string
	for _, r := range rs {
		s.p("(get-value (%s))\n(echo \"done\")\n", r)
		s.flush()
		var sb strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil || strings.TrimSpace(line) == "done" {
				break
			}
			sb.WriteString(strings.TrimSpace(line) + " ")
		}
		out = append(out, strings.TrimSpace(sb.String()))
	}
	s.p("(pop 1)\n")
	return out
}

// CheckOther asks two further solvers when z3 gives no answer.
func (s *Solver) CheckOther(pc []*Term, extra *Term) Result {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString(s.standalone(pc, extra))
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	for _, c := range [][]string{{"z3-new", "-in", "-T:20"}, {"cvc5", "--lang=smt2", "--tlimit=20000"}} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(sb.String())
		out, _ := cmd.Output()
		s.Queries++
		s.Other++
		switch {
		case strings.HasPrefix(string(out), "unsat"):
			return Unsat
		case strings.HasPrefix(string(out), "sat"):
			return Sat
		}
	}
	return Unknown
}

func solverBin() string {
	if s := os.Getenv("GOVC_SOLVER"); s != "" {
		return s
	}
	return "z3-new"
}
