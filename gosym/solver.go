package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver keeps one incremental SMT process and mirrors the path condition on its
// assertion stack.
type Solver struct {
	tt       *TermTable
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	defined  map[*Term]bool
	vars     []*Term
	stack    []*Term
	timeout  time.Duration
	dead     bool
	Quick    int
	Queries  int
	Time     time.Duration
	Unknowns int
	Fallback int
	Errors   int
	maxQ     time.Duration
	lastErr  string
	log      io.Writer
}

func NewSolver(tt *TermTable, timeout time.Duration) *Solver {
	s := &Solver{tt: tt, timeout: timeout}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.defined = map[*Term]bool{}
	s.vars = nil
	s.stack = nil
	s.dead = false
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout.Milliseconds()))
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		fmt.Fprintln(s.log, x)
	}
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// define emits definitions for t and everything below it.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defined[f.t] {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		switch f.i {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		default:
			if f.t.op == OVar {
				s.send(fmt.Sprintf("(declare-const |%s| %s)", f.t.name, sortOf(f.t.w)))
				s.vars = append(s.vars, f.t)
			} else {
				s.send(fmt.Sprintf("(define-fun t%d () %s %s)", f.t.id, sortOf(f.t.w), smtBody(f.t, s.ref)))
			}
			s.defined[f.t] = true
			st = st[:len(st)-1]
			continue
		}
		f.i++
		if ch != nil && ch.op != OConst && !s.defined[ch] {
			st = append(st, fr{ch, 0})
		}
	}
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)", d))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)")
		s.send("(assert " + s.ref(t) + ")")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc ∧ extra, returning a model when satisfiable.
func (s *Solver) Check(pc []*Term, extra *Term) (SatResult, Model) {
	if extra != nil && extra.isConst() && extra.k == 0 {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.maxQ {
			s.maxQ = d
		}
	}()
	s.Queries++
	if s.dead {
		s.restart()
	}
	r, m, err := s.check(pc, extra)
	if err != nil {
		s.Errors++
		s.lastErr = err.Error()
		s.restart()
		r, m, err = s.check(pc, extra)
		if err != nil {
			s.dead = true
			r = Unknown
			s.lastErr = err.Error()
		}
	}
	if r == Unknown {
		r, m = s.fallback(pc, extra)
		if r == Unknown {
			s.Unknowns++
		}
	}
	return r, m
}

func (s *Solver) check(pc []*Term, extra *Term) (SatResult, Model, error) {
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + s.ref(extra) + ")")
	}
	s.send("(check-sat)")
	l, err := s.readLine()
	if err != nil {
		return Unknown, nil, fmt.Errorf("solver died: %w", err)
	}
	pop := func() {
		if extra != nil {
			s.send("(pop 1)")
		}
	}
	switch l {
	case "unsat":
		pop()
		return Unsat, nil, nil
	case "unknown":
		pop()
		return Unknown, nil, nil
	case "sat":
		m, err := s.model()
		if err != nil {
			return Unknown, nil, err
		}
		pop()
		return Sat, m, nil
	}
	return Unknown, nil, fmt.Errorf("solver said %q", l)
}

func (s *Solver) model() (Model, error) {
	m := Model{}
	if len(s.vars) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString("|" + v.name + "| ")
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	txt, err := readSexp(s.out)
	if err != nil {
		return nil, err
	}
	if strings.HasPrefix(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	return parseValues(txt)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if !started && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		started = true
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseValues(txt string) (Model, error) {
	m := Model{}
	i := 0
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
	}
	if i >= len(txt) || txt[i] != '(' {
		return nil, fmt.Errorf("bad get-value answer %.80q", txt)
	}
	i++
	for {
		skip()
		if i >= len(txt) {
			return nil, fmt.Errorf("unterminated get-value")
		}
		if txt[i] == ')' {
			return m, nil
		}
		if txt[i] != '(' {
			return nil, fmt.Errorf("bad get-value pair")
		}
		i++
		skip()
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[j] != ' ' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		skip()
		j := i
		for j < len(txt) && txt[j] != ')' {
			j++
		}
		v := strings.TrimSpace(txt[i:j])
		i = j + 1
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			m[name] = u
		default:
			return nil, fmt.Errorf("value %q", v)
		}
	}
}

// script writes a self-contained query.
func (s *Solver) script(pc []*Term, extra *Term) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	done := map[*Term]bool{}
	var vars []*Term
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OConst || done[t] {
			return
		}
		done[t] = true
		def(t.a)
		def(t.b)
		def(t.c)
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", t.name, sortOf(t.w))
			vars = append(vars, t)
			return
		}
		body := smtBody(t, s.ref)
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body)
	}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		def(t)
	}
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", s.ref(t))
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString("|" + v.name + "| ")
		}
		sb.WriteString("))\n")
	}
	return sb.String(), vars
}

var fallbackTimeout = 40 * time.Second

// fallback races one-shot solvers on the query.
func (s *Solver) fallback(pc []*Term, extra *Term) (SatResult, Model) {
	s.Fallback++
	q, _ := s.script(pc, extra)
	ctx, cancel := context.WithTimeout(context.Background(), fallbackTimeout)
	defer cancel()
	type ans struct {
		r SatResult
		m Model
	}
	ch := make(chan ans, 4)
	cmds := [][]string{{"z3-new", "-in", "-smt2"}, {"z3", "-in", "-smt2"}}
	if !strings.Contains(q, "fp.to_ieee_bv") {
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "-q"})
	}
	for _, c := range cmds {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(q)
			out, _ := cmd.Output()
			t := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(t, "unsat"):
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(t, "sat"):
				rest := strings.TrimSpace(t[3:])
				m := Model{}
				if rest != "" {
					var err error
					m, err = parseValues(rest)
					if err != nil {
						ch <- ans{Unknown, nil}
						return
					}
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
