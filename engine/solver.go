package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental SMT process (z3 -in). Each path-condition
// conjunct sits on its own push level so that consecutive paths that share a
// prefix share it in the solver too.
type Solver struct {
	kind    string
	cmd     *exec.Cmd
	in      *bufio.Writer
	wc      io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	stack   []*Term
	tt      *TermTable

	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Errors   int
	Time     time.Duration
	limitMS  int
	lastErr  string
	restarts int
}

func NewSolver(kind string, tt *TermTable, limitMS int) *Solver {
	s := &Solver{kind: kind, tt: tt, limitMS: limitMS}
	s.start()
	return s
}

func (s *Solver) start() {
	var cmd *exec.Cmd
	switch s.kind {
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.limitMS))
	case "z3-new":
		cmd = exec.Command("z3-new", "-in", "-smt2")
	default:
		cmd = exec.Command("z3", "-in", "-smt2")
	}
	w, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.wc, s.in, s.out = cmd, w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int]bool{}
	s.stack = nil
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	if s.kind != "cvc5" {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.limitMS))
	}
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.wc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.restarts++
	s.start()
}

func (s *Solver) send(x string) { s.in.WriteString(x) }

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order to survive deep terms
	type item struct {
		t    *Term
		done bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		if it.t == nil || it.t.op == OConst || s.defined[it.t.id] {
			continue
		}
		if it.t.op == OVar {
			s.defined[it.t.id] = true
			s.send(fmt.Sprintf("(declare-const |%s| %s)\n", it.t.name, sortStr(it.t.w)))
			continue
		}
		if it.done {
			s.defined[it.t.id] = true
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", it.t.id, sortStr(it.t.w), it.t.def()))
			continue
		}
		st = append(st, item{it.t, true}, item{it.t.a, false}, item{it.t.b, false}, item{it.t.c, false})
	}
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)\n(assert " + t.ref() + ")\n")
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc and extra. It returns "sat", "unsat" or "unknown"; with
// sat and wantModel the values of the given variables.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (string, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	if extra != nil {
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	res, err := s.readLine()
	for err == nil && res == "" {
		res, err = s.readLine()
	}
	if err != nil {
		s.Errors++
		s.lastErr = err.Error()
		s.restart()
		return "unknown", nil
	}
	var model Model
	switch res {
	case "sat":
		s.Sat++
		model = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.Errors++
				s.lastErr = err.Error()
				s.restart()
				return "unknown", nil
			}
			if err := parseValues(txt, model); err != nil {
				s.Errors++
				s.lastErr = err.Error()
				s.restart()
				return "unknown", nil
			}
		}
	case "unsat":
		s.Unsat++
	default:
		if strings.Contains(res, "error") {
			s.Errors++
			s.lastErr = res
			s.restart()
			return "unknown", nil
		}
		s.Unknown++
		res = "unknown"
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, model
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if depth == 0 && c != '(' {
			if c == '\n' || c == ' ' || c == '\r' {
				continue
			}
			l, _ := s.readLine()
			return "", fmt.Errorf("solver: %c%s", c, l)
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				r := sb.String()
				if strings.HasPrefix(r, "(error") {
					return "", fmt.Errorf("solver: %s", r)
				}
				return r, nil
			}
		}
	}
}

// parseValues reads ((|x| #x00) (|y| true) ...).
func parseValues(txt string, m Model) error {
	i := 1
	n := len(txt)
	for i < n {
		for i < n && txt[i] != '(' {
			if txt[i] == ')' {
				return nil
			}
			i++
		}
		if i >= n {
			return nil
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|') + i + 1
			name = txt[i+1 : j]
			i = j + 1
		} else {
			j := i
			for txt[j] != ' ' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := i
		if txt[i] == '(' { // (_ bvN w)
			for txt[j] != ')' {
				j++
			}
			f := strings.Fields(txt[i+1 : j])
			v, err := strconv.ParseUint(strings.TrimPrefix(f[1], "bv"), 10, 64)
			if err != nil {
				return err
			}
			m[name] = v
			j++
		} else {
			for txt[j] != ')' {
				j++
			}
			v, err := parseLit(strings.TrimSpace(txt[i:j]))
			if err != nil {
				return err
			}
			m[name] = v
		}
		for txt[j] != ')' {
			j++
		}
		i = j + 1
	}
	return nil
}

func parseLit(x string) (uint64, error) {
	switch {
	case x == "true":
		return 1, nil
	case x == "false":
		return 0, nil
	case strings.HasPrefix(x, "#x"):
		return strconv.ParseUint(x[2:], 16, 64)
	case strings.HasPrefix(x, "#b"):
		return strconv.ParseUint(x[2:], 2, 64)
	}
	return 0, fmt.Errorf("bad literal %q", x)
}
