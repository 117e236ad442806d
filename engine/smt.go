package main

// One solver process per worker, spoken to in SMT-LIB2 over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inp      io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	declared map[string]bool
	queries  int64
	unknowns int64
	spent    time.Duration
	kind     string
	log      io.Writer
	dead     bool
}

var solverCmd = []string{"z3-new", "-in"}
var solverTimeoutMs = 30000

func newSolver() (*Solver, error) {
	s := &Solver{}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(solverCmd[0], solverCmd[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inp = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.declared = map[string]bool{}
	s.dead = false
	if d := os.Getenv("GOSYM_SMTLOG"); d != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s/%d.smt2", d, s.cmd.Process.Pid))
	}
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(solverCmd[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", solverTimeoutMs))
	} else {
		s.send(fmt.Sprintf("(set-logic ALL)\n"))
	}
	return nil
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inp.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) define(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OVar {
		if !s.declared[t.name] {
			s.declared[t.name] = true
			s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, sortStr(t)))
		}
		return
	}
	if s.defined[t.id] {
		return
	}
	// iterative post-order, since chains can be long
	stack := []*Term{t}
	for len(stack) > 0 {
		c := stack[len(stack)-1]
		if c.op == OConst || s.defined[c.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		if c.op == OVar {
			s.define(c)
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range c.a {
			if a.op == OConst {
				continue
			}
			if a.op == OVar {
				if !s.declared[a.name] {
					s.define(a)
				}
				continue
			}
			if !s.defined[a.id] {
				stack = append(stack, a)
				ready = false
			}
		}
		if ready {
			s.defined[c.id] = true
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", c.id, sortStr(c), c.body()))
			stack = stack[:len(stack)-1]
		}
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// check decides the conjunction of cs; with a model of vars when satisfiable.
func (s *Solver) check(cs []*Term, vars []*Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	s.queries++
	if s.dead {
		s.restart()
	}
	s.defined = map[int]bool{}
	s.declared = map[string]bool{}
	s.send("(push 1)\n")
	for _, v := range vars {
		s.define(v)
	}
	for _, c := range cs {
		s.define(c)
		s.send("(assert " + c.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		s.unknowns++
		return Unknown, nil
	}
	timer := time.AfterFunc(time.Duration(solverTimeoutMs+10000)*time.Millisecond, func() { s.cmd.Process.Kill() })
	l, err := s.readLine()
	timer.Stop()
	if err != nil {
		s.dead = true
		s.unknowns++
		return Unknown, nil
	}
	res := Unknown
	var m Model
	switch {
	case l == "sat":
		res = Sat
		m = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(" |" + v.name + "|")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.Contains(txt, "(error") {
				s.dead = true
				s.unknowns++
				return Unknown, nil
			}
			parseModel(txt, m)
		}
	case l == "unsat":
		res = Unsat
	case l == "unknown" || l == "timeout":
		s.unknowns++
	default: // an (error ...) line: inconclusive, and the state of the process is not trusted
		debugf("solver said: %s", l)
		s.dead = true
		s.unknowns++
		return Unknown, nil
	}
	s.send("(pop 1)\n")
	return res, m
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, m Model) {
	// ((|a| #x00) (|b| true) ...)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		var name string
		if j < 0 {
			return
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name = txt[i : i+k]
		i += k + 1
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		e := i
		for e < len(txt) && txt[e] != ')' {
			e++
		}
		v := strings.TrimSpace(txt[i:e])
		i = e
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = u
		}
	}
}
