package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process. The assertion stack mirrors a list of
// path constraints; it is synchronised lazily.
type Solver struct {
	store    *TermStore
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared int
	stack    []*Term
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	timeout  int // ms
	dead     bool
	binary   string
	errs     []string
}

func NewSolver(store *TermStore, timeoutMs int) *Solver {
	s := &Solver{store: store, timeout: timeoutMs, binary: "z3"}
	if b := os.Getenv("VX_SOLVER"); b != "" {
		s.binary = b
	}
	s.start()
	return s
}

func (s *Solver) start() {
	var cmd *exec.Cmd
	if strings.Contains(s.binary, "cvc5") {
		cmd = exec.Command(s.binary, "--incremental", "--produce-models", "--lang=smt2", "--tlimit-per="+strconv.Itoa(s.timeout))
	} else {
		cmd = exec.Command(s.binary, "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.declared = 0
	s.stack = nil
	s.dead = false
	if strings.Contains(s.binary, "cvc5") {
		s.send("(set-logic ALL)\n")
	} else {
		s.send(fmt.Sprintf("(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout))
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if _, err := io.WriteString(s.in, x); err != nil {
		s.dead = true
	}
}

func (s *Solver) declareNew() string {
	if s.declared == len(s.store.vars) {
		return ""
	}
	// declarations must live at level 0
	var sb strings.Builder
	if len(s.stack) > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack))
		s.stack = s.stack[:0]
	}
	for ; s.declared < len(s.store.vars); s.declared++ {
		v := s.store.vars[s.declared]
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", varSym(uint64(s.declared)), sortName(v.w))
	}
	return sb.String()
}

func (s *Solver) sync(pc []*Term) string {
	var sb strings.Builder
	sb.WriteString(s.declareNew())
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if len(s.stack) > i {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack)-i)
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		sb.WriteString("(push 1)(assert ")
		sb.WriteString(pc[i].SMT())
		sb.WriteString(")\n")
		s.stack = append(s.stack, pc[i])
	}
	return sb.String()
}

type SatResult int

const (
	UNSAT SatResult = iota
	SAT
	UNKNOWN
)

// Check asks whether pc and all extra terms are jointly satisfiable. If model is
// non-nil and the answer is SAT the values of the variables are stored there.
func (s *Solver) Check(pc []*Term, extra []*Term, model Assign, vars []int32) SatResult {
	if s.dead {
		s.Close()
		s.start()
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	var sb strings.Builder
	sb.WriteString(s.sync(pc))
	if len(extra) > 0 {
		sb.WriteString("(push 1)")
		for _, e := range extra {
			sb.WriteString("(assert ")
			sb.WriteString(e.SMT())
			sb.WriteString(")")
		}
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	line := s.readLine()
	res := UNKNOWN
	switch line {
	case "sat":
		res = SAT
		s.Sat++
	case "unsat":
		res = UNSAT
		s.Unsat++
	default:
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			s.errs = append(s.errs, line)
			s.dead = true
			s.Close()
			s.start()
			return UNKNOWN
		}
	}
	if res == SAT && model != nil && len(vars) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vars {
			q.WriteString(varSym(uint64(v)))
			q.WriteByte(' ')
		}
		q.WriteString("))\n")
		s.send(q.String())
		if err := s.readModel(model); err != nil {
			s.errs = append(s.errs, err.Error())
			s.Close()
			s.start()
			return UNKNOWN
		}
	}
	if len(extra) > 0 {
		s.send("(pop 1)\n")
	}
	return res
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "(error \"solver died\")"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readModel(model Assign) error {
	depth := 0
	var sb strings.Builder
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return err
		}
		if b == '(' {
			depth++
			started = true
		}
		if started {
			sb.WriteByte(b)
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	x, _ := parseSexp(sb.String(), 0)
	l, ok := x.([]any)
	if !ok {
		return fmt.Errorf("bad model %q", sb.String())
	}
	for _, e := range l {
		p, ok := e.([]any)
		if !ok || len(p) != 2 {
			return fmt.Errorf("bad model entry %q", sb.String())
		}
		name, _ := p[0].(string)
		idx, err := strconv.Atoi(strings.TrimPrefix(name, "v"))
		if err != nil {
			return fmt.Errorf("bad model name %q", name)
		}
		v, err := parseConst(p[1])
		if err != nil {
			return err
		}
		model[int32(idx)] = v
	}
	return nil
}

func parseConst(x any) (uint64, error) {
	switch x := x.(type) {
	case string:
		switch {
		case x == "true":
			return 1, nil
		case x == "false":
			return 0, nil
		case strings.HasPrefix(x, "#x"):
			return strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			return strconv.ParseUint(x[2:], 2, 64)
		}
	case []any:
		if len(x) == 4 && x[0] == "fp" {
			a, e1 := parseConst(x[1])
			b, e2 := parseConst(x[2])
			c, e3 := parseConst(x[3])
			if e1 == nil && e2 == nil && e3 == nil {
				return a<<63 | b<<52 | c, nil
			}
		}
		if len(x) == 4 && x[0] == "_" {
			switch x[1] {
			case "+zero":
				return 0, nil
			case "-zero":
				return 1 << 63, nil
			case "+oo":
				return 0x7ff << 52, nil
			case "-oo":
				return 0xfff << 52, nil
			case "NaN":
				return 0x7ff8000000000001, nil
			}
		}
	}
	return 0, fmt.Errorf("cannot parse constant %v", x)
}

func parseSexp(s string, i int) (any, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return nil, i
	}
	if s[i] == '(' {
		i++
		var l []any
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return l, i
			}
			if s[i] == ')' {
				return l, i + 1
			}
			var x any
			x, i = parseSexp(s, i)
			l = append(l, x)
		}
	}
	j := i
	for j < len(s) && s[j] != ' ' && s[j] != '\n' && s[j] != ')' && s[j] != '(' {
		j++
	}
	return s[i:j], j
}
