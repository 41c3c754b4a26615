package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental SMT process. The assertion stack is kept aligned
// with the path condition by [sync].
type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stack  []*Term
	buf    strings.Builder
	tt     *TermTable
	bin    []string
	nq     int
	nUnk   int
	dur    time.Duration
	defs   []*Term // emitted terms
	ndefs  int
	dead   bool
	tmo    int
	logger io.Writer
}

func newSolver(tt *TermTable, bin []string, tmoMS int) *Solver {
	s := &Solver{tt: tt, bin: bin, tmo: tmoMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.dead = false
	for _, t := range s.defs {
		t.emitted = false
	}
	s.defs = s.defs[:0]
	for _, v := range s.tt.vars {
		v.decl = false
	}
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.tmo)
	}
	if strings.Contains(s.bin[0], "cvc5") {
		fmt.Fprintf(&s.buf, "(set-option :tlimit-per %d)\n", s.tmo)
	}
	s.buf.WriteString("(set-logic ALL)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) declare(v *Var) {
	if v.decl {
		return
	}
	v.decl = true
	fmt.Fprintf(&s.buf, "(declare-const %s (_ BitVec %d))\n", v.name, v.bits)
}

// emit writes the definitions needed by t
func (s *Solver) emit(t *Term) {
	if t.emitted || t.op == OpConst {
		return
	}
	if t.op == OpVar {
		s.declare(t.v)
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t    *Term
		done bool
	}
	stack := []fr{{t, false}}
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		x := f.t
		if x.emitted || x.op == OpConst {
			continue
		}
		if x.op == OpVar {
			s.declare(x.v)
			continue
		}
		if x.op == OpTab {
			s.declare(x.v)
		}
		tab := ""
		if x.fp && !f.done {
			tab = s.floatTable(x)
		}
		if !f.done && x.op != OpTab && tab == "" {
			stack = append(stack, fr{x, true})
			for _, c := range [3]*Term{x.c, x.b, x.a} {
				if c != nil && !c.emitted && c.op != OpConst {
					stack = append(stack, fr{c, false})
				}
			}
			continue
		}
		x.emitted = true
		s.defs = append(s.defs, x)
		if tab == "" {
			tab = x.body()
		}
		fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", x.id, sortSMT(x.w), tab)
	}
}

func (s *Solver) flush() {
	if s.logger != nil {
		io.WriteString(s.logger, s.buf.String())
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.dead = true
	}
	s.buf.Reset()
}

func (s *Solver) sync(pc []*Term) {
	if len(s.defs) > 300000 {
		s.restart()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.emit(pc[n])
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", pc[n].ref())
		s.stack = append(s.stack, pc[n])
	}
}

// path variables are needed for the range constraints and the models
func (s *Solver) check(pc []*Term, vars []*Var, extra ...*Term) (res int, m *Model) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.nq++
	if s.dead {
		s.restart()
	}
	s.sync(pc)
	s.buf.WriteString("(push 1)\n")
	for _, v := range vars {
		s.declare(v)
		if v.n > 0 && v.n != 1<<v.bits {
			fmt.Fprintf(&s.buf, "(assert (bvult %s (_ bv%d %d)))\n", v.name, v.n, v.bits)
		}
	}
	for _, t := range extra {
		s.emit(t)
		fmt.Fprintf(&s.buf, "(assert %s)\n", t.ref())
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	line, err := s.readLine()
	if err != nil {
		s.dead = true
		s.nUnk++
		return -1, nil
	}
	switch line {
	case "unsat":
		res = 0
	case "sat":
		res = 1
		m = &Model{}
		if len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(v.name)
				s.buf.WriteByte(' ')
			}
			s.buf.WriteString("))\n")
			s.flush()
			vals, err := s.readValues(len(vars))
			if err != nil {
				s.dead = true
				s.nUnk++
				return -1, nil
			}
			for i, v := range vars {
				for len(m.vals) <= v.idx {
					m.vals = append(m.vals, 0)
				}
				m.vals[v.idx] = int64(uint64(v.lo) + vals[i])
			}
		}
	case "unknown", "timeout":
		res = -1
		s.nUnk++
	default:
		// error
		fmt.Println("solver:", line)
		s.dead = true
		s.nUnk++
		return -1, nil
	}
	s.buf.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) readValues(n int) ([]uint64, error) {
	var out []uint64
	depth := 0
	var text strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		text.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	str := text.String()
	for i := 0; i < len(str); i++ {
		if str[i] == '#' {
			j := i + 2
			for j < len(str) && str[j] != ')' && str[j] != ' ' && str[j] != '\n' {
				j++
			}
			base := 16
			if str[i+1] == 'b' {
				base = 2
			}
			x, err := strconv.ParseUint(str[i+2:j], base, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, x)
			i = j
		} else if strings.HasPrefix(str[i:], "(_ bv") {
			j := i + 5
			for str[j] != ' ' {
				j++
			}
			x, err := strconv.ParseUint(str[i+5:j], 10, 64)
			if err != nil {
				return nil, err
			}
			out = append(out, x)
			i = j
			for str[i] != ')' {
				i++
			}
		}
	}
	if len(out) != n {
		return nil, fmt.Errorf("bad model %q", str)
	}
	return out, nil
}
