package main

// SMT-LIB2 back end: one long-lived solver process per worker, driven over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	Nanos                           int64
	Fallback                        int64
}

var gStats SolverStats

type Solver struct {
	tc      *TC
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	emitted map[uint32]bool
	last   *Term
	declUF  map[string]bool
	sb      strings.Builder
	timeout time.Duration
	dead    bool
	log     io.Writer
	defs    int
}

var solverBin = []string{"z3-new", "-in", "-smt2"}

func NewSolver(tc *TC, timeout time.Duration) *Solver {
	s := &Solver{tc: tc, timeout: timeout}
	s.start()
	return s
}

const prelude = "(define-fun hexc ((n (_ BitVec 4))) (_ BitVec 8) (ite (bvult n #xa) (bvadd #x30 (concat #x0 n)) (bvadd #x57 (concat #x0 n))))\n" +
	"(define-fun b64c ((n (_ BitVec 6))) (_ BitVec 8) (let ((m (concat #b00 n))) (ite (bvult m #x1a) (bvadd m #x41) (ite (bvult m #x34) (bvadd m #x47) (ite (bvult m #x3e) (bvsub m #x04) (ite (= m #x3e) #x2b #x2f))))))\n"

func (s *Solver) start() {
	s.emitted = map[uint32]bool{}
	s.declUF = map[string]bool{}
	s.defs = 0
	s.cmd = exec.Command(solverBin[0], solverBin[1:]...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout.Milliseconds())
	s.in.WriteString(prelude)
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" && s.log == nil {
		s.log, _ = os.CreateTemp(p, "smt-*.smt2")
		io.WriteString(s.log, "(set-option :global-declarations true)\n"+prelude)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.dead = true
}

func (s *Solver) Restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func sortName(w int32) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.v == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		h := t.bigVal().Text(16)
		return "#x" + strings.Repeat("0", int(t.w/4)-len(h)) + h
	}
	h := t.bigVal().Text(2)
	return "#b" + strings.Repeat("0", int(t.w)-len(h)) + h
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func ufSym(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.name)
	for _, a := range t.a {
		fmt.Fprintf(&sb, "_%d", a.w)
	}
	fmt.Fprintf(&sb, "_r%d", t.w)
	return "|" + sb.String() + "|"
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OUF:
		if len(t.a) == 0 {
			return ufSym(t)
		}
		sb.WriteString(ufSym(t))
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", int32(t.v)+t.w-1, t.v)
	case OSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a[0].w)
	case OConcat:
		if len(t.a) > 2 { // concat is binary in SMT-LIB
			for i := 0; i < len(t.a)-1; i++ {
				sb.WriteString("concat ")
				sb.WriteString(t.a[i].ref())
				if i < len(t.a)-2 {
					sb.WriteString(" (")
				}
			}
			sb.WriteByte(' ')
			sb.WriteString(t.a[len(t.a)-1].ref())
			sb.WriteString(strings.Repeat(")", len(t.a)-1))
			return sb.String()
		}
		sb.WriteString("concat")
	default:
		sb.WriteString(opName[t.op])
	}
	for _, a := range t.a {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

// define emits definitions for t and everything it needs into w.
func define(t *Term, emitted map[uint32]bool, declUF map[string]bool, w func(string)) int {
	if t.op == OConst || emitted[t.id] {
		return 0
	}
	n := 0
	type item struct {
		t *Term
		i int
	}
	st := []item{{t, 0}}
	for len(st) > 0 {
		top := &st[len(st)-1]
		if top.i < len(top.t.a) {
			a := top.t.a[top.i]
			top.i++
			if a.op != OConst && !emitted[a.id] {
				st = append(st, item{a, 0})
			}
			continue
		}
		x := top.t
		st = st[:len(st)-1]
		if emitted[x.id] {
			continue
		}
		emitted[x.id] = true
		n++
		if x.op == OVar {
			w(fmt.Sprintf("(declare-const %s %s)\n", x.ref(), sortName(x.w)))
			continue
		}
		if x.op == OUF {
			sym := ufSym(x)
			if !declUF[sym] {
				declUF[sym] = true
				var as []string
				for _, a := range x.a {
					as = append(as, sortName(a.w))
				}
				w(fmt.Sprintf("(declare-fun %s (%s) %s)\n", sym, strings.Join(as, " "), sortName(x.w)))
			}
		}
		w(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.w), x.body()))
	}
	return n
}

func (s *Solver) Define(t *Term) { s.defs += define(t, s.emitted, s.declUF, s.send) }

func (s *Solver) Push() { s.send("(push 1)\n") }
func (s *Solver) Pop()  { s.send("(pop 1)\n") }

// slowLog (GOSYM_SLOW) reports slow queries with the last formula asserted.
var slowLog = os.Getenv("GOSYM_SLOW") != ""

func (s *Solver) Assert(t *Term) {
	s.last = t
	s.Define(t)
	s.send("(assert " + t.ref() + ")\n")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) CheckSat() SatRes {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	atomic.AddInt64(&gStats.Queries, 1)
	timer := time.AfterFunc(s.timeout+10*time.Second, func() { s.cmd.Process.Kill() })
	l, err := s.readLine()
	timer.Stop()
	atomic.AddInt64(&gStats.Nanos, int64(time.Since(t0)))
	if slowLog && time.Since(t0) > time.Second {
		fmt.Fprintln(os.Stderr, "SLOW", time.Since(t0), l, s.last)
	}
	if err != nil {
		s.dead = true
		atomic.AddInt64(&gStats.UnknownN, 1)
		return Unknown
	}
	switch l {
	case "sat":
		atomic.AddInt64(&gStats.SatN, 1)
		return Sat
	case "unsat":
		atomic.AddInt64(&gStats.UnsatN, 1)
		return Unsat
	}
	if strings.Contains(l, "error") {
		fmt.Fprintln(os.Stderr, "solver error:", l)
		s.dead = true
	}
	atomic.AddInt64(&gStats.UnknownN, 1)
	return Unknown
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
				started = true
			} else if b == ')' {
				depth--
			}
		}
		if started {
			sb.WriteByte(b)
		}
		if started && depth == 0 {
			// consume rest of line
			s.out.ReadString('\n')
			return sb.String(), nil
		}
	}
}

func parseVal(v string) *big.Int {
	switch {
	case v == "true":
		return big.NewInt(1)
	case v == "false":
		return big.NewInt(0)
	case strings.HasPrefix(v, "#x"):
		b, ok := new(big.Int).SetString(v[2:], 16)
		if ok {
			return b
		}
	case strings.HasPrefix(v, "#b"):
		b, ok := new(big.Int).SetString(v[2:], 2)
		if ok {
			return b
		}
	}
	return nil
}

// parseValues parses ((ref val) (ref val) ...), returning values in order.
func parseValues(sx string) []*big.Int {
	var out []*big.Int
	depth := 0
	i := 0
	var toks []string
	for i < len(sx) {
		switch ch := sx[i]; {
		case ch == '(':
			depth++
			i++
			if depth == 2 {
				toks = nil
			}
		case ch == ')':
			if depth == 2 && len(toks) >= 2 {
				out = append(out, parseVal(toks[len(toks)-1]))
			}
			depth--
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(sx[i+1:], '|') + i + 2
			toks = append(toks, sx[i:j])
			i = j
		default:
			j := i
			for j < len(sx) && !strings.ContainsRune("() \n\t\r", rune(sx[j])) {
				j++
			}
			toks = append(toks, sx[i:j])
			i = j
		}
	}
	return out
}

// Values returns model values for the terms after a Sat answer.
func (s *Solver) Values(ts []*Term) ([]*big.Int, error) {
	if len(ts) == 0 {
		return nil, nil
	}
	out := make([]*big.Int, len(ts))
	const chunk = 200
	for lo := 0; lo < len(ts); lo += chunk {
		hi := min(lo+chunk, len(ts))
		var sb strings.Builder
		sb.WriteString("(get-value (")
		idx := []int{}
		for i := lo; i < hi; i++ {
			if ts[i].isConst() {
				out[i] = ts[i].bigVal()
				continue
			}
			if !s.emitted[ts[i].id] {
				// term unknown to the solver: unconstrained
				out[i] = big.NewInt(0)
				continue
			}
			idx = append(idx, i)
			sb.WriteString(ts[i].ref())
			sb.WriteByte(' ')
		}
		if len(idx) == 0 {
			continue
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		s.in.Flush()
		sx, err := s.readSexp()
		if err != nil {
			s.dead = true
			return nil, err
		}
		vs := parseValues(sx)
		if len(vs) != len(idx) {
			s.dead = true
			return nil, fmt.Errorf("get-value: %d values for %d terms: %.200s", len(vs), len(idx), sx)
		}
		for k, i := range idx {
			if vs[k] == nil {
				return nil, fmt.Errorf("get-value: unparsable value")
			}
			out[i] = vs[k]
		}
	}
	return out, nil
}

// OneShot runs a standalone query with the given command; used as a fallback and for cross checks.
func OneShot(cmdline []string, cs []*Term, timeout time.Duration) SatRes {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_UFBV)\n")
	sb.WriteString(prelude)
	em, du := map[uint32]bool{}, map[string]bool{}
	for _, c := range cs {
		define(c, em, du, func(x string) { sb.WriteString(x) })
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	cmd := exec.Command(cmdline[0], cmdline[1:]...)
	cmd.Stdin = strings.NewReader(sb.String())
	timer := time.AfterFunc(timeout, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	out, _ := cmd.Output()
	timer.Stop()
	atomic.AddInt64(&gStats.Queries, 1)
	atomic.AddInt64(&gStats.Fallback, 1)
	atomic.AddInt64(&gStats.Nanos, int64(time.Since(t0)))
	l := strings.TrimSpace(string(out))
	if strings.Contains(l, "error") {
		return Unknown
	}
	switch l {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}
