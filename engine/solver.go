package main

import (
	"bufio"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats are shared by all workers of a run.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, Fallbacks, Errors atomic.Int64
	Nanos, FallbackNanos                                       atomic.Int64
	CrossChecked, CrossAgree, CrossUnknown, CrossDisagree      atomic.Int64
	MaxQueryNanos                                              atomic.Int64
	Integer                                                    atomic.Int64 // decided in integer form
}

// Solver talks to one incremental z3 process and falls back to a portfolio
// of one-shot solvers when it answers unknown.
type Solver struct {
	ts      *Terms
	stats   *SolverStats
	bv, li  process
	cache   map[string]cached
	softMs  int
	hardMs  int
	onQuery func(text string, res SatResult, assertion bool)
}

// process is an incremental solver process for one logic.
type process struct {
	logic string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	nq    int
}

type cached struct {
	res   SatResult
	model map[int32]uint64
}

func NewSolver(ts *Terms, stats *SolverStats, softMs, hardMs int) *Solver {
	return &Solver{ts: ts, stats: stats, cache: map[string]cached{}, softMs: softMs, hardMs: hardMs,
		bv: process{logic: "QF_BV"}, li: process{logic: "QF_LIA"}}
}

const primarySolver = "z3-new"

// noIntegers keeps every query in bit-vector form.
var noIntegers = os.Getenv("VERIF_NOINT") != ""

func (s *Solver) stop() {
	s.bv.stop()
	s.li.stop()
}

func (s *process) start(softMs int) error {
	s.stop()
	s.cmd = exec.Command(primarySolver, "-in", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out, s.nq = in, bufio.NewReaderSize(out, 1<<16), 0
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic %s)\n", softMs, s.logic)
	return nil
}

func (s *process) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of the given terms. On Sat, model maps the
// query's variables to values.
func (s *Solver) Check(asserts []*Term, assertion bool) (SatResult, map[int32]uint64) {
	list := asserts[:0:0]
	for _, t := range asserts {
		if t == s.ts.T {
			continue
		}
		if t == s.ts.F {
			return Unsat, nil
		}
		list = append(list, t)
	}
	if len(list) == 0 {
		return Sat, nil
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	kb := make([]byte, 0, 4*len(list))
	var prev *Term
	uniq := list[:0]
	for _, t := range list {
		if t != prev {
			uniq = append(uniq, t)
			kb = binary.LittleEndian.AppendUint32(kb, uint32(t.id))
		}
		prev = t
	}
	list = uniq
	key := string(kb)
	if c, ok := s.cache[key]; ok {
		s.stats.CacheHits.Add(1)
		return c.res, c.model
	}
	t0 := time.Now()
	p := &smtPrinter{named: map[int32]bool{}, vars: map[int64]*Term{}}
	for _, t := range list {
		p.define(t)
	}
	for _, t := range list {
		p.sb.WriteString("(assert ")
		p.ref(t)
		p.sb.WriteString(")\n")
	}
	var decl strings.Builder
	vars := make([]*Term, 0, len(p.vars))
	for _, v := range p.vars {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].val < vars[j].val })
	for _, v := range vars {
		fmt.Fprintf(&decl, "(declare-const %s %s)\n", varName(v), sortOf(v.w))
	}
	text := decl.String() + p.sb.String()
	res, model := Unknown, map[int32]uint64(nil)
	if lin, ok := integers(list); ok && !noIntegers {
		if res, model = s.ask(&s.li, lin, vars, 2000); res != Unknown {
			s.stats.Integer.Add(1)
		}
	}
	if res == Unknown {
		res, model = s.ask(&s.bv, text, vars, s.softMs)
	}
	s.stats.Queries.Add(1)
	if res == Unknown {
		s.stats.Fallbacks.Add(1)
		f0 := time.Now()
		res, model = portfolio(text, vars, s.hardMs)
		s.stats.FallbackNanos.Add(int64(time.Since(f0)))
	}
	switch res {
	case Sat:
		s.stats.Sat.Add(1)
		// guard against solver or printing mistakes: the model must satisfy the query
		full := s.ts.model
		chk := make([]uint64, len(full))
		copy(chk, full)
		for i, v := range model {
			for int(i) >= len(chk) {
				chk = append(chk, 0)
			}
			chk[i] = v
		}
		s.ts.SetModel(chk)
		for _, t := range list {
			if s.ts.Eval(t) != 1 {
				s.stats.Errors.Add(1)
				res, model = Unknown, nil
				break
			}
		}
		s.ts.SetModel(full)
	case Unsat:
		s.stats.Unsat.Add(1)
	}
	if res == Unknown {
		s.stats.Unknown.Add(1)
	} else {
		if len(s.cache) > 200000 {
			s.cache = map[string]cached{}
		}
		s.cache[key] = cached{res, model}
	}
	d := int64(time.Since(t0))
	s.stats.Nanos.Add(d)
	for {
		m := s.stats.MaxQueryNanos.Load()
		if d <= m || s.stats.MaxQueryNanos.CompareAndSwap(m, d) {
			break
		}
	}
	if s.onQuery != nil {
		s.onQuery(text, res, assertion)
	}
	return res, model
}

func (s *Solver) ask(p *process, text string, vars []*Term, softMs int) (SatResult, map[int32]uint64) {
	if p.cmd == nil || p.nq > 4000 {
		if err := p.start(softMs); err != nil {
			return Unknown, nil
		}
	}
	p.nq++
	killed := make(chan struct{})
	cmd := p.cmd
	timer := time.AfterFunc(time.Duration(softMs+3000)*time.Millisecond, func() {
		close(killed)
		cmd.Process.Kill()
	})
	defer timer.Stop()
	io.WriteString(p.in, "(push 1)\n")
	io.WriteString(p.in, text)
	io.WriteString(p.in, "(check-sat)\n")
	line, err := p.readLine()
	if err != nil {
		p.stop()
		return Unknown, nil
	}
	if strings.HasPrefix(line, "(error") {
		s.stats.Errors.Add(1)
		p.stop()
		return Unknown, nil
	}
	if line != "sat" && line != "unsat" {
		p.stop()
		return Unknown, nil
	}
	res := Unsat
	var model map[int32]uint64
	if line == "sat" {
		res = Sat
		model = map[int32]uint64{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(varName(v))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n(echo \"end\")\n")
			io.WriteString(p.in, sb.String())
			var txt strings.Builder
			for {
				l, err := p.readLine()
				if err != nil || strings.HasPrefix(l, "(error") {
					s.stats.Errors.Add(1)
					p.stop()
					return Unknown, nil
				}
				if l == "end" || l == "\"end\"" {
					break
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
			}
			model = parseModel(txt.String())
			if len(model) != len(vars) {
				s.stats.Errors.Add(1)
				p.stop()
				return Unknown, nil
			}
		}
	}
	io.WriteString(p.in, "(pop 1)\n")
	return res, model
}

func (s *process) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// parseModel reads "((x0_8 #x1f) (x1_0 true) ...)".
func parseModel(txt string) map[int32]uint64 {
	m := map[int32]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); {
		name := f[i]
		if !strings.HasPrefix(name, "x") {
			i++
			continue
		}
		us := strings.IndexByte(name, '_')
		if us < 0 {
			i++
			continue
		}
		idx, err := strconv.Atoi(name[1:us])
		if err != nil {
			i++
			continue
		}
		val := f[i+1]
		i += 2
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "_" && i < len(f) && strings.HasPrefix(f[i], "bv"):
			v, _ = strconv.ParseUint(f[i][2:], 10, 64)
			i += 2
		case val[0] >= '0' && val[0] <= '9':
			v, _ = strconv.ParseUint(val, 10, 64)
		case val == "-" && i < len(f):
			w, _ := strconv.Atoi(name[us+1:])
			v, _ = strconv.ParseUint(f[i], 10, 64)
			v = -v & mask(uint8(w))
			i++
		default:
			continue
		}
		m[int32(idx)] = v
	}
	return m
}

type oneShot struct {
	name string
	args []string
	pre  string
}

var portfolioSolvers = []oneShot{
	{"z3-new", []string{"-in", "-memory:4000"}, ""},
	{"cvc5", []string{"--produce-models", "-"}, "(set-logic QF_BV)\n"},
	{"cvc5", []string{"--produce-models", "--solve-bv-as-int=sum", "-"}, "(set-logic QF_BV)\n"},
	{"z3", []string{"-in", "-memory:4000"}, "(set-logic QF_BV)\n"},
}

func runOneShot(ctx context.Context, o oneShot, text string, vars []*Term) (SatResult, map[int32]uint64) {
	var sb strings.Builder
	sb.WriteString(o.pre)
	sb.WriteString("(set-option :produce-models true)\n")
	if o.pre != "" {
		// set-option must precede set-logic for some solvers
		sb.Reset()
		sb.WriteString("(set-option :produce-models true)\n" + o.pre)
	}
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(varName(v) + " ")
		}
		sb.WriteString("))\n")
	}
	cmd := exec.CommandContext(ctx, o.name, o.args...)
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	lines := strings.SplitN(string(out), "\n", 2)
	switch strings.TrimSpace(lines[0]) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(lines) < 2 || strings.Contains(lines[1], "(error") {
			if len(vars) > 0 {
				return Unknown, nil
			}
			return Sat, map[int32]uint64{}
		}
		m := parseModel(lines[1])
		if len(m) != len(vars) {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

// At most a few portfolio runs at a time, so that eight stuck workers do not
// start thirty processes.
var portfolioSem = make(chan struct{}, 3)

func portfolio(text string, vars []*Term, ms int) (SatResult, map[int32]uint64) {
	portfolioSem <- struct{}{}
	defer func() { <-portfolioSem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	defer cancel()
	type ans struct {
		r SatResult
		m map[int32]uint64
	}
	ch := make(chan ans, len(portfolioSolvers))
	var wg sync.WaitGroup
	for _, o := range portfolioSolvers {
		wg.Add(1)
		go func(o oneShot) {
			defer wg.Done()
			r, m := runOneShot(ctx, o, text, vars)
			ch <- ans{r, m}
		}(o)
	}
	res := ans{Unknown, nil}
	for range portfolioSolvers {
		a := <-ch
		if a.r != Unknown {
			res = a
			cancel()
			break
		}
	}
	go wg.Wait()
	return res.r, res.m
}
