package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

func (r SatResult) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// proc is one solver process fed through stdin.
type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	seq int
}

func startProc(bin string, args ...string) *proc {
	c := exec.Command(bin, args...)
	in, err := c.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := c.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}
}

func (p *proc) kill() {
	if p == nil {
		return
	}
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// watch kills the process if it does not answer in time; the returned function ends the watch.
func (p *proc) watch(ms int) func() {
	t := time.AfterFunc(time.Duration(ms)*time.Millisecond*3/2+time.Second, func() { p.cmd.Process.Kill() })
	return func() { t.Stop() }
}

func (p *proc) write(s string) { io.WriteString(p.in, s) }

func (p *proc) line() (string, error) {
	for {
		s, err := p.out.ReadString('\n')
		s = strings.TrimSpace(s)
		if s != "" || err != nil {
			return s, err
		}
	}
}

// sync checks that the process has answered everything it was asked.
func (p *proc) sync() bool {
	p.seq++
	m := fmt.Sprintf("sync%d", p.seq)
	p.write("(echo \"" + m + "\")\n")
	s, err := p.line()
	return err == nil && strings.Trim(s, "\"") == m
}

// sexpr reads one balanced s-expression (or atom line).
func (p *proc) sexpr() (string, error) {
	var b strings.Builder
	depth, started, bar := 0, false, false
	for {
		c, err := p.out.ReadByte()
		if err != nil {
			return b.String(), err
		}
		if !started && (c == ' ' || c == '\n' || c == '\r') {
			continue
		}
		started = true
		b.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		case '\n':
			if depth == 0 {
				return strings.TrimSpace(b.String()), nil
			}
		}
	}
}

// Stats are per worker, merged at the end.
type Stats struct {
	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Errors   int
	SolverNS int64
	MaxNS    int64
	NLQ      int
	CvcQ     int
	Cached   int
}

func (s *Stats) add(o *Stats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.Errors += o.Errors
	s.SolverNS += o.SolverNS
	if o.MaxNS > s.MaxNS {
		s.MaxNS = o.MaxNS
	}
	s.NLQ += o.NLQ
	s.CvcQ += o.CvcQ
	s.Cached += o.Cached
}

type Solver struct {
	t         *Terms
	inc       *proc // incremental z3 for linear/bv queries
	done      map[int]bool
	stack     []*Term
	one       *proc // z3 used with reset for nonlinear queries
	stats     Stats
	lastSMT   string
	timeoutMS int
}

func NewSolver(t *Terms) *Solver {
	return &Solver{t: t, done: map[int]bool{}, timeoutMS: 20000}
}

func (s *Solver) Close() {
	s.inc.kill()
	s.one.kill()
	s.inc, s.one = nil, nil
}

func (s *Solver) ensureInc() {
	if s.inc != nil && len(s.done) > 4000 {
		// a long-lived process slows down with its definitions
		s.resetInc()
	}
	if s.inc == nil {
		s.inc = startProc("z3", "-in", fmt.Sprintf("-t:%d", s.timeoutMS))
		s.inc.write("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
		s.done = map[int]bool{}
		s.stack = nil
	}
}

func (s *Solver) resetInc() { s.inc.kill(); s.inc = nil }

// Check decides satisfiability of pc /\ extra. vars lists the variables wanted in the model.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (SatResult, Model, bool) {
	t0 := time.Now()
	nl := extra.nl || extra.size > 4000
	for _, c := range pc {
		if c.nl {
			nl = true
			break
		}
	}
	var r SatResult
	var m Model
	exact := true
	if nl {
		r, m, exact = s.checkOne(pc, extra, wantModel)
	} else {
		r, m, exact = s.checkInc(pc, extra, wantModel)
	}
	d := time.Since(t0).Nanoseconds()
	s.stats.Queries++
	s.stats.SolverNS += d
	if d > s.stats.MaxNS {
		s.stats.MaxNS = d
	}
	switch r {
	case Sat:
		s.stats.SatN++
	case Unsat:
		s.stats.UnsatN++
	default:
		s.stats.UnknownN++
	}
	return r, m, exact
}

func collectVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.op == OVar {
			out = append(out, x)
		}
		st = append(st, x.args...)
	}
	return out
}

func (s *Solver) checkInc(pc []*Term, extra *Term, wantModel bool) (SatResult, Model, bool) {
	s.ensureInc()
	var b strings.Builder
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&b, "(pop %d)\n", k)
	}
	s.stack = s.stack[:n]
	for _, c := range pc[n:] {
		c.emit(&b, s.done)
		fmt.Fprintf(&b, "(push 1)\n(assert %s)\n", c.ref())
		s.stack = append(s.stack, c)
	}
	extra.emit(&b, s.done)
	fmt.Fprintf(&b, "(push 1)\n(assert %s)\n(check-sat)\n", extra.ref())
	unwatch := s.inc.watch(s.timeoutMS + 5000)
	s.inc.write(b.String())
	ans, err := s.inc.line()
	unwatch()
	if err != nil {
		s.stats.Errors++
		s.resetInc()
		return Unknown, nil, false
	}
	for strings.HasPrefix(ans, "(error") {
		s.stats.Errors++
		s.lastSMT = ans
		s.resetInc()
		return Unknown, nil, false
	}
	var r SatResult
	var m Model
	exact := true
	switch ans {
	case "sat":
		r = Sat
		if wantModel {
			m, exact = s.getModel(s.inc, append(append([]*Term{}, pc...), extra))
		}
	case "unsat":
		r = Unsat
	default:
		r = Unknown
	}
	if s.inc != nil {
		s.inc.write("(pop 1)\n")
		if !s.inc.sync() {
			s.stats.Errors++
			s.resetInc()
			return Unknown, nil, false
		}
	}
	return r, m, exact
}

func (s *Solver) checkOne(pc []*Term, extra *Term, wantModel bool) (SatResult, Model, bool) {
	s.stats.NLQ++
	var b strings.Builder
	done := map[int]bool{}
	for _, c := range pc {
		c.emit(&b, done)
		fmt.Fprintf(&b, "(assert %s)\n", c.ref())
	}
	extra.emit(&b, done)
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", extra.ref())
	script := b.String()
	if d := os.Getenv("GOSYM_QUERIES"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(script), 0o644)
	}
	to := s.timeoutMS
	if strings.Contains(script, "(_ FloatingPoint") {
		return s.race(script, to, func(p *proc) (Model, bool) {
			if !wantModel {
				return nil, true
			}
			return s.getModel(p, append(append([]*Term{}, pc...), extra))
		})
	}
	if s.one == nil {
		s.one = startProc("z3", "-in", fmt.Sprintf("-t:%d", to))
	}
	unwatch := s.one.watch(to)
	s.one.write("(reset)\n" + script)
	ans, err := s.one.line()
	unwatch()
	if err == nil && strings.HasPrefix(ans, "(error") {
		s.stats.Errors++
		s.lastSMT = ans
		s.one.kill()
		s.one = nil
		return Unknown, nil, false
	}
	if err != nil {
		// it ignored its own time limit
		s.one.kill()
		s.one = nil
		ans = "unknown"
	}
	var m1 Model
	ex1 := true
	if ans == "sat" && wantModel {
		m1, ex1 = s.getModel(s.one, append(append([]*Term{}, pc...), extra))
	}
	if s.one != nil && !s.one.sync() {
		s.stats.Errors++
		s.one.kill()
		s.one = nil
		return Unknown, nil, false
	}
	switch ans {
	case "sat":
		return Sat, m1, ex1
	case "unsat":
		return Unsat, nil, true
	}
	// second opinion
	s.stats.CvcQ++
	for _, alt := range [][]string{{"z3-new", "-in", fmt.Sprintf("-t:%d", to)}, {"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", to)}} {
		p := startProc(alt[0], alt[1:]...)
		pre := ""
		if alt[0] == "cvc5" {
			pre = "(set-logic ALL)\n"
		}
		p.write(pre + script)
		if alt[0] == "cvc5" {
			p.write("\n")
		}
		unwatch := p.watch(to)
		ans, err := p.line()
		unwatch()
		if err == nil && ans == "unsat" {
			p.kill()
			return Unsat, nil, true
		}
		if err == nil && ans == "sat" {
			var m Model
			ex := true
			if wantModel {
				m, ex = s.getModel(p, append(append([]*Term{}, pc...), extra))
			}
			p.kill()
			return Sat, m, ex
		}
		p.kill()
	}
	return Unknown, nil, false
}

// race asks z3 and cvc5 at once, for queries about rounded operations. The default strategy
// of z3 is slow on chains of these, so it is told to go straight to bits.
func (s *Solver) race(script string, to int, model func(*proc) (Model, bool)) (SatResult, Model, bool) {
	s.stats.CvcQ++
	bits := strings.Replace(script, "(check-sat)", "(check-sat-using (then simplify propagate-values fpa2bv simplify bit-blast sat))", 1)
	ps := []*proc{
		startProc("z3", "-in", fmt.Sprintf("-T:%d", to/1000+1)),
		startProc("cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", to)),
	}
	type answer struct {
		p   *proc
		ans string
	}
	c := make(chan answer, len(ps))
	for i, p := range ps {
		go func(i int, p *proc) {
			defer p.watch(to)()
			p.write([]string{bits, "(set-logic ALL)\n" + script + "\n"}[i])
			ans, err := p.line()
			if err != nil {
				ans = "unknown"
			}
			c <- answer{p, ans}
		}(i, p)
	}
	r, m, exact := Unknown, Model(nil), false
	for range ps {
		a := <-c
		if a.ans == "unsat" {
			r, exact = Unsat, true
			break
		}
		if a.ans == "sat" {
			r = Sat
			m, exact = model(a.p)
			break
		}
		if strings.HasPrefix(a.ans, "(error") {
			s.stats.Errors++
			s.lastSMT = a.ans
		}
	}
	for _, p := range ps {
		p.kill()
	}
	return r, m, exact
}

func (s *Solver) getModel(p *proc, ts []*Term) (Model, bool) {
	vars := collectVars(ts)
	m := Model{}
	if len(vars) == 0 {
		return m, true
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(v.ref())
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	p.write(b.String())
	txt, err := p.sexpr()
	if err != nil {
		return nil, false
	}
	exact := true
	if strings.Contains(txt, "root-obj") {
		exact = false
		p.write("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n" + b.String() + "(set-option :pp.decimal false)\n")
		txt, err = p.sexpr()
		if err != nil {
			return nil, false
		}
	}
	tree := parseSexpr(txt)
	if tree == nil || len(tree.kids) != len(vars) {
		return nil, false
	}
	for i, kv := range tree.kids {
		if len(kv.kids) != 2 {
			return nil, false
		}
		v := evalSexpr(kv.kids[1], vars[i])
		if v == nil {
			exact = false
			continue
		}
		m[vars[i].name] = v
	}
	return m, exact
}

type sx1 struct {
	atom string
	kids []*sx1
}

func parseSexpr(s string) *sx1 {
	pos := 0
	var rec func() *sx1
	rec = func() *sx1 {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\r' || s[pos] == '\t') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			x := &sx1{}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\r' || s[pos] == '\t') {
					pos++
				}
				if pos >= len(s) {
					return x
				}
				if s[pos] == ')' {
					pos++
					return x
				}
				x.kids = append(x.kids, rec())
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return &sx1{atom: s[st:pos]}
		}
		for pos < len(s) && !strings.ContainsRune(" \n\r\t()", rune(s[pos])) {
			pos++
		}
		return &sx1{atom: s[st:pos]}
	}
	return rec()
}

func evalSexpr(x *sx1, v *Term) interface{} {
	switch v.sort {
	case SBool:
		return x.atom == "true"
	case SReal:
		r := evalRat(x)
		if r == nil {
			return nil
		}
		return r
	case SBV:
		a := x.atom
		if strings.HasPrefix(a, "#x") {
			u, _ := strconv.ParseUint(a[2:], 16, 64)
			return u
		}
		if strings.HasPrefix(a, "#b") {
			u, _ := strconv.ParseUint(a[2:], 2, 64)
			return u
		}
		if len(x.kids) == 3 && strings.HasPrefix(x.kids[1].atom, "bv") {
			u, _ := strconv.ParseUint(x.kids[1].atom[2:], 10, 64)
			return u
		}
	case SFP:
		if len(x.kids) >= 2 && x.kids[0].atom == "_" {
			switch x.kids[1].atom {
			case "NaN":
				return math.NaN()
			case "+oo":
				return math.Inf(1)
			case "-oo":
				return math.Inf(-1)
			case "+zero":
				return 0.0
			case "-zero":
				return math.Copysign(0, -1)
			}
		}
		if len(x.kids) == 4 && x.kids[0].atom == "fp" {
			var bits uint64
			for i, w := range []int{1, 11, 52} {
				a := x.kids[i+1].atom
				var u uint64
				if strings.HasPrefix(a, "#x") {
					u, _ = strconv.ParseUint(a[2:], 16, 64)
				} else {
					u, _ = strconv.ParseUint(a[2:], 2, 64)
				}
				bits = bits<<uint(w) | u
			}
			return math.Float64frombits(bits)
		}
	}
	return nil
}

func evalRat(x *sx1) *big.Rat {
	if x.kids == nil {
		a := strings.TrimSuffix(x.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		if !ok {
			return nil
		}
		return r
	}
	if len(x.kids) == 2 && x.kids[0].atom == "-" {
		r := evalRat(x.kids[1])
		if r == nil {
			return nil
		}
		return new(big.Rat).Neg(r)
	}
	if len(x.kids) == 3 && x.kids[0].atom == "/" {
		a, b := evalRat(x.kids[1]), evalRat(x.kids[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(a, b)
	}
	return nil
}

// Script renders a query for debugging.
func (s *Solver) Script(pc []*Term, extra *Term) string {
	var b strings.Builder
	done := map[int]bool{}
	for _, c := range pc {
		c.emit(&b, done)
		fmt.Fprintf(&b, "(assert %s)\n", c.ref())
	}
	extra.emit(&b, done)
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", extra.ref())
	return b.String()
}
